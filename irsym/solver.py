"""Queries over terms, decided by z3 (bit-vectors), with native model extraction."""
import subprocess
import time
import z3
from . import terms as T
from .terms import Term
from .lia import Lia


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.trivial = 0
        self.by = {}

    def dump(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown,
                    solver_s=round(self.time, 3), decided_by_simplifier=self.trivial, by=dict(self.by))


def _log2ceil(n):
    return max(1, (n - 1).bit_length())


class Bv(object):
    """translation of terms to z3 bit-vectors"""

    def __init__(self, abstract=()):
        self.v = {}
        self.b = {}
        self.abstract = set(abstract)  # names of operations replaced by fresh variables
        self.side = []  # constraints on abstracted results
        self.abs_terms = {}
        self.groups = {}
        self.pairs = []  # congruences between abstracted results

    def bv(self, t, w=None):
        if type(t) is int:
            return z3.BitVecVal(t, w)
        r = self.v.get(t.id)
        if r is None:
            self._do(t)
            r = self.v.get(t.id)
            if r is None:
                r = z3.If(self.b[t.id], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                self.v[t.id] = r
        return r

    def bool(self, t):
        if type(t) is int:
            return z3.BoolVal(bool(t))
        r = self.b.get(t.id)
        if r is None:
            self._do(t)
            r = self.b.get(t.id)
            if r is None:
                r = self.v[t.id] == z3.BitVecVal(1, 1)
                self.b[t.id] = r
        return r

    def _do(self, root):
        done = self.v.keys() | self.b.keys()
        for t in T.topo([root], done):
            self._one(t)

    def _g(self, x, w):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        r = self.v.get(x.id)
        if r is None:
            r = z3.If(self.b[x.id], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            self.v[x.id] = r
        return r

    def _gb(self, x):
        if type(x) is int:
            return z3.BoolVal(bool(x))
        r = self.b.get(x.id)
        if r is None:
            r = self.v[x.id] == z3.BitVecVal(1, 1)
            self.b[x.id] = r
        return r

    def _one(self, t):
        op, w, a = t.op, t.w, t.a
        g = self._g
        if op in self.abstract:
            v = z3.BitVec("abs!%d" % t.id, w)
            self.abs_terms[t.id] = t
            if t.lo > 0:
                self.side.append((t.id, z3.UGE(v, z3.BitVecVal(t.lo, w))))
            if t.hi < (1 << w) - 1:
                self.side.append((t.id, z3.ULE(v, z3.BitVecVal(t.hi, w))))
            if op == "ctpop":
                # a value below 2^k has at most k ones
                x = g(a[0], w)
                for k in range(w):
                    self.side.append((t.id, z3.Implies(z3.Extract(w - 1, k, x) == 0, z3.ULE(v, z3.BitVecVal(k, w)))))
            if op in ("udiv", "urem"):
                # equal operands, equal results
                for u, uv in self.groups.setdefault((op, w), []):
                    if len(self.groups[op, w]) > 24:
                        break
                    c = z3.And(g(a[0], w) == g(u.a[0], w), g(a[1], w) == g(u.a[1], w))
                    self.pairs.append((t.id, u.id, z3.Implies(c, v == uv)))
                self.groups[op, w].append((t, v))
            self.v[t.id] = v
            return
        if w == 1:
            if op == "not":
                self.b[t.id] = z3.Not(self._gb(a[0]))
                return
            if op == "and":
                self.b[t.id] = z3.And(self._gb(a[0]), self._gb(a[1]))
                return
            if op == "or":
                self.b[t.id] = z3.Or(self._gb(a[0]), self._gb(a[1]))
                return
            if op == "xor":
                self.b[t.id] = z3.Xor(self._gb(a[0]), self._gb(a[1]))
                return
            if op == "ite":
                self.b[t.id] = z3.If(self._gb(a[0]), self._gb(a[1]), self._gb(a[2]))
                return
        if op in ("eq", "ult", "slt"):
            k = a[0].w if type(a[0]) is Term else a[1].w
            x, y = g(a[0], k), g(a[1], k)
            self.b[t.id] = x == y if op == "eq" else z3.ULT(x, y) if op == "ult" else x < y
            return
        if op == "var":
            r = z3.BitVec(a[0], w)
            if t.hi != (1 << w) - 1:
                self.side.append((t.id, z3.ULE(r, z3.BitVecVal(t.hi, w))))
        elif op == "concat":
            r = z3.Concat(*[g(v, k) for v, k in a[0]])
        elif op == "extract":
            r = z3.Extract(a[1], a[2], g(a[0], None))
        elif op == "zext":
            r = z3.ZeroExt(w - a[0].w, g(a[0], None))
        elif op == "sext":
            r = z3.SignExt(w - a[0].w, g(a[0], None))
        elif op == "ite":
            r = z3.If(self._gb(a[0]), g(a[1], w), g(a[2], w))
        elif op == "not":
            r = ~g(a[0], w)
        elif op == "prod":
            wa, wb = a[0].w, a[1].w
            r = z3.ZeroExt(wb, g(a[0], wa)) * z3.ZeroExt(wa, g(a[1], wb))
        elif op == "ctpop":
            x = g(a[0], w)
            k = _log2ceil(w + 1)
            if k > w:
                k = w
            bits = [z3.ZeroExt(k - 1, z3.Extract(i, i, x)) if k > 1 else z3.Extract(i, i, x) for i in range(w)]
            while len(bits) > 1:
                bits = [bits[i] + bits[i + 1] if i + 1 < len(bits) else bits[i] for i in range(0, len(bits), 2)]
            r = z3.ZeroExt(w - k, bits[0]) if w > k else bits[0]
        elif op in ("ctlz", "cttz"):
            x = g(a[0], w)
            r = z3.BitVecVal(w, w)
            rng = range(w) if op == "ctlz" else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if op == "ctlz" else i, w), r)
        else:
            x, y = g(a[0], w), g(a[1], w)
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mulc":
                r = x * y
            elif op == "udiv":
                r = z3.UDiv(x, y)
            elif op == "urem":
                r = z3.URem(x, y)
            elif op == "sdiv":
                r = x / y
            elif op == "srem":
                r = z3.SRem(x, y)
            elif op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "shl":
                r = x << y
            elif op == "lshr":
                r = z3.LShR(x, y)
            elif op == "ashr":
                r = x >> y
            else:
                raise NotImplementedError(op)
        self.v[t.id] = r


def attempts(timeout):
    if timeout <= 2:
        yield "z3", 0, timeout
        return
    yield "z3", 0, 2
    k = 1
    while True:
        yield "cvc5", 0, 2 + k
        for seed in (7, 3, 11):
            yield "z3", seed * k, 1 + k
        k += 1


def cvc5(fs, timeout):
    """unsatisfiable, or nothing"""
    s = z3.Solver()
    s.add(*fs)
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(1000 * timeout)], input="(set-logic QF_LIA)\n" + s.to_smt2(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True, timeout=timeout + 1)
    except (OSError, subprocess.TimeoutExpired):
        return z3.unknown
    return z3.unsat if r.stdout.strip() == "unsat" else z3.unknown


class Unknown(Exception):
    pass


class Solver(object):
    lazy = False        # do not decide every branch: a path that is impossible only costs time

    def __init__(self, stats=None, timeout=60.0):
        self.stats = stats or Stats()
        self.exact = Bv()
        self.abst = Bv(("prod", "udiv", "urem", "ctpop"))
        self.timeout = timeout
        self.deadline = None
        self.smalls = {}
        self.lias = {}
        self.nzmemo = {}

    def cap(self, t):
        if self.deadline is None:
            return t
        left = self.deadline - time.time()
        if left <= 0:
            raise Unknown("time limit")
        return max(0.05, min(t, left))

    # -- plain bit-vector query
    def check(self, conds, timeout=None, tr=None, want_model=True):
        """conds: list of width-1 values.  Returns None (unsat) or an env (dict name -> int)."""
        lits = []
        for c in conds:
            if type(c) is int:
                if not c:
                    self.stats.trivial += 1
                    return None
                continue
            lits.append(c)
        if not lits:
            return {}
        tr = tr or self.exact
        t0 = time.time()
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(1000 * self.cap(timeout or self.timeout)))
        for c in lits:
            s.add(tr.bool(c))
        n = 0
        if tr.side or tr.pairs:
            # only the side constraints of the abstracted terms that occur
            need = set(t.id for t in T.topo(lits))
            for i, sc in tr.side:
                if i in need:
                    s.add(sc)
            for i, j, sc in tr.pairs:
                if i in need and j in need:
                    s.add(sc)
        r = s.check()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        k = "z3-bv-abs" if tr is not self.exact else "z3-bv"
        e = self.stats.by.setdefault(k, [0, 0.0])
        e[0] += 1
        e[1] = round(e[1] + dt, 4)
        if r == z3.unsat:
            self.stats.unsat += 1
            return None
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unknown("z3: %s after %.1fs" % (s.reason_unknown(), dt))
        self.stats.sat += 1
        m = s.model()
        env = {}
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v):
                env[d.name()] = v.as_long()
        return env

    # -- path feasibility: over-approximation is allowed ("unknown" counts as feasible)
    def hard(self, conds):
        """does any abstractable operation occur?"""
        for t in T.topo([c for c in conds if type(c) is Term]):
            if t.op in HARD and not (t.op in ("udiv", "urem") and t.w <= 12):
                return True
            if t.op == "mulc" and t.w >= 64 and t.a[0].op == "add":
                return True
        return False

    def wide(self, conds):
        """the only hard operations are divisions wider than the machine's (a contract in place of the algorithm)"""
        some = False
        for t in T.topo([c for c in conds if type(c) is Term]):
            if t.op in HARD and not (t.op in ("udiv", "urem") and (t.w > 128 or t.w <= 12)):
                if not (t.op in ("udiv", "urem") and t.w == 128 and not self.hard(list(t.a))):
                    return False
                some = True
            elif t.op in HARD and t.w > 12:
                some = True
            elif t.op == "mulc" and t.a[0].op == "add":
                return False
        return some

    def feasible(self, conds):
        hard = self.hard(conds)
        if not hard:
            try:
                return self.check(conds, timeout=20)
            except Unknown:
                return "unknown"
        spurious = False
        order = ((self.linear, 1), (self.abstract, 4), (self.linear, 4))
        if self.wide(conds):
            order = ((self.abstract, 2), (self.linear, 1))
        elif self.lazy:
            order = ((self.linear, 2),)
        for how, t in order:
            if spurious and how == self.linear:
                continue
            try:
                env = how(conds, t)
                if env is None:
                    return None
                if self.holds(conds, env):
                    return env
                spurious = spurious or how == self.linear
            except Unknown:
                pass
        if self.lazy:
            return "unknown"
        try:
            return self.check(conds, timeout=self.hard_timeout)
        except Unknown:
            return "unknown"

    def abstract(self, conds, timeout):
        return self.check(conds, timeout, tr=self.abst)

    # -- integer arithmetic over polynomials (sound for unsatisfiability only)
    def linear(self, conds, timeout):
        lits = []
        t0 = time.time()
        conds = self.tabulate(conds)
        if not self.lazy:
            conds = self.equate(conds)
        for c in conds:
            if type(c) is int:
                if not c:
                    self.stats.trivial += 1
                    return None
                continue
            lits.append(c)
        nz = self.nonzero(conds, lits)
        lia = self.lias.get(nz)
        if lia is None:
            if len(self.lias) > 8:
                self.lias.clear()
            lia = self.lias[nz] = Lia(nz)
        fs, _ = lia.formulas(lits)
        self.stats.queries += 1
        # luck decides how long an integer query takes: short attempts with different solvers and seeds
        end = t0 + self.cap(timeout)
        why = "timeout"
        for how, seed, slot in attempts(timeout):
            left = end - time.time()
            if left < 0.05:
                break
            t1 = time.time()
            if how == "z3":
                s = z3.SolverFor("QF_LIA")
                s.set("timeout", int(1000 * min(left, slot)))
                if seed:
                    s.set("random_seed", seed)
                s.add(*fs)
                r = s.check()
                if r == z3.unknown:
                    why = s.reason_unknown()
            else:
                r = cvc5(fs, min(left, slot))
            dt = time.time() - t1
            self.stats.time += dt
            e = self.stats.by.setdefault(how + "-lia", [0, 0.0])
            e[0] += 1
            e[1] = round(e[1] + dt, 4)
            if r == z3.unsat:
                self.stats.unsat += 1
                return None
            if r == z3.sat:
                self.stats.sat += 1
                return lia.env(s.model())
        self.stats.unknown += 1
        raise Unknown("z3: %s after %.1fs" % (why, time.time() - t0))

    def tabulate(self, conds):
        """subterms over one variable of at most 7 bits are replaced by a representative with the same value table"""
        small = {}
        for v in T.variables([c for c in conds if type(c) is Term]):
            if v.w <= 7:
                small[v.a[0]] = v.hi
                self.smalls[v.a[0]] = v
        if not small:
            return conds
        for name, bits in small.items():
            own = [c for c in conds if type(c) is Term and self.vars_of(c) == {name}]
            vals = [x for x in range(bits + 1) if all(T.evaluate(c, {name: x}) for c in own)]
            if not vals:
                return [0]
            memo = {}
            reps = {}
            rest = [c for c in conds if type(c) is Term and self.vars_of(c) != {name}]
            want = []
            seen = set()
            # the largest subterms over this variable alone
            for t in T.topo(rest):
                if self.vars_of(t) != {name}:
                    for c in T.children(t):
                        if self.vars_of(c) == {name} and c.op != "var" and c.id not in seen:
                            seen.add(c.id)
                            want.append(c)
            if not want and len(vals) > 1:
                continue
            tabs = {}
            for x in vals:
                m = {}
                for c in want:
                    tabs.setdefault(c.id, []).append(T.evaluate(c, {name: x}, m))
            for c in want:
                k = tuple(tabs[c.id])
                if len(set(k)) == 1:
                    memo[c.id] = k[0]
                else:
                    r = reps.get((c.w, k))
                    if r is None:
                        r = reps[c.w, k] = self.affine(name, c.w, vals, k) or c
                    memo[c.id] = r
            sub = {}
            if len(vals) == 1:
                sub[name] = vals[0]
            conds = own + [T.substitute(c, sub, memo) for c in rest]
        return conds

    def affine(self, name, w, vals, tab):
        """a*x + b (mod 2^w) with these values at these points, or None"""
        if w == 1:
            return None
        m = (1 << w) - 1
        a = None
        for (x, y), (p, q) in zip(zip(vals, vals[1:]), zip(tab, tab[1:])):
            if y == x + 1:
                a = (q - p) & m
                break
        if a is None:
            return None
        b = (tab[0] - a * vals[0]) & m
        if any((a * x + b) & m != y for x, y in zip(vals, tab)):
            return None
        v = self.smalls[name]
        if w < v.w:
            return None
        return T.add(w, T.mul(w, T.zext(w, v, v.w), a) if a != 1 else T.zext(w, v, v.w), b)

    def cases(self, conds, timeout):
        """the integer reasoning, for each value of the narrow variable (the width)"""
        small = [v for v in T.variables([c for c in conds if type(c) is Term]) if v.w <= 7]
        if not small:
            raise Unknown("no cases")
        v = small[0]
        name = v.a[0]
        own = [c for c in conds if type(c) is Term and self.vars_of(c) == {name}]
        last = None
        bad = 0
        for x in range(v.hi + 1):
            if not all(T.evaluate(c, {name: x}) for c in own):
                continue
            memo = {}
            cs = [T.substitute(c, {name: x}, memo) for c in conds]
            try:
                env = self.linear(cs, timeout)
            except Unknown:
                bad += 1
                if bad > 2:
                    raise
                continue
            if env is None:
                continue
            env[name] = x
            last = env
            if self.holds(conds, env):
                return env
            break
        if last is None and bad:
            raise Unknown("cases")
        return last

    def equate(self, conds):
        """what a condition fixes is used in the others: terms equal to a constant, conditions known true or false,
        variables whose upper bits are zero"""
        for _ in range(4):
            memo = {}
            keep = []
            rest = []
            sub = {}
            for c in conds:
                if type(c) is not Term:
                    if not c:
                        return [0]
                    continue
                t, val = (c.a[0], 0) if c.op == "not" else (c, 1)
                if val and t.op == "eq" and (type(t.a[0]) is int or type(t.a[1]) is int):
                    x, k = t.a if type(t.a[1]) is int else (t.a[1], t.a[0])
                    if k == 0 and x.op == "extract" and x.a[1] == x.a[0].w - 1 and x.a[2] and x.a[0].op == "var" and x.a[0].hi == (1 << x.a[0].w) - 1:
                        v = x.a[0]
                        sub[v.a[0]] = T.zext(v.w, T.var(v.a[0], x.a[2]), x.a[2])
                        continue
                    if x.id not in memo:
                        memo[x.id] = k
                        keep.append(c)
                        continue
                elif t.op != "eq" and t.id not in memo:
                    memo[t.id] = val
                    keep.append(c)
                    continue
                rest.append(c)
            if sub:
                m = {}
                conds = [T.substitute(c, sub, m) for c in keep + rest]
                continue
            if not memo:
                return conds
            new = keep + [T.substitute(c, {}, memo) for c in rest]
            # the kept conditions may contain one another
            out = []
            for c in new:
                if type(c) is Term and c in keep:
                    m = dict(memo)
                    t = c.a[0] if c.op == "not" else c
                    m.pop(t.id, None)
                    if t.op == "eq":
                        for x in t.a:
                            if type(x) is Term:
                                m.pop(x.id, None)
                    out.append(T.substitute(c, {}, m))
                else:
                    out.append(c)
            if out == conds:
                return conds
            conds = out
        return conds

    def nonzero(self, conds, lits):
        """ids of divisors that the conditions keep from being zero"""
        ds = {}
        for t in T.topo(lits):
            if t.op in ("udiv", "urem") and type(t.a[1]) is Term and t.a[1].lo == 0:
                d = t.a[1]
                while d.op == "zext":
                    d = d.a[0]
                ds[d.id] = d
        if not ds:
            return frozenset()
        given = set()
        for c in conds:
            if type(c) is Term and c.op == "not" and c.a[0].op == "eq":
                x, y = c.a[0].a
                if type(y) is int and y == 0:
                    given.add(x.id)
                elif type(x) is int and x == 0:
                    given.add(y.id)
        r = set()
        easy = None
        for i, d in ds.items():
            if i in given:
                r.add(i)
                continue
            if easy is None:
                easy = [c for c in lits if not self.hard([c])]
            z = T.eq(d.w, d, 0)
            cs = self.slice(easy, z) + [z]
            if self.hard(cs):
                continue
            key = frozenset(c.id for c in cs if type(c) is Term)
            v = self.nzmemo.get(key)
            if v is None:
                try:
                    v = self.check(cs, 2) is None
                except Unknown:
                    v = False
                self.nzmemo[key] = v
            if v:
                r.add(i)
        return frozenset(r)

    def concretize(self, conds, env):
        """look for a model with one operand fixed: products and quotients become linear"""
        names = set()
        for c in conds:
            names |= self.vars_of(c)
        groups = {}
        for n in names:
            g = n.rstrip("0123456789")
            groups.setdefault(g, []).append(n)
        order = [g for g in ("b", "a") if g in groups]
        M = (1 << 64) - 1
        fixed = {}
        for n in names:
            if n in ("w", "v", "t") and env:
                fixed[n] = env.get(n, 0)
        if fixed:
            memo = {}
            c2 = [T.substitute(c, fixed, memo) for c in conds]
            if any(type(c) is int and not c for c in c2):
                return None
            if self.hard(c2):
                try:
                    m = self.linear(c2, 4)
                    if m is None:
                        return None
                    m.update(fixed)
                    if self.holds(conds, m):
                        return m
                    env = m
                except Unknown:
                    pass
        for g in order:
            ns = sorted(groups[g], key=lambda n: (len(n), n))
            cands = []
            if env:
                cands.append([env.get(n, 0) for n in ns])
            k = len(ns)
            cands += [[M] * k, [M] + [0] * (k - 1), [0] * (k - 1) + [1], [M - 1] * k, [0] * (k - 1) + [1 << 63], [M] * (k - 1) + [1],
                      [0] * (k - 1) + [M], [3] * k, [1 << 32] * k]
            for vals in cands:
                sub = dict(zip(ns, vals))
                sub.update(fixed)
                memo = {}
                cs = [T.substitute(c, sub, memo) for c in conds]
                if any(type(c) is int and not c for c in cs):
                    continue
                try:
                    m = self.linear(cs, 4) if self.hard(cs) else self.check(cs, 4)
                    if m is None:
                        continue
                    m.update(sub)
                    if self.holds(conds, m):
                        return m
                    m = self.check(cs, 3)
                    if m is not None:
                        m.update(sub)
                        if self.holds(conds, m):
                            return m
                except Unknown:
                    pass
        return None

    hard_timeout = 0.5

    def holds(self, conds, env):
        memo = {}
        return all(T.evaluate(c, env, memo) for c in conds)

    # -- obligations
    def prove(self, pc, obs, model=None):
        """None if pc implies every obligation; else an env satisfying pc and violating one.  Raises Unknown."""
        if any(type(c) is int and not c for c in obs):
            # the path itself must be impossible
            if model is not None and self.holds(pc, model):
                return model
            return self.refute(pc)
        if model is not None:
            memo = {}
            if all(T.evaluate(c, model, memo) for c in pc) and not all(T.evaluate(c, model, memo) for c in obs):
                return model
        parts = []
        for c in obs:
            for d in T.conjuncts(c):
                if d not in parts:
                    parts.append(d)
        easy = [c for c in parts if not self.hard([c])]
        hard = [c for c in parts if self.hard([c])]
        if easy:
            neg = T.bnot(1, T.conj(easy))
            env = self.refute(self.slice(pc, neg) + [neg])
            if env is not None:
                return self.complete(pc, env, neg, model)
        hard = self.sweep(pc, hard, model)
        proved = []
        for c in hard:
            if type(c) is int:
                if not c:
                    return self.refute(pc)
                continue
            neg = T.bnot(1, c)
            # what has been proved of this path already may be used
            env = self.refute(self.slice(pc, neg) + proved + [neg])
            if env is not None:
                return self.complete(pc, env, neg, model)
            proved.append(c)
        return None

    def sweep(self, pc, obs, model):
        """quotients and remainders whose operands are equal under the path condition become one term"""
        ds = [t for t in T.topo([c for c in obs if type(c) is Term] + [c for c in pc if type(c) is Term])
              if t.op in ("udiv", "urem") and t.w > 64 and type(t.a[0]) is Term and type(t.a[1]) is Term]
        if len(ds) < 2 or len(ds) > 12:
            return obs
        easy = [c for c in pc if type(c) is Term and not self.hard([c])]
        reps = []
        memo = {}
        for t in ds:
            if self.hard([t.a[0]]) or self.hard([t.a[1]]):
                continue
            for u in reps:
                if u.w != t.w:
                    continue
                same = T.conj([T.eq(t.w, t.a[0], u.a[0]), T.eq(t.w, t.a[1], u.a[1])])
                if type(same) is int:
                    ok = bool(same)
                elif model is not None and not T.evaluate(same, model):
                    ok = False
                else:
                    neg = T.bnot(1, same)
                    try:
                        ok = self.check(self.slice(easy, neg) + [neg], 5) is None
                    except Unknown:
                        ok = False
                if ok:
                    if u.op == t.op:
                        memo[t.id] = u
                    else:
                        memo[t.id] = T.mk(t.op, t.w, u.a)
                    break
            else:
                reps.append(t)
        if not memo:
            return obs
        m = dict(memo)
        return [T.substitute(c, {}, m) for c in obs]

    def complete(self, pc, env, neg, model):
        """extend a model of a slice to the whole path condition"""
        if self.holds(pc + [neg], env):
            return env
        if model is not None:
            m = dict(model)
            m.update(env)
            if self.holds(pc + [neg], m):
                return m
        return self.refute(pc + [neg])

    def vars_of(self, t):
        if t.aux is None:
            t.aux = frozenset(v.a[0] for v in T.variables([t]))
        return t.aux

    def slice(self, pc, cond):
        if type(cond) is int:
            return list(pc)
        vs = set(self.vars_of(cond))
        rest = [c for c in pc if type(c) is Term]
        out = []
        changed = True
        while changed and rest:
            changed = False
            nxt = []
            for c in rest:
                if not vs.isdisjoint(self.vars_of(c)):
                    out.append(c)
                    vs |= self.vars_of(c)
                    changed = True
                else:
                    nxt.append(c)
            rest = nxt
        return out

    def refute(self, conds, timeout=None):
        """None if the conjunction of conds is unsatisfiable, else an env satisfying it.  Raises Unknown."""
        timeout = timeout or self.timeout
        if not self.hard(conds):
            try:
                return self.check(conds, min(timeout, 2))
            except Unknown:
                pass
            cs = self.tabulate(conds)
            try:
                if self.linear(cs, min(timeout, 4)) is None:
                    return None
            except Unknown:
                pass
            return self.check(cs, timeout)
        env = None
        spurious = False
        order = ((self.linear, 1), (self.cases, 4), (self.abstract, 4), (self.linear, 20))
        if self.wide(conds):
            order = ((self.abstract, 4),) + order
        elif self.lazy:
            order = ((self.linear, 1), (self.linear, 20), (self.cases, 4), (self.abstract, 4), (self.linear, 60))
        for how, t in order:
            if spurious and how == self.linear:
                continue
            try:
                env = how(conds, min(timeout, t))
                if env is None:
                    return None
                if self.holds(conds, env):
                    return env
                spurious = spurious or how == self.linear
            except Unknown:
                pass
        m = self.concretize(conds, env)
        if m is not None:
            return m
        return self.check(conds, timeout)


HARD = frozenset(("prod", "udiv", "urem", "sdiv", "srem", "ctpop"))
