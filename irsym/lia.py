"""Integer reasoning about terms with products and quotients.

A term is translated to a polynomial over integer atoms.  Taking bits a.. of a
polynomial introduces one atom, its floor quotient by 2^a, shared by everything
that cuts the same polynomial; residues are written with that quotient, so two
carry chains over the same partial sums become the same polynomial.  Monomials
of degree two or more are variables with the convex (McCormick) bounds of a
product.  Unsatisfiable results are sound; models may be spurious and are
evaluated on the terms before they count.
"""
import z3
from . import terms as T
from .terms import Term

ONE = ()


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pconst(c):
    return {ONE: c} if c else {}


def pkey(p):
    return frozenset(p.items())


class Lia(object):
    def __init__(self, nonzero=()):
        self.nonzero = nonzero
        self.top = {}       # term id -> upper bound tighter than the term's own
        self.p = {}         # term id -> polynomial
        self.rng = []       # atom -> (lo, hi)
        self.names = []     # atom -> description
        self.defs = {}      # atom -> constraints (list of ("le", poly, lo, hi) or ("z", fn))
        self.vars = {}      # variable name -> atom
        self.cuts = {}      # polynomial key -> {a: quotient polynomial}
        self.origin = {}    # atom -> (P, a) of a quotient atom
        self.divs = {}
        self.quots = {}     # atom of a quotient -> (X, Y, lower and upper bound of Y)
        self.boolmemo = {}
        self.z = {}
        self.opaque = {}

    # -- atoms and ranges
    def atom(self, lo, hi, name):
        self.rng.append((lo, hi))
        self.names.append(name)
        i = len(self.rng) - 1
        self.defs[i] = []
        return i

    def mono_range(self, m):
        lo, hi = 1, 1
        for a in m:
            l, h = self.rng[a]
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mono_range(m)
            if c >= 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    # -- floor(P / 2^a)
    def div(self, P, a, rng=None):
        if a == 0:
            return P
        lo, hi = self.prange(P)
        if rng is not None:
            lo, hi = max(lo, rng[0]), min(hi, rng[1])
        if lo >> a == hi >> a:
            return pconst(lo >> a)
        m = 1 << a
        P1, P2 = {}, {}
        for k, c in P.items():
            if k == ONE:
                q, r = c >> a, c & (m - 1)
            else:
                # the residue of least magnitude, whatever multiple of 2^a it came with
                q, r = c >> a, c & (m - 1)
                if 2 * r > m:
                    q, r = q + 1, r - m
            if q:
                P2[k] = q
            if r:
                P1[k] = r
        if not P1:
            return P2
        if not P2:
            # a common power of two of the coefficients is shifted out (the constant's remainder does not matter)
            g = 0
            for k, c in P1.items():
                if k != ONE:
                    g |= c
            t = (g & -g).bit_length() - 1
            if t > 0:
                t = min(t, a)
                S = {k: c >> t for k, c in P1.items() if c >> t}
                return self.div(S, a - t)
            # the terms divisible by the highest power of two are added after the rest has been cut there
            t = max((c & -c).bit_length() - 1 for k, c in P1.items() if k != ONE)
            if t > 0:
                A = {k: c for k, c in P1.items() if k != ONE and c & ((1 << t) - 1)}
                B = {k: c >> t for k, c in P1.items() if k != ONE and not c & ((1 << t) - 1)}
                c = P1.get(ONE, 0)
                A = padd(A, pconst(c & ((1 << t) - 1)))
                B = padd(B, pconst(c >> t))
                return padd(P2, self.div(padd(self.div(A, t), B), a - t))
            Q = self._quot(P1, a, (lo, hi))
        else:
            Q = self.div(P1, a)
        return padd(P2, Q)

    def _quot(self, P, a, rng):
        # a quotient of a quotient
        if len(P) == 1:
            (k, c), = P.items()
            if c == 1 and len(k) == 1 and k[0] in self.origin:
                P0, b = self.origin[k[0]]
                return self.div(P0, a + b)
            if c == 1 and len(k) == 1 and k[0] in self.quots:
                X, Y, yl, yh = self.quots[k[0]]
                return self.pdiv(self.div(X, a), Y, yl, yh)[0]
        key = pkey(P)
        cuts = self.cuts.setdefault(key, {})
        if a in cuts:
            return cuts[a]
        lo, hi = self.prange(P)
        if lo >> a == hi >> a:
            return pconst(lo >> a)
        x = self.atom(lo >> a, hi >> a, "cut%d" % a)
        Q = {(x,): 1}
        self.origin[x] = (P, a)
        d = self.defs[x]
        d.append(("rng", padd(P, Q, -(1 << a)), 0, (1 << a) - 1))
        for b, Q2 in cuts.items():
            if b < a:
                d.append(("rng", padd(Q2, Q, -(1 << (a - b))), 0, (1 << (a - b)) - 1))
            else:
                d.append(("rng", padd(Q, Q2, -(1 << (b - a))), 0, (1 << (b - a)) - 1))
        cuts[a] = Q
        return Q

    def mod(self, P, a, rng=None):
        return padd(P, self.div(P, a, rng), -(1 << a))

    # -- terms
    def poly(self, x):
        if type(x) is int:
            return pconst(x)
        r = self.p.get(x.id)
        if r is None:
            for t in T.topo([x], self.p):
                self.p[t.id] = self._tr(t)
            r = self.p[x.id]
        return r

    def _g(self, x):
        return pconst(x) if type(x) is int else self.p[x.id]

    def fact(self, P, lo, hi):
        """known range of a compound polynomial, kept with its newest atom"""
        best = -1
        for m in P:
            for a in m:
                if a > best:
                    best = a
        if best < 0 or (len(P) == 1 and len(next(iter(P))) == 1):
            return
        l, h = self.prange(P)
        if l < lo or h > hi:
            self.defs[best].append(("rng", P, lo, hi))

    def _tr(self, t):
        P = self._tr1(t)
        if P and len(P) > 1:
            self.fact(P, t.lo, t.hi)
        return P

    def _tr1(self, t):
        op, w, a = t.op, t.w, t.a
        g = self._g
        M = 1 << w
        if op == "var":
            x = self.atom(t.lo, t.hi, a[0])
            self.vars.setdefault(a[0], []).append(x)
            return {(x,): 1}
        if op == "zext":
            return g(a[0])
        if op == "concat":
            r = {}
            for v, k in a[0]:
                r = padd(pscale(r, 1 << k), g(v))
            return r
        if op == "extract":
            b = a[0]
            P = g(b)
            r = self.div(P, a[2], (b.lo, self.hi(b)))
            if a[1] + 1 < b.w:
                r = padd(r, self.div(P, a[1] + 1, (b.lo, self.hi(b))), -(1 << (a[1] + 1 - a[2])))
            return r
        if op == "add":
            x, y = a
            k = y if type(y) is not int or y < M >> 1 else y - M
            P = padd(g(x), pconst(k) if type(k) is int else g(k))
            yl, yh = (k, k) if type(k) is int else (k.lo, k.hi)
            return self.mod(P, w, (T.lo_of(x) + yl, T.hi_of(x) + yh))
        if op == "sub":
            x, y = a
            return self.mod(padd(g(x), g(y), -1), w, (T.lo_of(x) - T.hi_of(y), T.hi_of(x) - T.lo_of(y)))
        if op == "mulc":
            x, c = a
            if c >= M >> 1:
                # both representations are right; the one that cannot wrap around is preferred
                if x.hi * c >= M:
                    c -= M
            r = sorted((x.lo * c, x.hi * c))
            return self.mod(pscale(g(x), c), w, (r[0], r[1]))
        if op == "prod":
            return pmul(g(a[0]), g(a[1]))
        if op == "not":
            return padd(pconst(M - 1), g(a[0]), -1)
        if op == "sext":
            k = a[0].w
            s = self.div(g(a[0]), k - 1, (a[0].lo, a[0].hi))
            return padd(g(a[0]), s, M - (1 << k))
        if op in ("udiv", "urem"):
            q, r, hi = self._divrem(w, a[0], a[1])
            if op == "udiv":
                if hi < t.hi:
                    self.top[t.id] = hi
                return q
            if self.low(a[1]) > 0:
                self.top[t.id] = min(t.hi, T.hi_of(a[1]) - 1)
            return r
        if op == "ult":
            # a borrow
            k = a[0].w if type(a[0]) is Term else a[1].w
            return pscale(self.div(padd(g(a[0]), g(a[1]), -1), k, (T.lo_of(a[0]) - T.hi_of(a[1]), T.hi_of(a[0]) - T.lo_of(a[1]))), -1)
        if w == 1:
            return self._bool_atom(t)
        if op == "ite":
            x = self.atom(t.lo, t.hi, "ite")
            self.defs[x].append(("ite", a[0], {(x,): 1}, g(a[1]), g(a[2])))
            return {(x,): 1}
        if op in ("and", "or", "xor"):
            x, y = a
            if type(x) is Term and type(y) is Term and x.op == "extract" and y.op == "extract" and x.a[1:] == y.a[1:] and x.a[0].w == y.a[0].w:
                # the same bits of the whole words
                p, q = x.a[0], y.a[0]
                if p.id > q.id:
                    p, q = q, p
                u = T.mk(op, p.w, (p, q))
                if type(u) is Term:
                    U = self.poly(u)
                    return padd(self.div(U, x.a[2]), self.div(U, x.a[1] + 1), -(1 << w))
        return self._opaque(t)

    def _bool_atom(self, t):
        x = self.atom(0, 1, "bool")
        self.defs[x].append(("bool", t, {(x,): 1}))
        return {(x,): 1}

    def _opaque(self, t):
        x = self.atom(t.lo, t.hi, t.op)
        P = {(x,): 1}
        g = self._g
        if t.op == "and":
            for v in t.a:
                self.defs[x].append(("rng", padd(g(v), P, -1), 0, (1 << t.w) - 1))
        elif t.op == "or":
            for v in t.a:
                self.defs[x].append(("rng", padd(P, g(v), -1), 0, (1 << t.w) - 1))
        elif t.op == "lshr":
            self.defs[x].append(("rng", padd(g(t.a[0]), P, -1), 0, (1 << t.w) - 1))
        # congruence with earlier operations that share an argument
        for u, y in self.opaque.setdefault(t.op, []):
            if len(u.a) == 2 and len(t.a) == 2 and u.w == t.w:
                for i, j in ((0, 0), (1, 1), (0, 1), (1, 0)):
                    if i != j and t.op not in ("and", "or", "xor"):
                        continue
                    if u.a[i] is t.a[j] or (type(u.a[i]) is int and u.a[i] == t.a[j]):
                        self.defs[x].append(("cong", padd(g(u.a[1 - i]), g(t.a[1 - j]), -1), padd(P, {(y,): 1}, -1)))
                        break
            elif len(u.a) == 1 and u.w == t.w:
                self.defs[x].append(("cong", padd(g(u.a[0]), g(t.a[0]), -1), padd(P, {(y,): 1}, -1)))
        self.opaque[t.op].append((t, x))
        return P

    def low(self, y):
        """lower bound of a divisor"""
        l = T.lo_of(y)
        if l or type(y) is int:
            return l
        while True:
            if y.id in self.nonzero:
                return 1
            if y.op != "zext":
                return 0
            y = y.a[0]

    def short(self, x, Y, hi):
        """a remainder by Y followed by k bits, divided by Y, is below 2^k"""
        if type(x) is Term and x.op == "concat":
            k = x.w
            for v, n in x.a[0]:
                k -= n
                if type(v) is int:
                    if v:
                        break
                    continue
                while v.op == "zext" or (v.op == "extract" and v.a[2] == 0 and self.hi(v.a[0]) < 1 << v.w):
                    v = v.a[0]
                if v.op == "urem" and pkey(self._g(v.a[1])) == pkey(Y):
                    return min(hi, (1 << k) - 1)
                break
        return hi

    def hi(self, x):
        if type(x) is int:
            return x
        h = self.top.get(x.id)
        return x.hi if h is None else h

    def _divrem(self, w, x, y):
        X, Y = self._g(x), self._g(y)
        M = 1 << w
        yl, yh = self.low(y), T.hi_of(y)
        xl, xh = T.lo_of(x), T.hi_of(x)
        if yl > 0:
            top = self.short(x, Y, xh // yl)
            Q, R = self.pdiv(X, Y, yl, yh, (xl, xh), (xl // yh, top))
            self.fact(Q, xl // yh, top)
            return Q, R, top
        key = (pkey(X), pkey(Y), w)
        res = self.divs.get(key)
        if res is None:
            q = self.atom(0, M - 1, "quot")
            Q = {(q,): 1}
            R = padd(X, pmul(Q, Y), -1)
            r = self.atom(0, min(xh, M - 1), "rem")
            RR = {(r,): 1}
            self.defs[q].append(("div0", X, Y, Q, RR, R, M))
            self.defs[r] = self.defs[q]
            res = self.divs[key] = (Q, RR)
        return res[0], res[1], M - 1

    def pdiv(self, X, Y, yl, yh, rng=None, qrng=None):
        """floor quotient and remainder by a polynomial that is at least yl > 0; rng and qrng: known ranges of X and the quotient"""
        l, h = self.prange(X)
        if rng is not None:
            l, h = max(l, rng[0]), min(h, rng[1])
        if len(Y) == 1 and ONE in Y:
            c = Y[ONE]
            if c & (c - 1) == 0:
                Q = self.div(X, c.bit_length() - 1)
                return Q, padd(X, Q, -c)
        if l >= 0 and h < yl:
            return {}, X
        C = {}
        if len(Y) == 1:
            # multiples of the divisor do not matter for the remainder
            (m, c), = Y.items()
            if m == ONE:
                X0 = {}
                for k, v in X.items():
                    q, r = divmod(v, c)
                    if 2 * r > c and k != ONE:
                        q, r = q + 1, r - c
                    if q:
                        C[k] = q
                    if r:
                        X0[k] = r
                X = X0
            elif c == 1 and len(m) == 1:
                X0 = {}
                for k, v in X.items():
                    if m[0] in k:
                        l = list(k)
                        l.remove(m[0])
                        C[tuple(l)] = v
                    else:
                        X0[k] = v
                X = X0
        l, h = self.prange(X)
        if rng is not None and not C:
            l, h = max(l, rng[0]), min(h, rng[1])
        if l >= 0 and h < yl:
            return C, X
        key = (pkey(X), pkey(Y), 0)
        res = self.divs.get(key)
        if res is None:
            ql, qh = l // yl if l < 0 else l // yh, h // yl if h >= 0 else h // yh
            if qrng is not None and not C:
                ql, qh = max(ql, qrng[0]), min(qh, qrng[1])
            q = self.atom(ql, qh, "quot")
            Q = {(q,): 1}
            self.quots[q] = (X, Y, yl, yh)
            # the remainder is written with the quotient
            R = padd(X, pmul(Q, Y), -1)
            self.defs[q].append(("rng", R, 0, yh - 1))
            self.defs[q].append(("pos", padd(padd(Y, R, -1), pconst(-1))))
            if len(self.quots) <= 24:
                # equal operands, equal results
                for p, (X2, Y2, _, _) in list(self.quots.items())[:-1]:
                    self.defs[q].append(("divcong", padd(X, X2, -1), padd(Y, Y2, -1), {(q,): 1, (p,): -1}))
            res = self.divs[key] = (Q, R)
        return padd(res[0], C), res[1]

    # -- z3
    def lin(self, P):
        terms = []
        for m, c in P.items():
            if m == ONE:
                terms.append(z3.IntVal(c))
            else:
                v = self.mvar(m)
                terms.append(v if c == 1 else z3.IntVal(c) * v)
        if not terms:
            return z3.IntVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def mvar(self, m):
        v = self.z.get(m)
        if v is None:
            v = z3.Int("m" + "_".join(str(a) for a in m))
            self.z[m] = v
        self.used_m.add(m)
        return v

    def bool(self, t):
        if type(t) is int:
            return z3.BoolVal(bool(t))
        r = self.boolmemo.get(t.id)
        if r is None:
            r = self._bool(t)
            self.boolmemo[t.id] = r
        for m in r[1]:
            self.used_m.add(m)
        return r[0]

    def _bool(self, t):
        save = self.used_m
        self.used_m = set()
        try:
            op, a = t.op, t.a
            if op == "not":
                f = z3.Not(self.bool(a[0]))
            elif op == "and":
                f = z3.And(self.bool(a[0]), self.bool(a[1]))
            elif op == "or":
                f = z3.Or(self.bool(a[0]), self.bool(a[1]))
            elif op == "xor":
                f = z3.Xor(self.bool(a[0]), self.bool(a[1]))
            elif op == "ite":
                f = z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
            elif op == "eq":
                P = padd(self.poly(a[0]), self.poly(a[1]), -1)
                f = self.cmp0(P, "eq")
            elif op == "ult":
                P = padd(self.poly(a[0]), self.poly(a[1]), -1)
                f = self.cmp0(P, "lt")
            elif op == "slt":
                w = a[0].w if type(a[0]) is Term else a[1].w
                P = padd(self.signed(a[0], w), self.signed(a[1], w), -1)
                f = self.cmp0(P, "lt")
            elif op in ("var", "extract"):
                f = self.cmp0(padd(self.poly(t), pconst(-1)), "eq")
            else:
                f = self.cmp0(padd(self.poly(t), pconst(-1)), "eq")
            return f, frozenset(self.used_m)
        finally:
            self.used_m = save

    def signed(self, x, w):
        P = self.poly(x)
        if type(x) is int:
            return pconst(x - (1 << w) if x >> (w - 1) else x)
        return padd(P, self.div(P, w - 1, (x.lo, x.hi)), -(1 << w))

    def cmp0(self, P, how):
        lo, hi = self.prange(P)
        if how == "eq":
            if lo > 0 or hi < 0:
                return z3.BoolVal(False)
            if not P:
                return z3.BoolVal(True)
            return self.lin(P) == 0
        if hi < 0:
            return z3.BoolVal(True)
        if lo >= 0:
            return z3.BoolVal(False)
        return self.lin(P) <= -1

    def constraint(self, d):
        k = d[0]
        if k == "rng":
            _, P, lo, hi = d
            l, h = self.prange(P)
            e = self.lin(P)
            out = []
            if l < lo:
                out.append(e >= lo)
            if h > hi:
                out.append(e <= hi)
            return out
        if k == "pos":
            return [self.lin(d[1]) >= 0]
        if k == "ite":
            c = self.bool(d[1])
            x = self.lin(d[2])
            return [z3.Implies(c, x == self.lin(d[3])), z3.Implies(z3.Not(c), x == self.lin(d[4]))]
        if k == "bool":
            x = self.lin(d[2])
            t = d[1]
            return [(x == 1) == self.bool(t)]
        if k == "cong":
            return [z3.Implies(self.lin(d[1]) == 0, self.lin(d[2]) == 0)]
        if k == "divcong":
            p = [m for m in d[3] if d[3][m] < 0][0]
            if p not in self.used_m:
                self.later.append((p, d))
                return []
            dx, dy, dq = d[1], d[2], d[3]
            c = []
            for e in (dx, dy):
                if e:
                    lo, hi = self.prange(e)
                    if lo > 0 or hi < 0:
                        return []
                    c.append(self.lin(e) == 0)
            return [z3.Implies(z3.And(*c), self.lin(dq) == 0) if c else self.lin(dq) == 0]
        if k == "div0":
            _, X, Y, Q, RR, R, M = d
            y = self.lin(Y)
            rr = self.lin(RR)
            return [z3.Implies(y >= 1, z3.And(rr == self.lin(R), rr <= y - 1)),
                    z3.Implies(y <= 0, z3.And(self.lin(Q) == M - 1, rr == self.lin(X)))]
        raise NotImplementedError(k)

    def mccormick(self, m, split):
        """bounds of the product m, from the bounds of its factors"""
        if len(m) < 2:
            return []
        x, y = (m[0],), m[1:]
        if len(m) > 2:
            # the product of the first and the rest
            pass
        vx, vy, v = self.mvar(x), self.mvar(y), self.mvar(m)
        lx, hx = self.rng[m[0]]
        ly, hy = self.mono_range(y)
        out = [v >= lx * vy + ly * vx - lx * ly, v >= hx * vy + hy * vx - hx * hy,
               v <= hx * vy + ly * vx - hx * ly, v <= lx * vy + hy * vx - lx * hy]
        if split:
            if lx == 0 and ly == 0:
                out.append(z3.Or(vx == 0, v >= vy))
                out.append(z3.Or(vy == 0, v >= vx))
            for p, q, ap in ((vx, vy, m[0]), (vy, vx, m[1])):
                if len(m) == 2:
                    for a in self.cutpoints(ap):
                        k = 1 << a
                        lo, hi = self.rng[ap]
                        if lo < k <= hi:
                            out.append(z3.Or(p <= k - 1, v >= k * q))
                            out.append(z3.Or(p >= k, v <= (k - 1) * q))
        return out

    def scaled(self, m):
        """the definition of a cut times a quotient: 0 <= x*(P - 2^a*c) <= (2^a - 1)*x for x >= 0"""
        out = []
        for x, c in ((m[0], m[1]), (m[1], m[0])):
            if c not in self.origin or self.rng[x][0] < 0 or x not in self.quots:
                continue
            P, a = self.origin[c]
            if any(len(k) > 1 for k in P):
                continue
            X = {(x,): 1}
            e = pmul(X, padd(P, {(c,): 1}, -(1 << a)))
            out.append(self.lin(e) >= 0)
            out.append(self.lin(padd(e, X, -((1 << a) - 1))) <= 0)
        return out

    def cutpoints(self, a):
        return list(self.cuts.get(pkey({(a,): 1}), {}))

    def formulas(self, conds, split=True):
        """z3 formulas equivalent to the conjunction over the atoms that occur"""
        self.used_m = set()
        self.later = []
        fs = [self.bool(c) for c in conds]
        done_a, done_m = set(), set()
        while True:
            todo_m = self.used_m - done_m
            if not todo_m:
                # congruences between quotients that both occur
                late, self.later = self.later, []
                for p, d in late:
                    if p in self.used_m:
                        fs.extend(self.constraint(d))
                    else:
                        self.later.append((p, d))
                if not self.used_m - done_m:
                    break
                continue
            for m in todo_m:
                done_m.add(m)
                if len(m) == 1:
                    a = m[0]
                    lo, hi = self.rng[a]
                    v = self.mvar(m)
                    fs.append(v >= lo)
                    fs.append(v <= hi)
                else:
                    fs.extend(self.mccormick(m, split))
                    if split and len(m) == 2:
                        fs.extend(self.scaled(m))
                for a in m:
                    if a not in done_a:
                        done_a.add(a)
                        for d in self.defs[a]:
                            fs.extend(self.constraint(d))
        return fs, done_m

    def env(self, model):
        env = {}
        for name, atoms in self.vars.items():
            for a in atoms:
                v = self.z.get((a,))
                if v is None or (a,) not in self.used_m:
                    continue
                x = model.eval(v)
                if z3.is_int_value(x):
                    env[name] = x.as_long()
        return env
