"""Symbolic executor for LLVM IR.

Memory is a set of objects at concrete, widely spaced addresses; bytes may be symbolic.
Symbolic branch conditions fork; feasibility is decided by the solver.
"""
import re
import time
from . import llparse as L
from . import terms as T
from .terms import Term
from . import spec as S
from .solver import Solver, Stats, Unknown


class Undef(object):
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Unsupported(Exception):
    """the executor cannot encode this code: the check gives no verdict"""


class Limit(Exception):
    """a bound on paths, steps or time was hit: the check gives no verdict"""


class Obj(object):
    __slots__ = ("base", "size", "cells", "kind", "alive", "owner", "align", "ro", "what")


class Frame(object):
    __slots__ = ("fn", "block", "ip", "regs", "prev", "label", "dst", "allocas")

    def clone(self):
        f = Frame()
        f.fn, f.block, f.ip, f.prev, f.label, f.dst = self.fn, self.block, self.ip, self.prev, self.label, self.dst
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


_uid = [0]


def new_uid():
    _uid[0] += 1
    return _uid[0]


class State(object):
    __slots__ = ("frames", "mem", "pc", "known", "model", "outs", "uid", "next_obj", "nfresh", "steps", "inputs", "trace", "events", "nalloc")

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.model = self.model
        s.outs = list(self.outs)
        s.inputs = dict(self.inputs)
        s.events = list(self.events)
        s.uid = new_uid()
        self.uid = new_uid()
        s.next_obj = self.next_obj
        s.nfresh = self.nfresh
        s.steps = self.steps
        s.nalloc = self.nalloc
        return s


class Outcome(object):
    """end of one path"""
    __slots__ = ("kind", "detail", "state", "where")

    def __init__(self, kind, detail, state, where=""):
        self.kind = kind          # 'return' | 'panic' | 'memory' | 'ub'
        self.detail = detail
        self.state = state
        self.where = where


class MemError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, detail):
        self.kind = kind
        self.detail = detail


PANIC_RE = re.compile(r"9panicking|13unwrap_failed|13expect_failed|slice_index_fail|len_mismatch_fail|12handle_error|18handle_alloc_error|"
                      r"17capacity_overflow|16slice_error_fail|_fail\b|4cell.*panic|13begin_panic|panic_fmt|rust_panic")


def demangle(n):
    """readable path of a v0-mangled symbol (identifiers only)"""
    out = []
    i = n.find("_R")
    if i < 0:
        return n.lstrip("@")
    s = n[i + 2:]
    j = 0
    while j < len(s):
        c = s[j]
        if c == "s" or c == "B":
            k = s.find("_", j)
            if k >= 0 and re.match(r"^[0-9a-zA-Z]*$", s[j + 1:k]):
                j = k + 1
                continue
        if c.isdigit():
            k = j
            while k < len(s) and s[k].isdigit():
                k += 1
            ln = int(s[j:k])
            if k < len(s) and s[k] == "_":
                k += 1
            if ln == 0 or ln > len(s) - k:
                j += 1
                continue
            out.append(s[k:k + ln])
            j = k + ln
            continue
        j += 1
    return "::".join(out)


class Program(object):
    """linked set of modules"""

    def __init__(self, paths):
        self.mods = [L.Module(p) for p in paths]
        self.func = {}
        self.glob = {}
        # linking state, shared by all executors of this program
        self.gaddr = {}
        self.gobjs = {}
        self.fnaddr = {}
        self.next_global = 1 << 20
        self.linked = set()
        for m in self.mods:
            for n, f in m.funcs.items():
                local = " internal " in f.header[:60] or " private " in f.header[:60]
                if local:
                    self.func[(id(m), n)] = f
                else:
                    self.func.setdefault(n, f)
            for n in m.globals:
                rest = m.globals[n]
                if re.match(r"(private|internal) ", rest):
                    self.glob[(id(m), n)] = m
                elif not re.match(r"external |extern_weak ", rest):
                    self.glob.setdefault(n, m)

    def find_func(self, mod, name):
        f = self.func.get((id(mod), name))
        if f is None:
            f = self.func.get(name)
        if f is None and name in mod.aliases:
            return self.find_func(mod, mod.aliases[name])
        if f is None:
            for m in self.mods:
                if name in m.aliases:
                    return self.find_func(m, m.aliases[name])
        return f


DIVREM_RE = re.compile(r"aarons_algorithm_divrem")


class Engine(object):
    def __init__(self, program, solver=None, max_steps=3000000, max_paths=20000, deadline=None, real_fmt=False):
        self.prog = program
        self.solver = solver or Solver()
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.real_fmt = real_fmt
        self.gaddr = program.gaddr    # (mod id or 0, name) -> address
        self.gobjs = program.gobjs    # objid -> Obj (initial contents of globals)
        self.fnaddr = program.fnaddr  # objid -> (mod, name)
        self.funcs_used = {}
        self.total_steps = 0
        self.paths = 0
        self.forks = 0
        self.qcache = {}
        self.string_bytes = None
        self.linked = program.linked
        self.handler_cache = {}
        self.contracts = False
        self.fix = {}
        self.split_shifts = False
        self.used_contract = False
        self.log_branches = {}
        self.concrete = None  # function (name, bits) -> value: run on concrete inputs (validation of the executor)

    # ------------------------------------------------------------ linking
    def address_of(self, mod, name):
        key = None
        if (id(mod), name) in self.prog.glob or (id(mod), name) in self.prog.func:
            key = (id(mod), name)
        else:
            key = (0, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        oid = self.prog.next_global
        self.prog.next_global += 1
        a = oid << 32
        self.gaddr[key] = a
        gm = self.prog.glob.get((id(mod), name)) or self.prog.glob.get(name)
        if gm is not None:
            ty, v, const, al = gm.global_init(name)
            o = Obj()
            o.base = a
            o.size = L.sizeof(ty)
            o.kind = "global"
            o.alive = True
            o.owner = 0
            o.align = al
            o.ro = const
            o.what = name
            o.cells = None
            self.gobjs[oid] = o
            cells = [0] * o.size
            self._init_cells(gm, ty, v, cells, 0)
            o.cells = cells
        else:
            self.fnaddr[oid] = (mod, name)
        return a

    def _init_cells(self, mod, ty, v, cells, off):
        if v == ("zero",):
            for i in range(L.sizeof(ty)):
                cells[off + i] = 0
            return
        if isinstance(v, tuple) and v[0] == "bytes":
            for i, b in enumerate(v[1]):
                cells[off + i] = b
            return
        if isinstance(v, tuple) and v[0] == "agg":
            if ty[0] in ("arr", "vec"):
                es = L.sizeof(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._init_cells(mod, et, ev, cells, off + i * es)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self._init_cells(mod, et, ev, cells, off + L.field_offset(ty, i))
            return
        if v == ("undef",):
            for i in range(L.sizeof(ty)):
                cells[off + i] = None
            return
        x = self.const(mod, ty, v)
        n = L.sizeof(ty)
        for i in range(n):
            cells[off + i] = (x >> (8 * i)) & 255

    def const(self, mod, ty, v):
        """resolve a parsed constant"""
        if type(v) is int or type(v) is str:
            return v
        k = v[0]
        if k == "global":
            return self.address_of(mod, v[1])
        if k == "undef":
            return self._agg_undef(ty)
        if k == "zero":
            return self._zero(ty)
        if k == "agg":
            return tuple(self.const(mod, et, ev) for et, ev in v[1])
        if k == "bytes":
            return tuple(v[1])
        if k == "cgep":
            return self.gep_const(mod, v)
        if k == "ccast":
            x = self.const(mod, v[2], v[3])
            b = L.bits(v[4])
            fb = L.bits(v[2])
            if v[1] == "sext":
                return T.sext(b, x, fb)
            return x & ((1 << b) - 1)
        if k == "cbin":
            a, b = self.const(mod, v[2], v[3]), self.const(mod, v[2], v[4])
            w = L.bits(v[2])
            return {"add": T.add, "sub": T.sub, "mul": T.mul, "xor": T.bxor, "and": T.band, "or": T.bor, "shl": T.shl, "lshr": T.lshr}[v[1]](w, a, b)
        if k == "meta" or k == "float":
            return v
        raise Unsupported("constant %r" % (v,))

    def _agg_undef(self, ty):
        if ty[0] == "struct":
            return tuple(self._agg_undef(e) for e in ty[2])
        if ty[0] in ("arr", "vec"):
            return tuple(self._agg_undef(ty[2]) for _ in range(ty[1]))
        return UNDEF

    def _zero(self, ty):
        if ty[0] == "struct":
            return tuple(self._zero(e) for e in ty[2])
        if ty[0] in ("arr", "vec"):
            return tuple(self._zero(ty[2]) for _ in range(ty[1]))
        return 0

    def gep_const(self, mod, v):
        _, bt, base, idx = v
        a = self.const(mod, L.PTR, base)
        t = None
        for n, (it, iv) in enumerate(idx):
            i = self.const(mod, it, iv)
            i = T._sgn(L.bits(it), i)
            if n == 0:
                a += i * L.sizeof(bt)
                t = bt
            elif t[0] == "struct":
                a += L.field_offset(t, i)
                t = t[2][i]
            else:
                a += i * L.sizeof(t[2])
                t = t[2]
        return a & ((1 << 64) - 1)

    def link(self, fn):
        """resolve constants of a function in place"""
        if not fn.parsed:
            L.parse_function(fn)
        if id(fn) in self.linked:
            return
        self.linked.add(id(fn))
        mod = fn.mod
        c = lambda ty, v: self.const(mod, ty, v)
        for name, blk in fn.blocks.items():
            out = []
            for ins in blk:
                op = ins[0]
                if op == "bin":
                    _, d, o, ty, a, b = ins
                    ins = (op, d, o, ty, c(ty, a), c(ty, b))
                elif op == "icmp":
                    _, d, o, ty, a, b = ins
                    ins = (op, d, o, ty, c(ty, a), c(ty, b))
                elif op == "load":
                    ins = (op, ins[1], ins[2], c(L.PTR, ins[3]))
                elif op == "store":
                    ins = (op, None, ins[2], c(ins[2], ins[3]), c(L.PTR, ins[4]))
                elif op == "gep":
                    _, d, bt, base, idx = ins
                    ins = self._link_gep(mod, d, bt, base, idx)
                elif op == "cbr":
                    ins = (op, None, c(L.I1, ins[2]), ins[3], ins[4])
                elif op == "phi":
                    ins = (op, ins[1], ins[2], {k: c(ins[2], v) for k, v in ins[3].items()})
                elif op == "select":
                    _, d, ct, cc, ty, a, b = ins
                    ins = (op, d, ct, c(ct, cc), ty, c(ty, a), c(ty, b))
                elif op == "cast":
                    _, d, o, ft, v, tt = ins
                    ins = (op, d, o, ft, c(ft, v), tt)
                elif op == "ret":
                    ins = (op, None, ins[2], c(ins[2], ins[3]) if ins[2] else None)
                elif op == "switch":
                    _, d, ty, v, df, cases = ins
                    ins = (op, None, ty, c(ty, v), df, cases)
                elif op == "extractvalue":
                    ins = (op, ins[1], ins[2], c(ins[2], ins[3]), ins[4])
                elif op == "insertvalue":
                    _, d, ty, v, et, e, idx = ins
                    ins = (op, d, ty, c(ty, v), et, c(et, e), idx)
                elif op == "freeze":
                    ins = (op, ins[1], ins[2], c(ins[2], ins[3]))
                elif op == "call":
                    _, d, rt, callee, args = ins
                    args = [(t, c(t, v)) for t, v in args]
                    ins = (op, d, rt, callee, args)
                elif op == "alloca":
                    _, d, ty, (nt, n), al = ins
                    n = c(nt, n)
                    if type(n) is not int:
                        raise Unsupported("variable alloca")
                    ins = (op, d, L.sizeof(ty) * n, al)
                elif op == "extractelement":
                    _, d, ty, v, i = ins
                    ins = (op, d, ty, c(ty, v), c(L.I64, i))
                elif op == "insertelement":
                    _, d, ty, v, e, i = ins
                    ins = (op, d, ty, c(ty, v), c(ty[2], e), c(L.I64, i))
                elif op == "shufflevector":
                    _, d, ty, a, b, mt, m = ins
                    ins = (op, d, ty, c(ty, a), c(ty, b), c(mt, m))
                out.append(ins)
            fn.blocks[name] = out

    def _link_gep(self, mod, d, bt, base, idx):
        base = self.const(mod, L.PTR, base)
        off = 0
        dyn = []
        t = None
        for n, (it, iv) in enumerate(idx):
            i = self.const(mod, it, iv)
            ib = L.bits(it)
            if n == 0:
                sc = L.sizeof(bt)
                t = bt
            elif t[0] == "struct":
                off += L.field_offset(t, i)
                t = t[2][i]
                continue
            else:
                sc = L.sizeof(t[2])
                t = t[2]
            if type(i) is int:
                off += T._sgn(ib, i) * sc
            else:
                dyn.append((i, ib, sc))
        return ("gep", d, base, off & ((1 << 64) - 1), dyn)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, align, kind, what=""):
        oid = st.next_obj
        st.next_obj += 1
        o = Obj()
        o.base = oid << 32
        o.size = size
        o.cells = [None] * size
        o.kind = kind
        o.alive = True
        o.owner = st.uid
        o.align = align
        o.ro = False
        o.what = what
        st.mem[oid] = o
        return o

    def obj(self, st, addr, n, write=False):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is None:
                raise MemError("%s of %d bytes at invalid address %#x" % ("write" if write else "read", n, addr))
            if write:
                if o.ro:
                    raise MemError("write to constant %s" % o.what)
                raise Unsupported("write to global %s" % o.what)
        if not o.alive:
            raise MemError("%s of %d bytes in released %s object" % ("write" if write else "read", n, o.kind))
        off = addr - o.base
        if off + n > o.size:
            raise MemError("%s of %d bytes at offset %d of a %d byte %s object" % ("write" if write else "read", n, off, o.size, o.kind))
        if write and o.owner != st.uid:
            c = Obj()
            c.base, c.size, c.kind, c.alive, c.align, c.ro, c.what = o.base, o.size, o.kind, o.alive, o.align, o.ro, o.what
            c.cells = list(o.cells)
            c.owner = st.uid
            st.mem[oid] = c
            o = c
        return o, off

    def fresh_undef(self, st, w):
        st.nfresh += 1
        return T.var("undef!%d" % st.nfresh, w)

    def load_cells(self, st, cells, off, n):
        c0 = cells[off]
        if type(c0) is tuple:
            t = c0[0]
            if c0[1] == 0 and t.w == 8 * n:
                ok = True
                for i in range(1, n):
                    c = cells[off + i]
                    if type(c) is not tuple or c[0] is not t or c[1] != i:
                        ok = False
                        break
                if ok:
                    return t
        elif type(c0) is int:
            r = 0
            for i in range(n - 1, -1, -1):
                c = cells[off + i]
                if type(c) is not int:
                    break
                r = (r << 8) | c
            else:
                return r
        if all(cells[off + i] is None for i in range(n)):
            return UNDEF
        parts = []
        for i in range(n - 1, -1, -1):
            c = cells[off + i]
            if c is None:
                c = self.fresh_undef(st, 8)
            elif type(c) is tuple:
                t, k = c
                c = T.extract(t, t.w, min(8 * k + 7, t.w - 1), 8 * k)
                kw = min(8, t.w - 8 * k)
                if kw < 8:
                    c = T.zext(8, c, kw)
            parts.append((c, 8))
        return T.concat(parts)

    def load(self, st, addr, ty):
        k = ty[0]
        if k == "i" or k == "ptr":
            w = 64 if k == "ptr" else ty[1]
            n = (w + 7) // 8
            o, off = self.obj(st, addr, n)
            v = self.load_cells(st, o.cells, off, n)
            if w & 7:
                if v is not UNDEF:
                    v = T.extract(v, 8 * n, w - 1, 0)
            return v
        if k == "struct":
            return tuple(self.load(st, addr + L.field_offset(ty, i), e) for i, e in enumerate(ty[2]))
        if k in ("arr", "vec"):
            es = L.sizeof(ty[2])
            return tuple(self.load(st, addr + i * es, ty[2]) for i in range(ty[1]))
        raise Unsupported("load of %r" % (ty,))

    def store(self, st, addr, ty, v):
        k = ty[0]
        if k == "i" or k == "ptr":
            w = 64 if k == "ptr" else ty[1]
            n = (w + 7) // 8
            o, off = self.obj(st, addr, n, True)
            cells = o.cells
            if type(v) is int:
                for i in range(n):
                    cells[off + i] = v & 255
                    v >>= 8
            elif v is UNDEF:
                for i in range(n):
                    cells[off + i] = None
            else:
                if w & 7:
                    v = T.zext(8 * n, v, w)
                    if type(v) is int:
                        return self.store(st, addr, L.int_t(8 * n), v)
                for i in range(n):
                    cells[off + i] = (v, i)
            return
        if k == "struct":
            for i, e in enumerate(ty[2]):
                self.store(st, addr + L.field_offset(ty, i), e, v[i] if v is not UNDEF else UNDEF)
            return
        if k in ("arr", "vec"):
            es = L.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(st, addr + i * es, ty[2], v[i] if v is not UNDEF else UNDEF)
            return
        raise Unsupported("store of %r" % (ty,))

    # ------------------------------------------------------------ solver helpers
    def vars_of(self, t):
        if t.aux is None:
            t.aux = frozenset(v.a[0] for v in T.variables([t]))
        return t.aux

    def slice(self, st, cond):
        """the part of the path condition that shares variables with cond"""
        vs = set(self.vars_of(cond))
        rest = st.pc
        out = []
        changed = True
        while changed and rest:
            changed = False
            nxt = []
            for c in rest:
                if not vs.isdisjoint(self.vars_of(c)):
                    out.append(c)
                    vs |= self.vars_of(c)
                    changed = True
                else:
                    nxt.append(c)
            rest = nxt
        return out

    def feasible(self, st, cond):
        """None if pc and cond is unsatisfiable, else an env for the variables involved (or {} with unknown flag)"""
        if type(cond) is int:
            return {} if cond else None
        sl = self.slice(st, cond)
        key = frozenset([c.id for c in sl] + [cond.id])
        if key in self.qcache:
            return self.qcache[key]
        self.check_time()
        r = self.solver.feasible(sl + [cond])
        self.qcache[key] = r
        return r

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Limit("time limit")

    def assume(self, st, cond, env=None):
        """add cond (known feasible, env a model of its slice) to the path"""
        if type(cond) is int:
            return
        st.pc.append(cond)
        self.learn(st, cond)
        if env is None:
            return
        if env == "unknown":
            st.model = None
        elif st.model is not None:
            m = dict(st.model)
            m.update(env)
            st.model = m

    def learn(self, st, cond):
        st.known[cond.id] = 1
        if cond.op == "not":
            c = cond.a[0]
            st.known[c.id] = 0
            if c.op == "or":
                for x in c.a:
                    if type(x) is Term:
                        self.learn(st, T.bnot(1, x))
        elif cond.op == "and":
            for x in cond.a:
                if type(x) is Term:
                    self.learn(st, x)
        n = T.bnot(1, cond)
        if type(n) is Term:
            st.known[n.id] = 0

    def decide(self, st, cond):
        """returns list of (truth, state): the feasible sides of a branch.  The first one is st itself."""
        if type(cond) is int:
            return [(cond, st)]
        if cond is UNDEF:
            raise PathEnd("memory", "branch on uninitialised data")
        k = st.known.get(cond.id)
        if k is not None:
            return [(k, st)]
        ncond = T.bnot(1, cond)
        if type(ncond) is Term:
            k = st.known.get(ncond.id)
            if k is not None:
                return [(1 - k, st)]
        if st.model is not None:
            v = T.evaluate(cond, st.model)
            other = ncond if v else cond
            env = self.feasible(st, other)
            if env is None:
                st.known[cond.id] = v
                return [(v, st)]
            s2 = st.clone()
            self.forks += 1
            self.assume(st, cond if v else ncond)
            self.assume(s2, other, env)
            return [(v, st), (1 - v, s2)]
        e1 = self.feasible(st, cond)
        e0 = self.feasible(st, ncond)
        if e1 is None and e0 is None:
            raise PathEnd("infeasible", "")
        if e0 is None:
            st.known[cond.id] = 1
            return [(1, st)]
        if e1 is None:
            st.known[cond.id] = 0
            return [(0, st)]
        s2 = st.clone()
        self.forks += 1
        self.assume(st, cond, "unknown")
        self.assume(s2, ncond, "unknown")
        return [(1, st), (0, s2)]

    def candidates(self, t, limit=600):
        """a finite superset of the values of a term, or None"""
        if type(t) is int:
            return {t}
        if t.op == "ite":
            a = self.candidates(t.a[1], limit)
            b = self.candidates(t.a[2], limit)
            if a is None or b is None or len(a) + len(b) > limit:
                return None
            return a | b
        if t.op == "add":
            a = self.candidates(t.a[0], limit)
            if a is None:
                return None
            b = self.candidates(t.a[1], limit)
            if b is None or len(a) * len(b) > limit:
                return None
            m = (1 << t.w) - 1
            return {(x + y) & m for x in a for y in b}
        if t.op == "zext":
            return self.candidates(t.a[0], limit)
        if t.op == "concat":
            r = {0}
            for v, k in t.a[0]:
                c = self.candidates(v, limit)
                if c is None or len(c) * len(r) > limit:
                    return None
                r = {(x << k) | y for x in r for y in c}
            return r
        if t.op == "mulc":
            a = self.candidates(t.a[0], limit)
            if a is None:
                return None
            m = (1 << t.w) - 1
            return {(x * t.a[1]) & m for x in a}
        if t.hi - t.lo < limit:
            return set(range(t.lo, t.hi + 1))
        return None

    def concretize(self, st, t, w, what, limit=130):
        """list of (value, state) over all feasible values; first state is st"""
        if type(t) is int:
            return [(t, st)]
        if t is UNDEF:
            raise PathEnd("memory", "uninitialised data used as %s" % what)
        res = []
        cur = st
        while True:
            if cur.model is not None:
                v = T.evaluate(t, cur.model)
            else:
                env = self.feasible(cur, T.eq(w, t, t) if False else self._any(cur, t, w))
                if env is None:
                    break
                if env == "unknown":
                    raise Unsupported("cannot enumerate values for %s" % what)
                v = T.evaluate(t, env)
            c = T.eq(w, t, v)
            if type(c) is int:
                assert c
                res.append((v, cur))
                break
            nc = T.bnot(1, c)
            env = self.feasible(cur, nc)
            if env is None:
                cur.known[c.id] = 1
                res.append((v, cur))
                break
            nxt = cur.clone()
            self.forks += 1
            self.assume(cur, c)
            if cur.model is None:
                pass
            self.assume(nxt, nc, env)
            res.append((v, cur))
            cur = nxt
            if len(res) > limit:
                raise Limit("more than %d values for %s" % (limit, what))
        return res

    def _any(self, st, t, w):
        return T.ule(w, t, (1 << w) - 1) if False else T.bor(1, T.eq(w, t, 0), T.bnot(1, T.eq(w, t, 0)))

    # ------------------------------------------------------------ running
    def start(self, fname, args=()):
        fn = self.prog.func.get("@" + fname)
        if fn is None:
            raise Unsupported("no function %s" % fname)
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.known = {}
        st.model = {}
        st.outs = []
        st.inputs = {}
        st.events = []
        st.uid = new_uid()
        st.next_obj = 1
        st.nfresh = 0
        st.steps = 0
        st.nalloc = 0
        self.push(st, fn, list(args), None)
        return st

    def push(self, st, fn, args, dst):
        self.link(fn)
        f = Frame()
        f.fn = fn
        f.block = fn.blocks[fn.entry]
        f.label = fn.entry
        f.prev = None
        f.ip = 0
        f.regs = {}
        for (ty, nm), v in zip(fn.params, args):
            f.regs[nm] = v
        f.dst = dst
        f.allocas = []
        st.frames.append(f)
        if len(st.frames) > 200:
            raise Limit("call depth")
        self.funcs_used[fn.name] = self.funcs_used.get(fn.name, 0) + 1

    def explore(self, fname, args=()):
        """generator of Outcomes"""
        work = [self.start(fname, args)]
        while work:
            st = work.pop()
            for kind, x in self.run(st):
                if kind == "fork":
                    work.append(x)
                else:
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Limit("more than %d paths" % self.max_paths)
                    yield x

    def run(self, st):
        """run one state to its end; returns list of ('fork', state) and finally ('end', Outcome)"""
        out = []
        try:
            self._loop(st, out)
        except PathEnd as e:
            if e.kind != "infeasible":
                out.append(("end", Outcome(e.kind, e.detail, st, self.where(st))))
        except MemError as e:
            out.append(("end", Outcome("memory", str(e), st, self.where(st))))
        return out

    def where(self, st):
        return " < ".join(demangle(f.fn.name) for f in reversed(st.frames[-6:]))

    def goto(self, st, label):
        f = st.frames[-1]
        f.prev = f.label
        f.label = label
        blk = f.fn.blocks[label]
        f.block = blk
        f.ip = 0
        # phis, simultaneously
        if blk and blk[0][0] == "phi":
            regs = f.regs
            prev = f.prev
            if prev not in blk[0][3] and prev == "%entry!":
                # unnamed entry block: refer to it by whatever number it has
                prev = [k for k in blk[0][3] if k not in f.fn.blocks][0]
            new = []
            i = 0
            for ins in blk:
                if ins[0] != "phi":
                    break
                v = ins[3][prev]
                new.append((ins[1], regs[v] if type(v) is str else v))
                i += 1
            for d, v in new:
                regs[d] = v
            f.ip = i

    def _loop(self, st, out):
        while True:
            f = st.frames[-1]
            regs = f.regs
            ins = f.block[f.ip]
            f.ip += 1
            st.steps += 1
            self.total_steps += 1
            if self.total_steps & 0x3ff == 0:
                self.check_time()
                if st.steps > self.max_steps:
                    raise Limit("more than %d steps on a path" % self.max_steps)
            op = ins[0]
            if op == "bin":
                _, d, o, ty, a, b = ins
                if type(a) is str:
                    a = regs[a]
                if type(b) is str:
                    b = regs[b]
                regs[d] = self.binop(st, o, ty, a, b)
            elif op == "load":
                a = ins[3]
                if type(a) is str:
                    a = regs[a]
                if type(a) is int:
                    regs[ins[1]] = self.load(st, a, ins[2])
                else:
                    self.sym_load(st, ins, a, out)
            elif op == "gep":
                _, d, base, off, dyn = ins
                if type(base) is str:
                    base = regs[base]
                if base is UNDEF:
                    regs[d] = UNDEF
                    continue
                r = T.add(64, base, off)
                for i, ib, sc in dyn:
                    i = regs[i]
                    if i is UNDEF:
                        r = UNDEF
                        break
                    if ib != 64:
                        i = T.sext(64, i, ib) if ib < 64 else T.extract(i, ib, 63, 0)
                    r = T.add(64, r, T.mul(64, i, sc))
                regs[d] = r
            elif op == "icmp":
                _, d, o, ty, a, b = ins
                if type(a) is str:
                    a = regs[a]
                if type(b) is str:
                    b = regs[b]
                regs[d] = self.icmp(st, o, ty, a, b)
            elif op == "cbr":
                c = ins[2]
                if type(c) is str:
                    c = regs[c]
                if type(c) is int:
                    self.goto(st, ins[3] if c else ins[4])
                else:
                    sides = self.decide(st, c)
                    if len(sides) == 2:
                        v, s2 = sides[1]
                        self.goto(s2, ins[3] if v else ins[4])
                        out.append(("fork", s2))
                        k = (f.fn.name, f.label)
                        self.log_branches[k] = self.log_branches.get(k, 0) + 1
                    v, _ = sides[0]
                    self.goto(st, ins[3] if v else ins[4])
            elif op == "br":
                self.goto(st, ins[2])
            elif op == "store":
                _, _, ty, v, a = ins
                if type(v) is str:
                    v = regs[v]
                if type(a) is str:
                    a = regs[a]
                if type(a) is int:
                    self.store(st, a, ty, v)
                else:
                    first = True
                    for av, s2 in self.concretize(st, a, 64, "store address"):
                        if s2 is not st:
                            s2.frames[-1].ip -= 1  # re-execute there, the address is then unique
                            s2.steps -= 1
                            out.append(("fork", s2))
                        else:
                            mine = av
                    self.store(st, mine, ty, v)
            elif op == "cast":
                _, d, o, ft, v, tt = ins
                if type(v) is str:
                    v = regs[v]
                regs[d] = self.cast(st, o, ft, v, tt)
            elif op == "select":
                _, d, ct, c, ty, a, b = ins
                if type(c) is str:
                    c = regs[c]
                if type(a) is str:
                    a = regs[a]
                if type(b) is str:
                    b = regs[b]
                if type(c) is int:
                    regs[d] = a if c else b
                elif c is UNDEF:
                    regs[d] = UNDEF
                elif type(c) is tuple:
                    regs[d] = tuple(self.sel(st, ci, ty[2], x, y) for ci, x, y in zip(c, a, b))
                elif ty[0] == "ptr" or ty[0] == "struct":
                    sides = self.decide(st, c)
                    if len(sides) == 2:
                        v, s2 = sides[1]
                        s2.frames[-1].regs[d] = a if v else b
                        out.append(("fork", s2))
                    regs[d] = a if sides[0][0] else b
                else:
                    regs[d] = self.sel(st, c, ty, a, b)
            elif op == "call":
                self.call(st, f, ins, out)
            elif op == "ret":
                v = ins[3]
                if type(v) is str:
                    v = regs[v]
                for oid in f.allocas:
                    o = st.mem[oid]
                    del st.mem[oid]
                st.frames.pop()
                if not st.frames:
                    self.finish(st)
                    out.append(("end", Outcome("return", "", st)))
                    return
                if f.dst is not None:
                    st.frames[-1].regs[f.dst] = v
            elif op == "alloca":
                o = self.new_obj(st, ins[2], ins[3], "stack", f.fn.name)
                f.allocas.append(o.base >> 32)
                regs[ins[1]] = o.base
            elif op == "extractvalue":
                v = ins[3]
                if type(v) is str:
                    v = regs[v]
                for i in ins[4]:
                    v = v[i]
                regs[ins[1]] = v
            elif op == "insertvalue":
                _, d, ty, v, et, e, idx = ins
                if type(v) is str:
                    v = regs[v]
                if type(e) is str:
                    e = regs[e]
                regs[d] = insert(v, idx, e)
            elif op == "switch":
                _, _, ty, v, df, cases = ins
                if type(v) is str:
                    v = regs[v]
                self.switch(st, ty, v, df, cases, out)
            elif op == "freeze":
                v = ins[3]
                if type(v) is str:
                    v = regs[v]
                if v is UNDEF:
                    v = self.fresh_undef(st, L.bits(ins[2]))
                regs[ins[1]] = v
            elif op == "unreachable":
                raise PathEnd("ub", "unreachable code reached")
            elif op == "extractelement":
                _, d, ty, v, i = ins
                if type(v) is str:
                    v = regs[v]
                if type(i) is str:
                    i = regs[i]
                if type(i) is not int:
                    raise Unsupported("vector index")
                regs[d] = v[i]
            elif op == "insertelement":
                _, d, ty, v, e, i = ins
                if type(v) is str:
                    v = regs[v]
                if type(e) is str:
                    e = regs[e]
                if type(i) is not int:
                    raise Unsupported("vector index")
                regs[d] = insert(v, [i], e)
            elif op == "shufflevector":
                _, d, ty, a, b, m = ins
                if type(a) is str:
                    a = regs[a]
                if type(b) is str:
                    b = regs[b]
                ab = tuple(a) + tuple(b)
                regs[d] = tuple(UNDEF if i is UNDEF else ab[i] for i in m)
            elif op == "phi":
                raise Unsupported("phi out of place")
            else:
                raise Unsupported("instruction: %s in %s" % (ins[2] if len(ins) > 2 else op, demangle(f.fn.name)))

    def finish(self, st):
        """end of the harness: nothing allocated may be left"""
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alive:
                st.events.append("leak: %d byte heap object not released" % o.size)

    def sel(self, st, c, ty, a, b):
        if type(c) is int:
            return a if c else b
        if c is UNDEF:
            return UNDEF
        if type(a) is tuple:
            et = ty[2]
            return tuple(self.sel(st, c, et if ty[0] != "struct" else ty[2][i], x, y) for i, (x, y) in enumerate(zip(a, b)))
        k = st.known.get(c.id)
        if k is not None:
            return a if k else b
        w = L.bits(ty)
        if a is UNDEF:
            a = self.fresh_undef(st, w)
        if b is UNDEF:
            b = self.fresh_undef(st, w)
        return T.ite(w, c, a, b)

    BINF = {"add": T.add, "sub": T.sub, "mul": T.mul, "and": T.band, "or": T.bor, "xor": T.bxor, "shl": T.shl, "lshr": T.lshr,
            "ashr": T.ashr, "udiv": T.udiv, "urem": T.urem, "sdiv": T.sdiv, "srem": T.srem}

    def binop(self, st, o, ty, a, b):
        if ty[0] == "vec":
            return tuple(self.binop(st, o, ty[2], x, y) for x, y in zip(a, b))
        if ty[0] != "i":
            raise Unsupported("arithmetic on %r" % (ty,))
        w = ty[1]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if o in ("udiv", "urem", "sdiv", "srem"):
            if type(b) is int:
                if b == 0:
                    raise PathEnd("ub", "division by zero")
            elif b.lo == 0:
                z = T.eq(w, b, 0)
                if type(z) is not int and st.known.get(z.id) != 0:
                    env = self.feasible(st, z)
                    if env is not None:
                        self.assume(st, z, env)
                        raise PathEnd("ub", "division by zero")
                    st.known[z.id] = 0
                    n = T.bnot(1, z)
                    st.known[n.id] = 1
        return self.BINF[o](w, a, b)

    def icmp(self, st, o, ty, a, b):
        if ty[0] == "vec":
            return tuple(self.icmp(st, o, ty[2], x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = 64 if ty[0] == "ptr" else ty[1]
        if o == "eq":
            return T.eq(w, a, b)
        if o == "ne":
            return T.bnot(1, T.eq(w, a, b))
        if o == "ult":
            return T.ult(w, a, b)
        if o == "ugt":
            return T.ult(w, b, a)
        if o == "ule":
            return T.bnot(1, T.ult(w, b, a))
        if o == "uge":
            return T.bnot(1, T.ult(w, a, b))
        if o == "slt":
            return T.slt(w, a, b)
        if o == "sgt":
            return T.slt(w, b, a)
        if o == "sle":
            return T.bnot(1, T.slt(w, b, a))
        if o == "sge":
            return T.bnot(1, T.slt(w, a, b))
        raise Unsupported("icmp " + o)

    def cast(self, st, o, ft, v, tt):
        if ft[0] == "vec":
            if o == "bitcast":
                es = L.bits(ft[2])
                if any(x is UNDEF for x in v):
                    return UNDEF
                v = T.concat([(x, es) for x in reversed(v)])
                if tt[0] == "vec":
                    return self.cast(st, o, L.int_t(L.bits(ft)), v, tt)
                return v
            return tuple(self.cast(st, o, ft[2], x, tt[2]) for x in v)
        if v is UNDEF:
            return UNDEF
        fw = L.bits(ft)
        if tt[0] == "vec":
            es = L.bits(tt[2])
            return tuple(T.extract(v, fw, es * (i + 1) - 1, es * i) for i in range(tt[1]))
        tw = L.bits(tt)
        if o == "trunc":
            return T.extract(v, fw, tw - 1, 0)
        if o == "zext":
            return T.zext(tw, v, fw)
        if o == "sext":
            return T.sext(tw, v, fw)
        if o in ("ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "addrspacecast"):
            if tw < fw:
                return T.extract(v, fw, tw - 1, 0)
            return T.zext(tw, v, fw)
        raise Unsupported("cast " + o)

    def switch(self, st, ty, v, df, cases, out):
        if type(v) is int:
            for c, l in cases:
                if c == v:
                    self.goto(st, l)
                    return
            self.goto(st, df)
            return
        if v is UNDEF:
            raise PathEnd("memory", "branch on uninitialised data")
        w = L.bits(ty)
        # group the cases by target
        groups = {}
        for c, l in cases:
            groups.setdefault(l, []).append(T.eq(w, v, c))
        for l, cs in groups.items():
            sides = self.decide(st, T.disj(cs))
            yes = [s for t, s in sides if t]
            no = [s for t, s in sides if not t]
            if yes and no:
                # the 'no' side goes on with the remaining groups: re-execute the switch there
                s2 = yes[0]
                if s2 is st:
                    n = no[0]
                    n.frames[-1].ip -= 1
                    out.append(("fork", n))
                    self.goto(st, l)
                    return
                self.goto(s2, l)
                out.append(("fork", s2))
            elif yes:
                self.goto(st, l)
                return
        self.goto(st, df)

    def sym_load(self, st, ins, a, out):
        f = st.frames[-1]
        if a is UNDEF:
            raise PathEnd("memory", "uninitialised data used as load address")
        ty = ins[2]
        n = L.sizeof(ty)
        cand = self.candidates(a)
        if cand is not None and ty[0] in ("i",) and len(cand) <= 300:
            good, bad = [], []
            for x in sorted(cand):
                o = st.mem.get(x >> 32) or self.gobjs.get(x >> 32)
                if o is not None and o.alive and x - o.base + n <= o.size:
                    good.append((x, o))
                else:
                    bad.append(x)
            if good and len(set(o.base for _, o in good)) == 1 and good[0][1].kind == "global":
                w = L.bits(ty)
                if bad:
                    inb = T.disj([T.eq(64, a, x) for x, _ in good])
                    sides = self.decide(st, inb)
                    for t, s2 in sides:
                        if s2 is not st:
                            s2.frames[-1].ip -= 1
                            out.append(("fork", s2))
                    if not sides[0][0]:
                        raise MemError("read outside of a constant table")
                vals = [(x, self.load(st, x, ty)) for x, _ in good]
                r = vals[-1][1]
                for x, v in reversed(vals[:-1]):
                    r = T.ite(w, T.eq(64, a, x), v, r)
                f.regs[ins[1]] = r
                return
        mine = None
        for av, s2 in self.concretize(st, a, 64, "load address"):
            if s2 is st:
                mine = av
            else:
                s2.frames[-1].ip -= 1
                out.append(("fork", s2))
        f.regs[ins[1]] = self.load(st, mine, ty)

    # ------------------------------------------------------------ calls
    def call(self, st, f, ins, out):
        _, d, rt, callee, args = ins
        regs = f.regs
        if callee[0] == "%":
            a = regs[callee]
            if type(a) is not int:
                raise Unsupported("indirect call through a symbolic pointer")
            t = self.fnaddr.get(a >> 32)
            if t is None or a & 0xffffffff:
                raise MemError("call of something that is not a function")
            mod, callee = t
        else:
            mod = f.fn.mod
        key = (id(mod), callee)
        h = self.handler_cache.get(key)
        if h is None:
            h = self.resolve(mod, callee)
            self.handler_cache[key] = h
        vals = [regs[v] if type(v) is str else v for t, v in args]
        if h[0] == "fn":
            self.push(st, h[1], vals, d)
            return
        if h[0] in ("panic", "ub"):
            raise PathEnd(h[0], h[1])
        if h[0] == "nop":
            return
        if h[0] == "u64fmt":
            if self.fmt_word(st, h[2], vals, d):
                return
            self.push(st, h[1], vals, d)
            return
        if h[0] == "udivrem":
            if [t[0] if t[0] == "ptr" else L.bits(t) for t, _ in args] != ["ptr", 64, "ptr", 64] or not self.divrem_contract(st, vals, d, out):
                self.push(st, h[1], vals, d)
            return
        if h[0] == "model":
            r = h[1](self, st, vals, args, rt, out, callee)
            if r is RETRY:
                return
            if d is not None:
                st.frames[-1].regs[d] = r
            return
        raise Unsupported("call of %s" % demangle(callee))

    def resolve(self, mod, name):
        n = name[1:]
        if n.startswith("llvm."):
            for pre, m in INTRINSICS:
                if n.startswith(pre):
                    return m
            return ("unknown",)
        for rx, m in MODELS:
            if rx.search(n):
                if m == "format" and self.real_fmt:
                    break
                if m == "format":
                    return ("model", m_format)
                return m
        if PANIC_RE.search(n) and "5apint" not in n.replace("9panicking", ""):
            # an unsafe precondition of the standard library is violated: not a panic a caller could expect
            return ("ub" if "panic_nounwind" in n else "panic", demangle(name))
        fn = self.prog.find_func(mod, name)
        if fn is not None:
            m = WORD_FMT_RE.search(n)
            if m:
                return ("u64fmt", fn, m.group(1))
            if self.contracts and DIVREM_RE.search(n):
                return ("udivrem", fn)
            return ("fn", fn)
        return ("unknown",)

    def divrem_contract(self, st, vals, d, out):
        """long division by its contract: the slices receive quotient and remainder; false and unchanged for a zero divisor.
        The contract itself is what property C05 decides on the code of the function."""
        n = vals[1]
        if type(n) is not int or vals[3] != n or n < 1 or type(vals[0]) is not int or type(vals[2]) is not int:
            return False
        t = L.int_t(64)
        x = [self.load(st, vals[0] + 8 * i, t) for i in range(n)]
        y = [self.load(st, vals[2] + 8 * i, t) for i in range(n)]
        if any(v is UNDEF for v in x + y):
            return False
        w = 64 * n
        A = T.concat([(v, 64) for v in reversed(x)]) if n > 1 else x[0]
        B = T.concat([(v, 64) for v in reversed(y)]) if n > 1 else y[0]
        self.used_contract = True
        for truth, s in self.decide(st, T.eq(w, B, 0)):
            if s is not st:
                out.append(("fork", s))
            if truth:
                s.frames[-1].regs[d] = 0
                continue
            q, r = T.udiv(w, A, B), T.urem(w, A, B)
            for i in range(n):
                self.store(s, vals[0] + 8 * i, t, T.extract(q, w, 64 * i + 63, 64 * i))
                self.store(s, vals[2] + 8 * i, t, T.extract(r, w, 64 * i + 63, 64 * i))
            s.frames[-1].regs[d] = 1
        return True

    def fmt_word(self, st, trait, vals, d):
        """u64 formatting, zero padded to at least the full number of digits, without forking over the number of
        significant digits: the characters are written in one piece.  False: not this case."""
        flags = self.load(st, vals[1] + 16, L.int_t(32))
        width = self.load(st, vals[1] + 20, L.int_t(16))
        if type(flags) is not int or type(width) is not int:
            return False
        sh = 1 if trait == "Binary" else 4
        if not flags & (1 << 24) or not flags & (1 << 27) or flags & (1 << 23 | 1 << 21) or width < 64 // sh or width > 256:
            return False
        v = self.load(st, vals[0], L.int_t(64))
        if v is UNDEF:
            return False
        o = self.new_obj(st, width, 1, "stack", "formatted word")
        cells = []
        for i in range(width):
            p = width - 1 - i
            if p >= 64 // sh:
                cells.append(48)
                continue
            x = T.zext(8, T.extract(v, 64, p * sh + sh - 1, p * sh), sh)
            c = T.add(8, x, 48)
            if sh == 4:
                c = T.ite(8, T.ult(8, x, 10), c, T.add(8, x, 87 if trait == "LowerHex" else 55))
            cells.append(c)
        for i, c in enumerate(cells):
            self.store(st, o.base + i, L.int_t(8), c)
        data = self.load(st, vals[1], ("ptr",))
        vt = self.load(st, vals[1] + 8, ("ptr",))
        fp = self.load(st, vt + 24, ("ptr",))
        t = self.fnaddr.get(fp >> 32) if type(fp) is int else None
        if t is None:
            raise Unsupported("formatter without a known write_str")
        h = self.resolve(*t)
        if h[0] != "fn":
            raise Unsupported("write_str is %s" % h[0])
        self.push(st, h[1], [data, o.base, width], d)
        return True


WORD_FMT_RE = re.compile(r"4core3fmt3numyNtB\w*_(?:6|8)(Binary|LowerHex|UpperHex)3fmt$")
RETRY = object()


def insert(v, idx, e):
    if len(idx) == 1:
        l = list(v)
        l[idx[0]] = e
        return tuple(l)
    l = list(v)
    l[idx[0]] = insert(l[idx[0]], idx[1:], e)
    return tuple(l)


# ---------------------------------------------------------------- models of external functions

def conc1(eng, st, v, w, what, out):
    """concretize v; other values fork to re-execute the current call"""
    mine = None
    for x, s2 in eng.concretize(st, v, w, what):
        if s2 is st:
            mine = x
        else:
            s2.frames[-1].ip -= 1
            out.append(("fork", s2))
    return mine


def m_alloc(eng, st, v, args, rt, out, callee, zero=False):
    size = conc1(eng, st, v[0], 64, "allocation size", out)
    align = conc1(eng, st, v[1], 64, "allocation alignment", out)
    if size > (1 << 24):
        raise Limit("allocation of %d bytes" % size)
    o = eng.new_obj(st, size, align, "heap")
    st.nalloc += 1
    if zero:
        o.cells = [0] * size
    return o.base


def m_alloc_zeroed(eng, st, v, args, rt, out, callee):
    return m_alloc(eng, st, v, args, rt, out, callee, True)


def _release(eng, st, p, size, align):
    if type(p) is not int:
        raise Unsupported("release of a symbolic pointer")
    oid = p >> 32
    o = st.mem.get(oid)
    if o is None or o.kind != "heap" or o.base != p:
        raise MemError("release of %#x, which is not the start of a heap object" % p)
    if not o.alive:
        raise MemError("heap object released twice")
    if o.size != size or o.align != align:
        raise MemError("heap object of size %d align %d released with size %d align %d" % (o.size, o.align, size, align))
    c = Obj()
    c.base, c.size, c.kind, c.align, c.ro, c.what = o.base, o.size, o.kind, o.align, o.ro, o.what
    c.cells = o.cells
    c.alive = False
    c.owner = st.uid
    st.mem[oid] = c
    return o


def m_dealloc(eng, st, v, args, rt, out, callee):
    size = conc1(eng, st, v[1], 64, "release size", out)
    align = conc1(eng, st, v[2], 64, "release alignment", out)
    _release(eng, st, v[0], size, align)


def m_realloc(eng, st, v, args, rt, out, callee):
    old = conc1(eng, st, v[1], 64, "reallocation size", out)
    align = conc1(eng, st, v[2], 64, "reallocation alignment", out)
    new = conc1(eng, st, v[3], 64, "reallocation size", out)
    o = _release(eng, st, v[0], old, align)
    n = eng.new_obj(st, new, align, "heap")
    st.nalloc += 1
    k = min(old, new)
    n.cells[:k] = o.cells[:k]
    return n.base


def cstr(eng, st, p, n):
    if type(p) is not int or type(n) is not int:
        raise Unsupported("symbolic name")
    return bytes(eng.load(st, p + i, L.int_t(8)) for i in range(n)).decode()


def m_sym(eng, st, v, args, rt, out, callee):
    """a fresh input; bounds lo..hi are part of the declaration"""
    name = cstr(eng, st, v[0], v[1])
    if v[2] != (1 << 64) - 1:
        name += "%d" % v[2]
    bits_ = v[3]
    if name in st.inputs:
        raise Unsupported("input %s declared twice" % name)
    if eng.concrete is not None:
        st.inputs[name] = bits_
        return eng.concrete(name, bits_)
    t = S.shaped(eng.fix, name, bits_)
    st.inputs[name] = bits_
    return T.zext(64, t, bits_)


def m_out(eng, st, v, args, rt, out, callee):
    name = cstr(eng, st, v[0], v[1])
    if v[2] != (1 << 64) - 1:
        name += "%d" % v[2]
    if v[3] is UNDEF:
        raise MemError("uninitialised value observed as %s" % name)
    st.outs.append((name, v[3]))


def m_assume(eng, st, v, args, rt, out, callee):
    c = v[0]
    w = L.bits(args[0][0])
    if c is UNDEF:
        raise PathEnd("memory", "assume on uninitialised data")
    c = T.bnot(1, T.eq(w, c, 0))
    if type(c) is int:
        if not c:
            raise PathEnd("infeasible", "")
        return
    if st.known.get(c.id) == 1:
        return
    if st.model is not None and T.evaluate(c, st.model):
        eng.assume(st, c)
        return
    env = eng.feasible(st, c)
    if env is None:
        raise PathEnd("infeasible", "")
    eng.assume(st, c, env)


def m_conc(eng, st, v, args, rt, out, callee):
    return conc1(eng, st, v[0], 64, "a value the harness makes concrete", out)


def m_format(eng, st, v, args, rt, out, callee):
    """alloc::fmt::format: text of error messages is not the subject; give an empty string"""
    b = eng.string_bytes
    if b is None:
        gm = eng.prog.glob.get("@PROBE_STRING")
        if gm is None:
            raise Unsupported("no string probe")
        a = eng.address_of(gm, "@PROBE_STRING")
        b = eng.string_bytes = list(eng.gobjs[a >> 32].cells)
    o, off = eng.obj(st, v[0], len(b), True)
    o.cells[off:off + len(b)] = b


def _len(eng, st, n, out):
    return conc1(eng, st, n, 64, "length of a memory copy", out)


def m_memcpy(eng, st, v, args, rt, out, callee):
    n = _len(eng, st, v[2], out)
    if n == 0:
        return v[0]
    dst = conc1(eng, st, v[0], 64, "copy target", out)
    src = conc1(eng, st, v[1], 64, "copy source", out)
    so, soff = eng.obj(st, src, n)
    data = so.cells[soff:soff + n]
    do, doff = eng.obj(st, dst, n, True)
    do.cells[doff:doff + n] = data
    return v[0]


def m_memset(eng, st, v, args, rt, out, callee):
    n = _len(eng, st, v[2], out)
    if n == 0:
        return v[0]
    do, doff = eng.obj(st, conc1(eng, st, v[0], 64, "fill target", out), n, True)
    b = v[1]
    if L.bits(args[1][0]) != 8 and b is not UNDEF:
        b = T.extract(b, L.bits(args[1][0]), 7, 0)
    if b is UNDEF:
        b = None
    elif type(b) is not int:
        b = (b, 0)
    do.cells[doff:doff + n] = [b] * n
    return v[0]


def m_bcmp(eng, st, v, args, rt, out, callee):
    n = _len(eng, st, v[2], out)
    if n == 0:
        return 0
    p = conc1(eng, st, v[0], 64, "comparison operand", out)
    q = conc1(eng, st, v[1], 64, "comparison operand", out)
    r = 1
    i = 0
    while i < n:
        k = 8 if n - i >= 8 else 1
        x = eng.load(st, p + i, L.int_t(8 * k))
        y = eng.load(st, q + i, L.int_t(8 * k))
        if x is UNDEF or y is UNDEF:
            raise MemError("comparison of uninitialised memory")
        r = T.band(1, r, T.eq(8 * k, x, y))
        i += k
    return T.zext(32, T.bnot(1, r), 1)


def m_memcmp(eng, st, v, args, rt, out, callee):
    n = _len(eng, st, v[2], out)
    if n == 0:
        return 0
    p = conc1(eng, st, v[0], 64, "comparison operand", out)
    q = conc1(eng, st, v[1], 64, "comparison operand", out)
    r = 0
    for i in range(n - 1, -1, -1):
        x = eng.load(st, p + i, L.int_t(8))
        y = eng.load(st, q + i, L.int_t(8))
        if x is UNDEF or y is UNDEF:
            raise MemError("comparison of uninitialised memory")
        r = T.ite(32, T.eq(8, x, y), r, T.ite(32, T.ult(8, x, y), 0xffffffff, 1))
    return r


def _ew(f):
    """lift a scalar intrinsic over vectors and undef"""
    def g(eng, st, v, args, rt, out, callee):
        ty = args[0][0]
        if ty[0] == "vec":
            return tuple(UNDEF if any(x is UNDEF for x in xs) else f(L.bits(ty[2]), *xs) for xs in zip(*[x for x in v if type(x) is tuple]))
        if any(x is UNDEF for x in v):
            return UNDEF
        return f(L.bits(ty), *v)
    return ("model", g)


def i_uaddo(w, a, b):
    s = T.add(w, a, b)
    if T.hi_of(a) + T.hi_of(b) < (1 << w):
        return (s, 0)
    return (s, T.ult(w, s, a) if type(a) is not int or type(b) is int else T.ult(w, s, b))


def i_usubo(w, a, b):
    return (T.sub(w, a, b), T.ult(w, a, b))


def i_saddo(w, a, b):
    s = T.add(w + 1, T.sext(w + 1, a, w), T.sext(w + 1, b, w))
    r = T.add(w, a, b)
    return (r, T.ne(1, T.extract(s, w + 1, w, w), T.extract(s, w + 1, w - 1, w - 1)))


def i_ssubo(w, a, b):
    s = T.sub(w + 1, T.sext(w + 1, a, w), T.sext(w + 1, b, w))
    r = T.sub(w, a, b)
    return (r, T.ne(1, T.extract(s, w + 1, w, w), T.extract(s, w + 1, w - 1, w - 1)))


def i_umulo(w, a, b):
    r = T.mul(w, a, b)
    if T.hi_of(a) * T.hi_of(b) < (1 << w):
        return (r, 0)
    p = T.mul(2 * w, T.zext(2 * w, a, w), T.zext(2 * w, b, w))
    return (r, T.ne(w, T.extract(p, 2 * w, 2 * w - 1, w), 0))


def i_smulo(w, a, b):
    p = T.mul(2 * w, T.sext(2 * w, a, w), T.sext(2 * w, b, w))
    r = T.extract(p, 2 * w, w - 1, 0)
    return (r, T.ne(2 * w, p, T.sext(2 * w, r, w)))


def i_fshl(w, a, b, c):
    if type(c) is int:
        c %= w
        if c == 0:
            return a
        return T.concat([(T.extract(a, w, w - 1 - c, 0), w - c), (T.extract(b, w, w - 1, w - c), c)])
    k = T.urem(w, c, w)
    x = T.concat([(a, w), (b, w)])
    return T.extract(T.shl(2 * w, x, T.zext(2 * w, k, w)), 2 * w, 2 * w - 1, w)


def i_fshr(w, a, b, c):
    if type(c) is int:
        c %= w
        if c == 0:
            return b
        return T.concat([(T.extract(a, w, c - 1, 0), c), (T.extract(b, w, w - 1, c), w - c)])
    k = T.urem(w, c, w)
    x = T.concat([(a, w), (b, w)])
    return T.extract(T.lshr(2 * w, x, T.zext(2 * w, k, w)), 2 * w, w - 1, 0)


def i_bswap(w, a):
    n = w // 8
    return T.concat([(T.extract(a, w, 8 * i + 7, 8 * i), 8) for i in range(n)])


def i_bitreverse(w, a):
    return T.concat([(T.extract(a, w, i, i), 1) for i in range(w)])


def i_cmp(lt):
    def g(eng, st, v, args, rt, out, callee):
        if v[0] is UNDEF or v[1] is UNDEF:
            return UNDEF
        w = L.bits(args[0][0])
        r = L.bits(rt)
        return T.ite(r, lt(w, v[0], v[1]), (1 << r) - 1, T.ite(r, T.eq(w, v[0], v[1]), 0, 1))
    return ("model", g)


def m_load_relative(eng, st, v, args, rt, out, callee):
    off = v[1]
    if type(off) is not int:
        off = conc1(eng, st, off, 64, "relative table index", out)
    x = eng.load(st, v[0] + off, L.int_t(32))
    return (v[0] + T._sgn(32, x)) & ((1 << 64) - 1)


def m_ctlz(eng, st, v, args, rt, out, callee):
    """leading zeros; with split_shifts one path per number"""
    a = v[0]
    if type(a) is not Term or not eng.split_shifts:
        return _ew(lambda w, a, z=0: T.ctlz(w, a))[1](eng, st, v, args, rt, out, callee)
    w = a.w
    for k in range(w - a.hi.bit_length(), w):
        c = T.bnot(1, T.ult(w, a, 1 << (w - 1 - k)))
        if type(c) is int:
            if c:
                return k
            continue
        mine = None
        for truth, s in eng.decide(st, c):
            if s is st:
                mine = truth
            else:
                s.frames[-1].ip -= 1
                out.append(("fork", s))
        if mine:
            return k
    return w


NOP = ("nop",)
INTRINSICS = [
    ("llvm.lifetime", NOP), ("llvm.assume", NOP), ("llvm.experimental.noalias", NOP), ("llvm.dbg", NOP), ("llvm.invariant", NOP),
    ("llvm.memcpy", ("model", m_memcpy)), ("llvm.memmove", ("model", m_memcpy)), ("llvm.memset", ("model", m_memset)),
    ("llvm.uadd.with", _ew(i_uaddo)), ("llvm.usub.with", _ew(i_usubo)), ("llvm.umul.with", _ew(i_umulo)),
    ("llvm.sadd.with", _ew(i_saddo)), ("llvm.ssub.with", _ew(i_ssubo)), ("llvm.smul.with", _ew(i_smulo)),
    ("llvm.ctlz", ("model", m_ctlz)), ("llvm.cttz", _ew(lambda w, a, z=0: T.cttz(w, a))), ("llvm.ctpop", _ew(T.ctpop)),
    ("llvm.fshl", _ew(i_fshl)), ("llvm.fshr", _ew(i_fshr)), ("llvm.bswap", _ew(i_bswap)), ("llvm.bitreverse", _ew(i_bitreverse)),
    ("llvm.umax", _ew(lambda w, a, b: T.ite(w, T.ult(w, a, b), b, a))), ("llvm.umin", _ew(lambda w, a, b: T.ite(w, T.ult(w, a, b), a, b))),
    ("llvm.smax", _ew(lambda w, a, b: T.ite(w, T.slt(w, a, b), b, a))), ("llvm.smin", _ew(lambda w, a, b: T.ite(w, T.slt(w, a, b), a, b))),
    ("llvm.abs", _ew(lambda w, a, z=0: T.ite(w, T.slt(w, a, 0), T.neg(w, a), a))),
    ("llvm.usub.sat", _ew(lambda w, a, b: T.ite(w, T.ult(w, a, b), 0, T.sub(w, a, b)))),
    ("llvm.uadd.sat", _ew(lambda w, a, b: T.ite(w, i_uaddo(w, a, b)[1], (1 << w) - 1, T.add(w, a, b)))),
    ("llvm.ucmp", i_cmp(T.ult)), ("llvm.scmp", i_cmp(T.slt)),
    ("llvm.expect", _ew(lambda w, a, b, *r: a)),
    ("llvm.load.relative", ("model", m_load_relative)),
    ("llvm.trap", ("panic", "trap")),
    ("llvm.vector.reduce.add", ("model", lambda e, s, v, a, r, o, c: _reduce(T.add, a, v))),
    ("llvm.vector.reduce.or", ("model", lambda e, s, v, a, r, o, c: _reduce(T.bor, a, v))),
    ("llvm.vector.reduce.and", ("model", lambda e, s, v, a, r, o, c: _reduce(T.band, a, v))),
]


def _reduce(f, args, v):
    w = L.bits(args[0][0][2])
    r = v[0][0]
    for x in v[0][1:]:
        r = f(w, r, x)
    return r


MODELS = [(re.compile(k), m) for k, m in [
    (r"12___rust_alloc$", ("model", m_alloc)),
    (r"14___rust_dealloc$", ("model", m_dealloc)),
    (r"14___rust_realloc$", ("model", m_realloc)),
    (r"19___rust_alloc_zeroed$", ("model", m_alloc_zeroed)),
    (r"no_alloc_shim_is_unstable", NOP),
    (r"^sym_u64$", ("model", m_sym)),
    (r"^sym_out$", ("model", m_out)),
    (r"^sym_assume$", ("model", m_assume)),
    (r"^sym_conc$", ("model", m_conc)),
    (r"3fmt6format12format_inner$", "format"),
    (r"^memcpy$|^memmove$", ("model", m_memcpy)),
    (r"^memset$", ("model", m_memset)),
    (r"^bcmp$", ("model", m_bcmp)),
    (r"^memcmp$", ("model", m_memcmp)),
]]
