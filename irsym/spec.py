"""What a specification sees of one execution: inputs, observed outputs, and helpers over big bit-vectors.

The same specification code runs on terms (one symbolic path) and on plain numbers (a native replay)."""
from . import terms as T

SYM = 1 << 32
M64 = (1 << 64) - 1


class Miss(Exception):
    """an output the specification needs was not produced"""


def shaped(fix, name, bits):
    """the input as a term; a fixed input (c, k) has c above its k free low bits, ("max", k) is at most k, ("n", k) is n plus at most k"""
    if name not in fix:
        return T.var(name, bits)
    c, k = fix[name]
    if c == "max":
        return T.var(name, bits, k)
    if type(c) is str:
        return T.add(bits, T.var(name, bits, k), int(c))
    t = T.var(name, bits)
    if k == 0:
        return c
    return T.concat([(c, bits - k), (T.extract(t, bits, k - 1, 0), k)])


def confine(fix, name, v):
    """any number made a value of the variable"""
    if name in fix and type(fix[name][0]) is str:
        return v % (fix[name][1] + 1)
    return v


def unshape(fix, name, v):
    if name not in fix:
        return v
    c, k = fix[name]
    if c == "max":
        return v
    if type(c) is str:
        return int(c) + v
    return c << k | (v & ((1 << k) - 1))


class Width(object):
    """a width: concrete, or any width of n words"""

    def __init__(self, x, code, name):
        if code >= SYM:
            self.n = code - SYM
            self.e = T.zext(64, x.i(name, 6), 6)
        else:
            self.n = (code - 1) // 64 + 1
            self.e = (code - 1) & 63
        self.w = T.add(64, self.e, 64 * (self.n - 1) + 1)
        self.top = T.lshr(64, M64, T.bxor(64, self.e, 63))
        self.bits = 64 * self.n

    def mask_list(self):
        return [M64] * (self.n - 1) + [self.top]

    def mask(self):
        """the all-ones value, 64n bits"""
        return T.concat([(self.top, 64)] + ([(M64, 64)] * (self.n - 1)))

    def clip(self, big):
        """big modulo 2^w (64n bits)"""
        d = digits(big, self.n)
        d[-1] = T.band(64, d[-1], self.top)
        return join(d)

    def msb(self, big):
        """bit w-1, of a value below 2^w"""
        t = T.extract(big, self.bits, self.bits - 1, self.bits - 64)
        return T.extract(T.lshr(64, t, self.e), 64, 0, 0)

    def sext(self, big, bits):
        """the two's complement value, in `bits` >= 64n bits"""
        full = T.ite(self.bits, self.msb(big), T.bor(self.bits, big, T.bnot(self.bits, self.mask())), big)
        return T.sext(bits, full, self.bits)


def digits(big, n):
    return [T.extract(big, 64 * n, 64 * i + 63, 64 * i) for i in range(n)]


def join(d):
    return T.concat([(x, 64) for x in reversed(d)])


class X(object):
    """one execution: symbolic path (env None) or native run (env = the inputs)"""

    def __init__(self, kind, detail, outs, env=None, events=(), fix={}):
        self.fix = fix
        self.kind = kind
        self.detail = detail
        self.env = env
        self.order = list(outs)
        self.outs = {}
        for k, v in outs:
            if k in self.outs:
                raise AssertionError("output %s twice" % k)
            self.outs[k] = v
        self.events = list(events)

    def i(self, name, bits):
        if self.env is None:
            return shaped(self.fix, name, bits)
        return self.env.get(name, 0) & ((1 << bits) - 1)

    def has(self, name):
        return name in self.outs

    def o(self, name):
        if name not in self.outs:
            raise Miss(name)
        return self.outs[name]

    def width(self, code, name):
        return Width(self, code, name)

    def val(self, name, W):
        d = [self.i("%s%d" % (name, k), 64) for k in range(W.n)]
        d[-1] = T.band(64, d[-1], W.top)
        return join(d)

    def big(self, name, n):
        return join([self.o("%s%d" % (name, k)) for k in range(n)])

    # obligations: list of (label, condition)
    def same(self, label, wname, name, W, big):
        """the reported integer has width W and value big"""
        r = [(label + " width", T.eq(64, self.o(wname), W.w))]
        for k, d in enumerate(digits(big, W.n)):
            r.append(("%s word %d" % (label, k), T.eq(64, self.o("%s%d" % (name, k)), d)))
        return r

    def error(self, code, ex=None, ey=None):
        r = [("error kind", T.eq(64, self.o("err"), code))]
        if ex is not None:
            r.append(("error detail", T.eq(64, self.o("err.x"), ex)))
        if ey is not None:
            r.append(("error detail", T.eq(64, self.o("err.y"), ey)))
        return r


class Job(object):
    """one symbolic exploration: driver function, its parameters, the specification of its endings"""

    def __init__(self, name, fn, args, spec, panic=None, **opts):
        self.name = name
        self.fn = fn
        self.args = list(args)
        self.spec = spec       # X -> [(label, condition)] for executions that return
        self.panic = panic     # X -> condition under which a panic is the specified behaviour (None: never)
        self.opts = opts

    def obligations(self, x):
        """conditions that must hold for this execution"""
        if x.kind == "return":
            try:
                return self.spec(x)
            except Miss as e:
                return [("output %s is missing" % e, 0)]
        if x.kind == "panic":
            if self.panic is None:
                return [("panic: %s" % x.detail, 0)]
            return [("panic: %s" % x.detail, self.panic(x))]
        if x.kind in ("memory", "ub"):
            return [("%s: %s" % (x.kind, x.detail), 0)]
        return [("%s: %s" % (x.kind, x.detail), 0)]
