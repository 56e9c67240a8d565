"""Bit-vector terms: hash-consed DAG with simplification on construction.

A value is either a Python int (a constant, always reduced modulo 2^width) or a
Term.  Truth values are width-1 values.  Every constructor takes the width
explicitly because constants carry none.
"""

_tab = {}
_next = [0]


class Term(object):
    __slots__ = ("op", "w", "a", "lo", "hi", "id", "zv", "zb", "aux")

    def __repr__(self):
        return show(self, 4)


def reset():
    _tab.clear()
    _next[0] = 0


def mk(op, w, a, lo=0, hi=None):
    key = (op, w, a)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.w = w
        t.a = a
        t.lo = lo
        t.hi = ((1 << w) - 1) if hi is None else hi
        t.id = _next[0]
        _next[0] += 1
        t.zv = None
        t.zb = None
        t.aux = None
        if t.lo == t.hi and op != "var":
            _tab[key] = t.lo
            return t.lo
        _tab[key] = t
    return t


def show(t, depth=3):
    if type(t) is int:
        return hex(t) if t > 9 else str(t)
    if t.op == "var":
        return t.a[0]
    if depth == 0:
        return "#%d" % t.id
    return "(%s:%d %s)" % (t.op, t.w, " ".join(show(x, depth - 1) if isinstance(x, (int, Term)) else str(x) for x in t.a))


def var(name, w, hi=None):
    """a variable; with hi, one that never exceeds hi (always given the same way in one exploration)"""
    return mk("var", w, (name,), 0, hi)


def lo_of(x):
    return x if type(x) is int else x.lo


def hi_of(x):
    return x if type(x) is int else x.hi


def _ord(a, b):
    """canonical order for commutative operations: constants last"""
    if type(a) is int:
        return b, a
    if type(b) is int:
        return a, b
    return (a, b) if a.id <= b.id else (b, a)


def add(w, a, b):
    m = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a + b) & m
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == "add" and type(a.a[1]) is int:
            return add(w, a.a[0], (a.a[1] + b) & m)
        if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(w, a.a[0], (a.a[1] + b) & m, (a.a[2] + b) & m)
        lo, hi = a.lo + b, a.hi + b
        if hi <= m:
            pass
        elif lo > m:
            lo, hi = lo - m - 1, hi - m - 1
        else:
            lo, hi = 0, m
        if w == 1:
            return bnot(1, a)
        return mk("add", w, (a, b), lo, hi)
    if w == 1:
        return bxor(1, a, b)
    # pull constants outwards
    if a.op == "add" and type(a.a[1]) is int:
        return add(w, add(w, a.a[0], b), a.a[1])
    if b.op == "add" and type(b.a[1]) is int:
        return add(w, add(w, a, b.a[0]), b.a[1])
    # x + (y - x)
    if b.op == "sub" and b.a[1] is a:
        return b.a[0]
    if a.op == "sub" and a.a[1] is b:
        return a.a[0]
    a, b = _ord(a, b)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if hi > m:
        lo, hi = 0, m
    return mk("add", w, (a, b), lo, hi)


def sub(w, a, b):
    m = (1 << w) - 1
    if type(b) is int:
        return add(w, a, (-b) & m)
    if a is b:
        return 0
    if w == 1:
        return bxor(1, a, b)
    if type(a) is not int:
        if a.op == "add":
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
        if b.op == "add" and type(b.a[1]) is int:
            return add(w, sub(w, a, b.a[0]), (-b.a[1]) & m)
        if a.op == "add" and type(a.a[1]) is int:
            return add(w, sub(w, a.a[0], b), a.a[1])
    if b.op in ("extract", "prod", "mulc"):
        r = as_rem(w, a, b)
        if r is not None:
            return r
    lo, hi = 0, m
    if lo_of(a) >= b.hi:
        lo, hi = lo_of(a) - b.hi, hi_of(a) - b.lo
    return mk("sub", w, (a, b), lo, hi)


def low(x, k, w):
    """the low w bits of the k-bit x"""
    if type(x) is int:
        return x & ((1 << w) - 1)
    return zext(w, x, k) if k <= w else extract(x, k, w - 1, 0)


def same(x, y):
    return x is y or (type(x) is int and type(y) is int and x == y)


def as_rem(w, a, b):
    """a - b, where these are the low bits of X and of Y * (X / Y): the low bits of the remainder (X for Y = 0, like urem)"""
    if b.op == "extract":
        if b.a[2] != 0 or b.a[0].op != "prod":
            return None
        b = b.a[0]
    for y, q in (b.a, b.a[::-1]):
        if type(q) is not Term:
            continue
        while q.op == "zext" or (q.op == "extract" and q.a[2] == 0 and q.w >= w):
            q = q.a[0]
        if q.op != "udiv" or q.w < w:
            continue
        X, Y = q.a
        if same(low(Y, q.w, w), low(y, y.w if type(y) is Term else w, w)) and same(low(X, q.w, w), a):
            return extract(urem(q.w, X, Y), q.w, w - 1, 0)
    return None


def neg(w, a):
    return sub(w, 0, a)


def strip_zext(a):
    """smallest-width form of an operand of a product: (value, width)"""
    if type(a) is int:
        return a, max(1, a.bit_length())
    if a.op == "zext":
        return a.a[0], a.a[0].w
    return a, a.w


def prod(a, wa, b, wb):
    """the exact product, of width wa+wb"""
    w = wa + wb
    if type(a) is int and type(b) is int:
        return a * b
    if type(a) is int:
        a, wa, b, wb = b, wb, a, wa
    if type(b) is int:
        return mul(w, zext(w, a, wa), b)
    if a.id > b.id:
        a, b = b, a
    return mk("prod", w, (a, b), a.lo * b.lo, a.hi * b.hi)


def mul(w, a, b):
    m = (1 << w) - 1
    a, b = _ord(a, b)
    if type(a) is int:
        return (a * b) & m
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        lo, hi = a.lo * b, a.hi * b
        if hi > m:
            lo, hi = 0, m
        return mk("mulc", w, (a, b), lo, hi)
    if w == 1:
        return band(1, a, b)
    x, wx = strip_zext(a)
    y, wy = strip_zext(b)
    p = prod(x, wx, y, wy)
    if wx + wy >= w:
        return extract(p, wx + wy, w - 1, 0)
    return zext(w, p, wx + wy)


def udiv(w, a, b):
    if type(b) is int:
        if b == 0:
            return (1 << w) - 1
        if type(a) is int:
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        return mk("udiv", w, (a, b), a.lo // b, a.hi // b)
    if type(a) is int and a == 0 and b.lo > 0:
        return 0
    lo, hi = 0, (1 << w) - 1
    if b.lo > 0:
        lo, hi = lo_of(a) // b.hi, hi_of(a) // b.lo
    return mk("udiv", w, (a, b), lo, hi)


def urem(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if a.hi < b:
            return a
        return mk("urem", w, (a, b), 0, b - 1)
    hi = hi_of(a)
    if b.lo > 0:
        hi = min(hi, b.hi - 1)
    return mk("urem", w, (a, b), 0, hi)


def _sgn(w, a):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(w, a, b):
    if type(a) is int and type(b) is int and b != 0:
        x, y = _sgn(w, a), _sgn(w, b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    return mk("sdiv", w, (a, b))


def srem(w, a, b):
    if type(a) is int and type(b) is int and b != 0:
        x, y = _sgn(w, a), _sgn(w, b)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << w) - 1)
    return mk("srem", w, (a, b))


def bnot(w, a):
    m = (1 << w) - 1
    if type(a) is int:
        return a ^ m
    if a.op == "not":
        return a.a[0]
    if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(w, a.a[0], a.a[1] ^ m, a.a[2] ^ m)
    return mk("not", w, (a,), m - a.hi, m - a.lo)


def band(w, a, b):
    m = (1 << w) - 1
    a, b = _ord(a, b)
    if type(a) is int:
        return a & b
    if a is b:
        return a
    if type(b) is int:
        if b == 0:
            return 0
        if b == m:
            return a
        if b & (b + 1) == 0:  # low mask
            k = b.bit_length()
            if a.hi <= b:
                return a
            return zext(w, extract(a, w, k - 1, 0), k)
        # contiguous mask
        tz = (b & -b).bit_length() - 1
        c = b >> tz
        if c & (c + 1) == 0:
            k = c.bit_length()
            parts = [(extract(a, w, tz + k - 1, tz), k)]
            if tz:
                parts.append((0, tz))
            if tz + k < w:
                parts.insert(0, (0, w - tz - k))
            return concat(parts)
        if a.op == "and" and type(a.a[1]) is int:
            return band(w, a.a[0], a.a[1] & b)
        if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(w, a.a[0], a.a[1] & b, a.a[2] & b)
        return mk("and", w, (a, b), 0, min(a.hi, b))
    if w == 1:
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return 0
    else:
        r = _bitwise_zext(band, w, a, b, True)
        if r is not None:
            return r
    return mk("and", w, (a, b), 0, min(a.hi, b.hi))


def _bitwise_zext(f, w, a, b, both_zero_kills):
    """narrow bitwise operations on zero-extended operands"""
    wa = a.a[0].w if a.op == "zext" else None
    wb = b.a[0].w if b.op == "zext" else None
    if wa is None and wb is None:
        return None
    if both_zero_kills:
        k = min(x for x in (wa, wb) if x is not None)
        return zext(w, f(k, extract(a, w, k - 1, 0), extract(b, w, k - 1, 0)), k)
    if wa is not None and wb is not None:
        k = max(wa, wb)
        return zext(w, f(k, extract(a, w, k - 1, 0), extract(b, w, k - 1, 0)), k)
    return None


def bor(w, a, b):
    m = (1 << w) - 1
    a, b = _ord(a, b)
    if type(a) is int:
        return a | b
    if a is b:
        return a
    if type(b) is int:
        if b == 0:
            return a
        if b == m:
            return m
        if a.op == "or" and type(a.a[1]) is int:
            return bor(w, a.a[0], a.a[1] | b)
        if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(w, a.a[0], a.a[1] | b, a.a[2] | b)
        r = _or_concat(w, a, b)
        if r is not None:
            return r
        return mk("or", w, (a, b), max(a.lo, b), min(m, (1 << max(a.hi.bit_length(), b.bit_length())) - 1))
    if w == 1:
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return 1
    else:
        r = _bitwise_zext(bor, w, a, b, False)
        if r is not None:
            return r
        r = _or_concat(w, a, b)
        if r is not None:
            return r
    return mk("or", w, (a, b), max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)


def _segs(a, w):
    """list of (value, width) from high to low"""
    if type(a) is int:
        return [(a, w)]
    if a.op == "concat":
        return list(a.a[0])
    if a.op == "zext":
        return [(0, w - a.a[0].w)] + _segs(a.a[0], a.a[0].w)
    return [(a, w)]


def _or_concat(w, a, b):
    """a|b where on each common segment one side is the constant zero (or both are constants)"""
    ca = type(a) is not int and a.op in ("concat", "zext")
    cb = type(b) is not int and b.op in ("concat", "zext")
    if not (ca or cb):
        return None
    sa, sb = _segs(a, w), _segs(b, w)
    out = []
    i = j = 0
    ra, rb = sa[0][1], sb[0][1]
    while i < len(sa) and j < len(sb):
        k = min(ra, rb)
        va, wa = sa[i]
        vb, wb = sb[j]
        xa = extract(va, wa, ra - 1, ra - k)
        xb = extract(vb, wb, rb - 1, rb - k)
        if type(xa) is int and xa == 0:
            out.append((xb, k))
        elif type(xb) is int and xb == 0:
            out.append((xa, k))
        elif type(xa) is int and type(xb) is int:
            out.append((xa | xb, k))
        else:
            return None
        ra -= k
        rb -= k
        if ra == 0:
            i += 1
            ra = sa[i][1] if i < len(sa) else 0
        if rb == 0:
            j += 1
            rb = sb[j][1] if j < len(sb) else 0
    return concat(out)


def bxor(w, a, b):
    m = (1 << w) - 1
    a, b = _ord(a, b)
    if type(a) is int:
        return a ^ b
    if a is b:
        return 0
    if type(b) is int:
        if b == 0:
            return a
        if b == m:
            return bnot(w, a)
        if a.op == "xor" and type(a.a[1]) is int:
            return bxor(w, a.a[0], a.a[1] ^ b)
        if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(w, a.a[0], a.a[1] ^ b, a.a[2] ^ b)
        return mk("xor", w, (a, b), 0, min(m, (1 << max(a.hi.bit_length(), b.bit_length())) - 1))
    if w == 1:
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return 1
        if a.op == "not" and b.op == "not":
            return bxor(1, a.a[0], b.a[0])
        if a.op == "not":
            return bnot(1, bxor(1, a.a[0], b))
        if b.op == "not":
            return bnot(1, bxor(1, a, b.a[0]))
    else:
        r = _bitwise_zext(bxor, w, a, b, False)
        if r is not None:
            return r
    return mk("xor", w, (a, b), 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)


def shl(w, a, b):
    m = (1 << w) - 1
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & m
        if b == 0:
            return a
        return concat([(extract(a, w, w - 1 - b, 0), w - b), (0, b)])
    if type(a) is int and a == 0:
        return 0
    lo, hi = 0, m
    if b.hi < w and (hi_of(a) << b.hi) <= m:
        lo, hi = lo_of(a) << b.lo, hi_of(a) << b.hi
    return mk("shl", w, (a, b), lo, hi)


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return zext(w, extract(a, w, w - 1, b), w - b)
    if type(a) is int and a == 0:
        return 0
    return mk("lshr", w, (a, b), (lo_of(a) >> b.hi) if b.hi < 4096 else 0, hi_of(a) >> b.lo)


def ashr(w, a, b):
    if hi_of(a) < (1 << (w - 1)):
        return lshr(w, a, b)
    if type(b) is int:
        if type(a) is int:
            return (_sgn(w, a) >> min(b, w - 1)) & ((1 << w) - 1)
        if b == 0:
            return a
        b = min(b, w - 1)
        return sext(w, extract(a, w, w - 1, b), w - b)
    return mk("ashr", w, (a, b))


def zext(w, a, wa):
    if type(a) is int or w == wa:
        return a
    assert w > wa, (w, wa)
    if a.op == "zext":
        return zext(w, a.a[0], a.a[0].w)
    if a.op == "concat":
        s = a.a[0]
        if type(s[0][0]) is int and s[0][0] == 0:
            return concat([(0, w - wa + s[0][1])] + list(s[1:]))
    return mk("zext", w, (a,), a.lo, a.hi)


def sext(w, a, wa):
    if w == wa:
        return a
    if type(a) is int:
        return _sgn(wa, a) & ((1 << w) - 1)
    if a.hi < (1 << (wa - 1)):
        return zext(w, a, wa)
    if wa == 1:
        return ite(w, a, (1 << w) - 1, 0)
    if a.op == "sext":
        return sext(w, a.a[0], a.a[0].w)
    return mk("sext", w, (a,))


def extract(a, wa, hi, lo):
    k = hi - lo + 1
    if type(a) is int:
        return (a >> lo) & ((1 << k) - 1)
    if k == wa:
        return a
    op = a.op
    if a.hi < (1 << lo):
        return 0
    if op == "extract":
        return extract(a.a[0], a.a[0].w, a.a[2] + hi, a.a[2] + lo)
    if op == "zext":
        wi = a.a[0].w
        if lo >= wi:
            return 0
        if hi < wi:
            return extract(a.a[0], wi, hi, lo)
        return zext(k, extract(a.a[0], wi, wi - 1, lo), wi - lo)
    if op == "sext":
        wi = a.a[0].w
        if hi < wi:
            return extract(a.a[0], wi, hi, lo)
        if lo < wi:
            return sext(k, extract(a.a[0], wi, wi - 1, lo), wi - lo)
        return sext(k, extract(a.a[0], wi, wi - 1, wi - 1), 1)
    if op == "concat":
        out = []
        pos = a.w
        for v, w in a.a[0]:
            top, bot = pos - 1, pos - w
            pos = bot
            if bot > hi or top < lo:
                continue
            h, l = min(top, hi), max(bot, lo)
            out.append((extract(v, w, h - bot, l - bot), h - l + 1))
        return concat(out)
    if op == "ite":
        if type(a.a[1]) is int or type(a.a[2]) is int:
            return ite(k, a.a[0], extract(a.a[1], wa, hi, lo), extract(a.a[2], wa, hi, lo))
    elif op == "not":
        return bnot(k, extract(a.a[0], wa, hi, lo))
    elif op == "and":
        return band(k, extract(a.a[0], wa, hi, lo), extract(a.a[1], wa, hi, lo))
    elif op == "or":
        return bor(k, extract(a.a[0], wa, hi, lo), extract(a.a[1], wa, hi, lo))
    elif op == "xor":
        return bxor(k, extract(a.a[0], wa, hi, lo), extract(a.a[1], wa, hi, lo))
    elif op == "add":
        x, y = a.a
        if lo == 0:
            return add(k, extract(x, wa, hi, 0), extract(y, wa, hi, 0))
        if type(y) is int:
            # c multiple of 2^lo plus something below 2^lo: no carry crosses
            if y & ((1 << lo) - 1) == 0:
                return add(k, extract(x, wa, hi, lo), (y >> lo) & ((1 << k) - 1))
    elif op == "sub":
        if lo == 0:
            return sub(k, extract(a.a[0], wa, hi, 0), extract(a.a[1], wa, hi, 0))
    elif op == "mulc":
        if lo == 0:
            return mul(k, extract(a.a[0], wa, hi, 0), a.a[1] & ((1 << k) - 1))
    nl, nh = 0, (1 << k) - 1
    if a.lo >> (hi + 1) == a.hi >> (hi + 1):
        msk = (1 << (hi + 1)) - 1
        nl, nh = (a.lo & msk) >> lo, (a.hi & msk) >> lo
    return mk("extract", k, (a, hi, lo), nl, nh)


def concat(parts):
    """parts: [(value, width)] from the most significant down"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if type(v) is not int and v.op == "concat":
            sub_ = v.a[0]
        elif type(v) is not int and v.op == "zext":
            wi = v.a[0].w
            sub_ = [(0, w - wi)] + (list(v.a[0].a[0]) if v.a[0].op == "concat" else [(v.a[0], wi)])
        else:
            sub_ = ((v, w),)
        for v2, w2 in sub_:
            if out:
                pv, pw = out[-1]
                if type(pv) is int and type(v2) is int:
                    out[-1] = ((pv << w2) | v2, pw + w2)
                    continue
                if type(pv) is not int and type(v2) is not int and pv.op == "extract":
                    base, ph, pl = pv.a
                    if v2.op == "extract" and v2.a[0] is base and v2.a[1] + 1 == pl:
                        out[-1] = (extract(base, base.w, ph, v2.a[2]), pw + w2)
                        continue
            out.append((v2, w2))
    if len(out) == 1:
        return out[0][0]
    if len(out) == 2 and type(out[0][0]) is int and out[0][0] == 0:
        return zext(out[0][1] + out[1][1], out[1][0], out[1][1])
    w = sum(x[1] for x in out)
    lo = hi = 0
    for v, k in out:
        lo = (lo << k) | lo_of(v)
        hi = (hi << k) | hi_of(v)
    return mk("concat", w, (tuple(out),), lo, hi)


def eq(w, a, b):
    a, b = _ord(a, b)
    if type(a) is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    if a.hi < lo_of(b) or a.lo > hi_of(b):
        return 0
    if type(b) is int:
        if w == 1:
            return a if b else bnot(1, a)
        op = a.op
        if op == "zext":
            wi = a.a[0].w
            return eq(wi, a.a[0], b) if b >> wi == 0 else 0
        if op == "add" and type(a.a[1]) is int:
            return eq(w, a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        if op == "not":
            return eq(w, a.a[0], b ^ ((1 << w) - 1))
        if op == "xor" and type(a.a[1]) is int:
            return eq(w, a.a[0], a.a[1] ^ b)
        if op == "ite":
            c, x, y = a.a
            if type(x) is int and type(y) is int:
                return ite(1, c, 1 if x == b else 0, 1 if y == b else 0)
            if type(x) is int:
                return bor(1, c, eq(w, y, b)) if x == b else band(1, bnot(1, c), eq(w, y, b))
            if type(y) is int:
                return bor(1, bnot(1, c), eq(w, x, b)) if y == b else band(1, c, eq(w, x, b))
        if op == "concat":
            r = 1
            pos = w
            for v, k in a.a[0]:
                pos -= k
                r = band(1, r, eq(k, v, (b >> pos) & ((1 << k) - 1)))
            return r
        if op == "sub" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "xor" and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == "or" and b == 0:
            return band(1, eq(w, a.a[0], 0), eq(w, a.a[1], 0))
        if op == "sext":
            wi = a.a[0].w
            low = b & ((1 << wi) - 1)
            if sext(w, low, wi) != b:
                return 0
            return eq(wi, a.a[0], low)
    else:
        if w == 1:
            return bnot(1, bxor(1, a, b))
        if a.op == "zext" and b.op == "zext":
            k = max(a.a[0].w, b.a[0].w)
            return eq(k, extract(a, w, k - 1, 0), extract(b, w, k - 1, 0))
        if a.op == "add" and type(a.a[1]) is int and b.op == "add" and type(b.a[1]) is int:
            return eq(w, a.a[0], add(w, b.a[0], (b.a[1] - a.a[1]) & ((1 << w) - 1)))
        if a.op == "not" and b.op == "not":
            return eq(w, a.a[0], b.a[0])
    return mk("eq", 1, (a, b))


def ne(w, a, b):
    return bnot(1, eq(w, a, b))


def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if hi_of(a) < lo_of(b):
        return 1
    if lo_of(a) >= hi_of(b):
        return 0
    if type(b) is int and b == 1:
        return eq(w, a, 0)
    if type(a) is int and a == 0:
        return bnot(1, eq(w, b, 0))
    if type(a) is int and a == (1 << w) - 2:
        return eq(w, b, (1 << w) - 1)
    if w == 1:
        return band(1, bnot(1, a), b)
    if type(a) is not int and a.op == "add" and (a.a[0] is b or a.a[1] is b) and hi_of(a.a[0]) + hi_of(a.a[1]) < (1 << w):
        # a sum that does not wrap around is not below its summands
        return 0
    za = type(a) is int or a.op == "zext"
    zb = type(b) is int or b.op == "zext"
    if za and zb:
        k = max(a.bit_length() if type(a) is int else a.a[0].w, b.bit_length() if type(b) is int else b.a[0].w, 1)
        if k < w:
            return ult(k, extract(a, w, k - 1, 0), extract(b, w, k - 1, 0))
    if type(b) is int and type(a) is not int and a.op == "add" and type(a.a[1]) is int:
        c, x = a.a[1], a.a[0]
        # no wrap-around in the addition
        if x.hi + c < (1 << w):
            return ult(w, x, b - c) if b > c else 0
    if type(a) is int and type(b) is not int and b.op == "add" and type(b.a[1]) is int:
        c, x = b.a[1], b.a[0]
        if x.hi + c < (1 << w):
            return ult(w, a - c, x) if a >= c else 1
    if type(a) is not int and a.op == "ite" and type(b) is int and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(1, a.a[0], 1 if a.a[1] < b else 0, 1 if a.a[2] < b else 0)
    if type(b) is not int and b.op == "ite" and type(a) is int and type(b.a[1]) is int and type(b.a[2]) is int:
        return ite(1, b.a[0], 1 if a < b.a[1] else 0, 1 if a < b.a[2] else 0)
    if type(b) is int and b & (b - 1) == 0:
        # a < 2^k : the bits from k up are zero
        k = b.bit_length() - 1
        return eq(w - k, extract(a, w, w - 1, k), 0)
    return mk("ult", 1, (a, b))


def ule(w, a, b):
    return bnot(1, ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if _sgn(w, a) < _sgn(w, b) else 0
    if a is b:
        return 0
    h = 1 << (w - 1)
    if hi_of(a) < h and hi_of(b) < h:
        return ult(w, a, b)
    if lo_of(a) >= h and lo_of(b) >= h:
        return ult(w, a, b)
    if hi_of(a) < h and lo_of(b) >= h:
        return 0
    if lo_of(a) >= h and hi_of(b) < h:
        return 1
    if type(b) is int and b == 0:
        return extract(a, w, w - 1, w - 1)
    if type(a) is int and a == (1 << w) - 1:
        return bnot(1, extract(b, w, w - 1, w - 1))
    return mk("slt", 1, (a, b))


def sle(w, a, b):
    return bnot(1, slt(w, b, a))


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        return ite(w, c.a[0], b, a)
    if w == 1:
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bnot(1, c), b)
        if type(b) is int:
            return bor(1, bnot(1, c), a) if b else band(1, c, a)
    if type(a) is not int and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if type(b) is not int and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    return mk("ite", w, (c, a, b), min(lo_of(a), lo_of(b)), max(hi_of(a), hi_of(b)))


def implies(a, b):
    return bor(1, bnot(1, a), b)


def conj(xs):
    r = 1
    for x in xs:
        r = band(1, r, x)
    return r


def disj(xs):
    r = 0
    for x in xs:
        r = bor(1, r, x)
    return r


def ctpop(w, a):
    if type(a) is int:
        return bin(a).count("1")
    if a.op == "zext":
        wi = a.a[0].w
        if wi >= 8:
            return zext(w, ctpop(wi, a.a[0]), wi)
    if a.op == "not" and w >= 8:
        return sub(w, w, ctpop(w, a.a[0]))
    return mk("ctpop", w, (a,), 1 if a.lo > 0 else 0, min(w, a.hi.bit_length()))


def ctlz(w, a):
    if type(a) is int:
        return w - a.bit_length()
    return mk("ctlz", w, (a,), w - a.hi.bit_length(), w - a.lo.bit_length())


def cttz(w, a):
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    return mk("cttz", w, (a,), 0, w if a.lo == 0 else min(w - 1, a.hi.bit_length() - 1))


# ---------------------------------------------------------------- evaluation

def children(t):
    op = t.op
    if op == "var":
        return ()
    if op == "concat":
        return [v for v, _ in t.a[0] if type(v) is not int]
    if op == "extract":
        return (t.a[0],) if type(t.a[0]) is not int else ()
    return [x for x in t.a if type(x) is Term]


def topo(roots, done=()):
    """terms below the roots, children first, skipping those in `done`"""
    order = []
    seen = set()
    stack = [(r, False) for r in roots if type(r) is Term]
    while stack:
        t, ex = stack.pop()
        if ex:
            order.append(t)
            continue
        if t.id in seen or t.id in done:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for c in children(t):
            if c.id not in seen and c.id not in done:
                stack.append((c, False))
    return order


def evaluate(root, env, memo=None):
    """value of a term with variables taken from env (missing ones are 0)"""
    if type(root) is int:
        return root
    if memo is None:
        memo = {}
    if root.id in memo:
        return memo[root.id]
    for t in topo([root], memo):
        memo[t.id] = _ev(t, memo, env)
    return memo[root.id]


def _ev(t, memo, env):
    op = t.op
    w = t.w
    if op == "var":
        return env.get(t.a[0], 0) & ((1 << w) - 1)
    if op == "concat":
        r = 0
        for v, k in t.a[0]:
            r = (r << k) | (v if type(v) is int else memo[v.id])
        return r
    if op == "extract":
        return (memo[t.a[0].id] >> t.a[2]) & ((1 << w) - 1)
    x = [v if type(v) is int else memo[v.id] for v in t.a]
    m = (1 << w) - 1
    wa = t.a[0].w if type(t.a[0]) is Term else (t.a[1].w if len(t.a) > 1 and type(t.a[1]) is Term else w)
    if op == "add":
        return (x[0] + x[1]) & m
    if op == "sub":
        return (x[0] - x[1]) & m
    if op == "prod":
        return x[0] * x[1]
    if op == "mulc":
        return (x[0] * x[1]) & m
    if op == "udiv":
        return m if x[1] == 0 else x[0] // x[1]
    if op == "urem":
        return x[0] if x[1] == 0 else x[0] % x[1]
    if op == "sdiv":
        if x[1] == 0:
            return 1 if x[0] >> (w - 1) else m
        return sdiv(w, x[0], x[1])
    if op == "srem":
        return x[0] if x[1] == 0 else srem(w, x[0], x[1])
    if op == "not":
        return x[0] ^ m
    if op == "and":
        return x[0] & x[1]
    if op == "or":
        return x[0] | x[1]
    if op == "xor":
        return x[0] ^ x[1]
    if op == "shl":
        return (x[0] << x[1]) & m if x[1] < w else 0
    if op == "lshr":
        return x[0] >> x[1] if x[1] < w else 0
    if op == "ashr":
        return ashr(w, x[0], x[1])
    if op == "zext":
        return x[0]
    if op == "sext":
        return sext(w, x[0], wa)
    if op == "eq":
        return 1 if x[0] == x[1] else 0
    if op == "ult":
        return 1 if x[0] < x[1] else 0
    if op == "slt":
        return slt(wa, x[0], x[1])
    if op == "ite":
        return x[1] if x[0] else x[2]
    if op == "ctpop":
        return bin(x[0]).count("1")
    if op == "ctlz":
        return w - x[0].bit_length()
    if op == "cttz":
        return w if x[0] == 0 else (x[0] & -x[0]).bit_length() - 1
    raise NotImplementedError(op)


def variables(roots):
    return [t for t in topo(roots) if t.op == "var"]


def size(roots):
    return len(topo(roots))


def substitute(root, env, memo=None):
    """replace variables (by name) by values; rebuilds with simplification"""
    if type(root) is int:
        return root
    if memo is None:
        memo = {}
    for t in topo([root], memo):
        memo[t.id] = _rebuild(t, memo, env)
    return memo[root.id]


def _rebuild(t, memo, env):
    op, w = t.op, t.w
    if op == "var":
        return env.get(t.a[0], t)
    g = lambda v: v if type(v) is int else memo[v.id]
    if op == "concat":
        return concat([(g(v), k) for v, k in t.a[0]])
    if op == "extract":
        return extract(g(t.a[0]), t.a[0].w, t.a[1], t.a[2])
    x = [g(v) for v in t.a]
    wa = t.a[0].w if type(t.a[0]) is Term else (t.a[1].w if len(t.a) > 1 and type(t.a[1]) is Term else w)
    if op == "prod":
        return prod(x[0], t.a[0].w, x[1], t.a[1].w)
    if op == "mulc":
        return mul(w, x[0], x[1])
    if op == "zext":
        return zext(w, x[0], wa)
    if op == "sext":
        return sext(w, x[0], wa)
    if op == "ite":
        return ite(w, *x)
    if op in ("eq", "ult", "slt"):
        return {"eq": eq, "ult": ult, "slt": slt}[op](wa, x[0], x[1])
    f = {"add": add, "sub": sub, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "not": bnot,
         "and": band, "or": bor, "xor": bxor, "shl": shl, "lshr": lshr, "ashr": ashr,
         "ctpop": ctpop, "ctlz": ctlz, "cttz": cttz}[op]
    return f(w, *x)


def conjuncts(c):
    """the conditions a conjunction consists of"""
    out = []
    stack = [c]
    while stack:
        x = stack.pop()
        if type(x) is Term and x.w == 1 and x.op == "and":
            stack.extend(reversed(x.a))
        else:
            out.append(x)
    return out
