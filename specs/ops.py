"""Specifications of the drivers' operations, over inputs and observed outputs."""
import random
from irsym import terms as T
from irsym.spec import X, Width, Miss, Job, SYM, M64, digits, join

TY = ("ApInt", "Int", "UInt", "ApInt-signed")
FORM = ("in place", "consuming", "operator", "assigning operator")
BIN = ("add", "sub", "mul", "and", "or", "xor", "div", "rem", "sdiv", "srem")


def wname(code):
    return "%dw" % (code - SYM) if code >= SYM else str(code)


def with_cond(cond, obs):
    """obligations that apply only under cond"""
    n = T.bnot(1, cond)
    return [(l, T.bor(1, n, c)) for l, c in obs]


# ---------------------------------------------------------------- binary operations

def full_product(W, a, b):
    """a*b modulo 2^(64n) as a sum of digit products"""
    n, bits = W.n, W.bits
    da, db = digits(a, n), digits(b, n)
    s = 0
    for i in range(n):
        for j in range(n - i):
            p = T.prod(da[i], 64, db[j], 64)
            off = 64 * (i + j)
            if bits - off >= 128:
                x = T.zext(bits - off, p, 128)
            else:
                x = T.extract(p, 128, bits - off - 1, 0)
            s = T.add(bits, s, T.concat([(x, bits - off), (0, off)]) if off else x)
    return s


def bin_value(op, W, a, b):
    """specified result, 64n bits, of the total operations"""
    k = W.bits
    if op == 0:
        return W.clip(T.add(k, a, b))
    if op == 1:
        return W.clip(T.sub(k, a, b))
    if op == 2:
        return W.clip(full_product(W, a, b))
    if op == 3:
        return T.band(k, a, b)
    if op == 4:
        return T.bor(k, a, b)
    if op == 5:
        return T.bxor(k, a, b)
    raise ValueError(op)


def big_zero(W, b):
    return T.conj([T.eq(64, d, 0) for d in digits(b, W.n)])


def bin_spec(wa, wb, code, check="all"):
    """add..xor on any widths.  check: all | value (same width only) | mismatch"""
    op, form = code & 15, (code >> 4) & 15

    def spec(x):
        W = x.width(wa, "w")
        V = W if wb == 0 else x.width(wb, "v")
        a, b = x.val("a", W), x.val("b", V)
        differ = 0 if wb == 0 else T.ne(64, W.w, V.w)
        obs = []
        if x.has("err"):
            obs.append(("an error although the widths agree", differ))
            obs += x.error(6, W.w, V.w)
            if form == 0:
                obs += x.same("left operand after the error", "r.w", "r", W, a)
            obs += x.same("right operand", "b.w", "b", V, b)
        else:
            obs.append(("no error although the widths differ", T.bnot(1, differ)))
            if W.n == V.n:
                if check != "mismatch":
                    obs += x.same("result", "r.w", "r", W, bin_value(op, W, a, b))
                obs += x.same("right operand", "b.w", "b", V, b)
        return obs

    def panic(x):
        if form < 2 or wb == 0:
            return 0
        return T.ne(64, x.width(wa, "w").w, x.width(wb, "v").w)

    return spec, panic


def bin_job(wa, wb, op, form=0, ty=0, **opts):
    code = op + 16 * form + 256 * ty
    spec, panic = bin_spec(wa, wb, code, opts.pop("check", "all"))
    return Job("%s %s, %s, %s%s" % (TY[ty], BIN[op], FORM[form], wname(wa), "" if wb == 0 else " with " + wname(wb)),
               "h_bin", [wa, wb, code], spec, panic, **opts)


UN = ("neg", "not", "inc", "dec", "abs", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb")


def msb_bit(W):
    """2^(w-1), 64n bits"""
    return T.concat([(T.shl(64, 1, W.e), 64)] + [(0, 64)] * (W.n - 1))


def un_value(op, W, a):
    k = W.bits
    m = W.mask()
    if op == 0:
        return W.clip(T.neg(k, a))
    if op in (1, 7):
        return T.bxor(k, a, m)
    if op == 2:
        return W.clip(T.add(k, a, 1))
    if op == 3:
        return W.clip(T.sub(k, a, 1))
    if op == 4:
        return T.ite(k, W.msb(a), W.clip(T.neg(k, a)), a)
    if op == 5:
        return m
    if op == 6:
        return 0
    if op == 8:
        return T.bor(k, a, msb_bit(W))
    if op == 9:
        return T.band(k, a, T.bnot(k, msb_bit(W)))
    if op == 10:
        return T.bxor(k, a, msb_bit(W))
    raise ValueError(op)


def un_job(wa, op, form=0, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        return x.same("result", "r.w", "r", W, un_value(op, W, x.val("a", W)))
    return Job("%s %s, %s, %s" % (TY[ty], UN[op], FORM[form], wname(wa)), "h_un", [wa, 0, op + 16 * form + 256 * ty], spec, **opts)


# ---------------------------------------------------------------- division

def sgn_parts(W, a):
    """(negative?, magnitude) of the two's complement value"""
    s = W.msb(a)
    return s, T.ite(W.bits, s, W.clip(T.neg(W.bits, a)), a)


def euclid(W, a, b, q, r):
    """a = q*b + r and r < b, over unsigned values below 2^w (no wrap-around)"""
    n = W.n
    obs = []
    if n == 1:
        k = 128
        p = T.prod(q, 64, b, 64)
        obs.append(("dividend = quotient * divisor + remainder", T.eq(k, T.add(k, p, T.zext(k, r, 64)), T.zext(k, a, 64))))
    else:
        k = 128 * n
        dq, db = digits(q, n), digits(b, n)
        s = T.zext(k, r, 64 * n)
        for i in range(n):
            for j in range(n):
                p = T.prod(dq[i], 64, db[j], 64)
                off = 64 * (i + j)
                s = T.add(k, s, T.concat([(T.zext(k - off, p, 128), k - off), (0, off)]) if off else T.zext(k, p, 128))
        obs.append(("dividend = quotient * divisor + remainder", T.eq(k, s, T.zext(k, a, 64 * n))))
    obs.append(("remainder below divisor", T.ult(64 * n, r, b)))
    return obs


def udiv_terms(W, a, b):
    k = W.bits
    return T.udiv(k, a, b), T.urem(k, a, b)


def sdiv_terms(W, a, b):
    """truncated quotient and remainder with the dividend's sign, modulo 2^w"""
    k = W.bits
    sa, ma = sgn_parts(W, a)
    sb, mb = sgn_parts(W, b)
    q, r = T.udiv(k, ma, mb), T.urem(k, ma, mb)
    q = T.ite(k, T.bxor(1, sa, sb), W.clip(T.neg(k, q)), q)
    r = T.ite(k, sa, W.clip(T.neg(k, r)), r)
    return q, r


def div_error(x, W, V, a, b, form, both, holds_a, differ, zero):
    """obligations of a division that reported an error"""
    obs = [("an error although the division is defined", T.bor(1, differ, zero))]
    k = x.o("err")
    mism = T.conj([T.eq(64, k, 6), T.eq(64, x.o("err.x"), W.w), T.eq(64, x.o("err.y"), V.w), differ])
    byz = T.conj([T.eq(64, k, 10), zero])
    obs.append(("the error names its cause", T.bor(1, mism, byz)))
    if x.has("err.vw"):
        obs += x.same("dividend in the error", "err.vw", "err.v", W, a)
    if holds_a:
        obs += x.same("left operand after the error", "r.w", "r", W, a)
    obs += x.same("right operand after the error", "b.w", "b", V, b)
    return obs


def div_spec(wa, wb, op, form, both, value=True, inputs=None):
    """op: 6 udiv 7 urem 8 sdiv 9 srem (of the operation, not the type);
    both: None or 'divrem'/'remdiv'; inputs: function x -> (W, V, a, b)"""
    signed = op in (8, 9)

    def get(x):
        if inputs is not None:
            return inputs(x)
        W = x.width(wa, "w")
        V = W if wb == 0 else x.width(wb, "v")
        return W, V, x.val("a", W), x.val("b", V)

    def spec(x):
        W, V, a, b = get(x)
        differ = 0 if wb == 0 else T.ne(64, W.w, V.w)
        zero = big_zero(V, b)
        if x.has("err"):
            return div_error(x, W, V, a, b, form, both, both is not None or form == 0, differ, zero)
        obs = [("no error although the divisor is zero", T.bnot(1, zero)),
               ("no error although the widths differ", T.bnot(1, differ))]
        if W.n != V.n or not value:
            return obs
        q, r = sdiv_terms(W, a, b) if signed else udiv_terms(W, a, b)
        if both is None:
            obs += x.same("result", "r.w", "r", W, q if op in (6, 8) else r)
            obs += x.same("right operand", "b.w", "b", V, b)
        else:
            first, second = (q, r) if both == "divrem" else (r, q)
            obs += x.same("first result", "r.w", "r", W, first)
            obs += x.same("second result", "b.w", "b", V, second)
        return obs

    def panic(x):
        if form < 2 or both is not None:
            return 0
        W, V, a, b = get(x)
        differ = 0 if wb == 0 else T.ne(64, W.w, V.w)
        return T.bor(1, differ, big_zero(V, b))

    return spec, panic


def real_op(op, ty):
    """operation behind op code 6/7 of a type"""
    return op + 2 if ty == 1 and op in (6, 7) else op


def div_job(wa, wb, op, form=0, ty=0, value=True, **opts):
    spec, panic = div_spec(wa, wb, real_op(op, ty), form, None, value)
    return Job("%s %s, %s, %s%s" % (TY[ty], BIN[op], FORM[form], wname(wa), "" if wb == 0 else " with " + wname(wb)),
               "h_bin", [wa, wb, op + 16 * form + 256 * ty], spec, panic, **opts)


DR = ("udivrem", "uremdiv", "sdivrem", "sremdiv")


def divrem_job(wa, wb, op, value=True, **opts):
    spec, panic = div_spec(wa, wb, 6 if op < 2 else 8, 0, "divrem" if op in (0, 2) else "remdiv", value)
    return Job("%s %s%s" % (DR[op], wname(wa), "" if wb == 0 else " with " + wname(wb)), "h_divrem", [wa, wb, op], spec, panic, **opts)


def shape(name, n, top, lz):
    """an n-word value whose highest word is number top, with lz leading zeros"""
    f = {"%s%d" % (name, i): (0, 0) for i in range(top + 1, n)}
    f["%s%d" % (name, top)] = (1, 63 - lz)
    return f


def long_job(n, ta, la, tb, lb, op=0, **opts):
    """n-word long division, dividend and divisor of given bit lengths"""
    fix = shape("a", n, ta, la)
    fix.update(shape("b", n, tb, lb))
    code = 64 * n

    def spec(x):
        W = x.width(code, "w")
        a, b = x.val("a", W), x.val("b", W)
        if x.has("err"):
            return [("an error although the division is defined", 0)]
        q, r = (x.big("r", n), x.big("b", n)) if op == 0 else (x.big("b", n), x.big("r", n))
        return [("width of the quotient", T.eq(64, x.o("r.w"), code)), ("width of the remainder", T.eq(64, x.o("b.w"), code))] + euclid(W, a, b, q, r)
    return Job("%s, %d words, %d-bit by %d-bit" % (DR[op], n, 64 * ta + 64 - la, 64 * tb + 64 - lb), "h_divrem", [code, code, op], spec,
               fix=fix, split_shifts=True, lazy=True, **opts)


def small_job(n, lb, op=0, **opts):
    """any n-word dividend by a divisor of one word of 64 - lb bits"""
    j = long_job(n, n - 1, 0, 0, lb, op, **opts)
    for i in range(n):
        j.opts["fix"].pop("a%d" % i, None)
    j.name = "%s, any %d words by %d bits" % (DR[op], n, 64 - lb)
    return j


def by_const_job(n, ta, la, words, op=0, **opts):
    """n-word long division, dividend of given bit length, given divisor (its words, the least significant first)"""
    fix = shape("a", n, ta, la) if la is not None else {"a%d" % i: (0, 0) for i in range(ta + 1, n)}
    for i in range(n):
        fix["b%d" % i] = (words[i] if i < len(words) else 0, 0)
    code = 64 * n

    def spec(x):
        W = x.width(code, "w")
        a, b = x.val("a", W), x.val("b", W)
        if x.has("err"):
            return [("an error although the division is defined", 0)]
        q, r = (x.big("r", n), x.big("b", n)) if op == 0 else (x.big("b", n), x.big("r", n))
        return [("width of the quotient", T.eq(64, x.o("r.w"), code)), ("width of the remainder", T.eq(64, x.o("b.w"), code))] + euclid(W, a, b, q, r)
    return Job("%s, %d words, %s-bit by %#x" % (DR[op], n, 64 * ta + 64 - la if la is not None else "up to %d" % (64 * ta + 64), sum(v << 64 * i for i, v in enumerate(words))),
               "h_divrem", [code, code, op], spec, fix=fix, split_shifts=True, lazy=True, **opts)


def window_job(n, aw, bw, op=0, **opts):
    """n-word long division; aw, bw: per word (constant c, k free bits below it), the least significant first; words not given are zero"""
    fix = {}
    for name, ws in (("a", aw), ("b", bw)):
        for i in range(n):
            fix["%s%d" % (name, i)] = ws[i] if i < len(ws) else (0, 0)
    code = 64 * n

    def spec(x):
        W = x.width(code, "w")
        a, b = x.val("a", W), x.val("b", W)
        if x.has("err"):
            return [("an error although the division is defined", 0)]
        q, r = (x.big("r", n), x.big("b", n)) if op == 0 else (x.big("b", n), x.big("r", n))
        return [("width of the quotient", T.eq(64, x.o("r.w"), code)), ("width of the remainder", T.eq(64, x.o("b.w"), code))] + euclid(W, a, b, q, r)

    def show(ws):
        return ":".join("%x*%d" % w if w[1] else "%x" % w[0] for w in reversed(ws))
    return Job("%s, %d words, %s by %s" % (DR[op], n, show(aw), show(bw)), "h_divrem", [code, code, op], spec, fix=fix, split_shifts=True, **opts)


def window(seed, **opts):
    """a window of operands: words at the edges of their range, a few free bits in one word of each operand"""
    rnd = random.Random(seed)
    n = rnd.choice((4, 5, 5, 6, 7))
    ta = rnd.randrange(2, n)
    tb = rnd.randrange(1, max(2, ta))
    k, kb = rnd.choice(((3, 0), (2, 1), (2, 2), (1, 2), (4, 0)))
    ops = []
    for top, free in ((ta, k), (tb, kb)):
        at = rnd.randrange(top + 1)
        ws = []
        for i in range(top + 1):
            f = free if i == at else 0
            c = rnd.choice((0, (1 << (64 - f)) - 1, 1 << (63 - f), rnd.getrandbits(64 - f), 1, (1 << (63 - f)) - 1, rnd.getrandbits(20)))
            ws.append((c or int(i == top), f))
        ops.append(ws)
    return window_job(n, ops[0], ops[1], **opts)


def near_multiple(seed):
    """(words, a multiple of the divisor plus some remainder, the divisor)"""
    rnd = random.Random("q%d" % seed)
    n = rnd.choice((4, 5, 5, 6, 6, 7, 8, 9))
    tb = rnd.randrange(1, max(2, n - 2))
    dbits = 64 * tb + rnd.randrange(1, 65)

    def edge(bits):
        v = i = 0
        while i < bits:
            k = rnd.choice((1, 2, 8, 31, 32, 63, 64, 64, 64, 65, 128))
            w = rnd.choice((0, (1 << k) - 1, rnd.getrandbits(k), 1, 1 << (k - 1)))
            v |= w << i
            i += k
        return v & ((1 << bits) - 1)
    d = edge(dbits) | 1 << (dbits - 1)
    qbits = rnd.randrange(65, 64 * n - dbits + 1)
    kind = rnd.randrange(5)
    q = 1 << (qbits - 1) if kind < 2 else (1 << qbits) - 1 if kind == 2 else edge(qbits) | 1 << (qbits - 1)
    if kind == 1:
        q += rnd.getrandbits(rnd.randrange(1, qbits - 1))
    a = d * q + rnd.choice((0, 0, 0, d - 1, rnd.randrange(d)))
    if a >> (64 * n):
        a = (1 << 64 * n) - 1 - rnd.getrandbits(60)
    return n, a, d


def quotient_window(seed, words=1, k=0, **opts):
    """dividends around a multiple of the divisor whose quotient has long runs of equal bits (carries run through the quotient);
    the given number of low words of the dividend and k bits of the next are free"""
    n, a, d = near_multiple(seed)
    m = (1 << 64) - 1
    aw = [((a >> 64 * i) & m, 0) for i in range(n)]
    for i in range(words):
        aw[i] = (0, 64)
    if k:
        aw[words] = (aw[words][0] >> k, k)
    return window_job(n, aw, [((d >> 64 * i) & m, 0) for i in range(n)], **opts)


def const_inputs(wa, lo, top):
    def f(x):
        W = x.width(wa, "w")
        d = [0] * W.n
        d[0] = lo
        d[-1] |= top
        return W, W, x.val("a", W), join(d)
    return f


def div_const_job(wa, lo, top, op, form=0, ty=0, **opts):
    """divisor lo + top*2^(64(n-1)); it must be below 2^w"""
    spec, panic = div_spec(wa, 0, real_op(op, ty), form, None, True, const_inputs(wa, lo, top))
    return Job("%s %s, %s, %s by %#x:%#x" % (TY[ty], BIN[op], FORM[form], wname(wa), top, lo), "h_bin_const",
               [wa, top, op + 16 * form + 256 * ty + 65536 * lo], spec, panic, **opts)


def divrem_const_job(wa, lo, top, op, **opts):
    spec, panic = div_spec(wa, 0, 6 if op < 2 else 8, 0, "divrem" if op in (0, 2) else "remdiv", True, const_inputs(wa, lo, top))
    return Job("%s %s by %#x:%#x" % (DR[op], wname(wa), top, lo), "h_divrem_const", [wa, top, op + 65536 * lo], spec, panic, **opts)


# ---------------------------------------------------------------- predicates, counting

PRED = ("is_zero", "is_one", "is_all_set", "is_all_unset", "is_even", "is_odd", "is_positive", "is_negative", "count_ones",
        "count_zeros", "leading_zeros", "trailing_zeros", "msb", "lsb", "signum")


def z(c):
    return T.zext(64, c, 1)


def big_eq(W, a, b):
    return T.conj([T.eq(64, x, y) for x, y in zip(digits(a, W.n), digits(b, W.n))])


def pred_value(op, ty, W, a):
    d = digits(a, W.n)
    zero = big_zero(W, a)
    if op in (0, 3):
        return z(zero)
    if op == 1:
        r = big_eq(W, a, 1)
        if ty == 1:
            r = T.band(1, r, T.ne(64, W.w, 1))
        return z(r)
    if op == 2:
        return z(big_eq(W, a, W.mask()))
    bit0 = T.extract(d[0], 64, 0, 0)
    if op == 4:
        return z(T.bnot(1, bit0))
    if op in (5, 13):
        return z(bit0)
    if op == 6:
        return z(T.bnot(1, W.msb(a)))
    if op in (7, 12):
        return z(W.msb(a))
    ones = 0
    for v in d:
        ones = T.add(64, ones, T.ctpop(64, v))
    if op == 8:
        return ones
    if op == 9:
        return T.sub(64, W.w, ones)
    if op == 10:
        r = 0
        for v in d:
            pass
        # number of bits of the value, from the lowest word upwards
        bl = 0
        for i, v in enumerate(d):
            bl = T.ite(64, T.eq(64, v, 0), bl, T.sub(64, 64 * i + 64, T.ctlz(64, v)))
        return T.sub(64, W.w, bl)
    if op == 11:
        r = W.w
        for i in range(W.n - 1, -1, -1):
            r = T.ite(64, T.eq(64, d[i], 0), r, T.add(64, 64 * i, T.cttz(64, d[i])))
        return r
    if op == 14:
        return T.ite(64, zero, 0, T.ite(64, W.msb(a), M64, 1))
    raise ValueError(op)


def pred_job(wa, op, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        return [("answer", T.eq(64, x.o("x"), pred_value(op, ty, W, a)))] + x.same("operand", "a.w", "a'", W, a)
    return Job("%s %s, %s" % (TY[ty], PRED[op], wname(wa)), "h_pred", [wa, 0, op + 256 * ty], spec, **opts)


# ---------------------------------------------------------------- bits, shifts

BIT = ("get", "set", "unset", "flip")


def bit_job(wa, op, ty=0, pbits=64, **opts):
    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        p = T.zext(64, x.i("p", pbits), pbits)
        ok = T.ult(64, p, W.w)
        if x.has("err"):
            return [("a valid position is refused", T.bnot(1, ok))] + x.error(3, p, W.w) + x.same("operand after the error", "r.w", "r", W, a)
        obs = [("an invalid position is accepted", ok)]
        # one bit of one word
        idx = T.lshr(64, p, 6)
        bit = T.shl(64, 1, T.band(64, p, 63))
        d = digits(a, W.n)
        if op == 0:
            r = 0
            for i, v in enumerate(d):
                r = T.ite(64, T.eq(64, idx, i), T.band(64, T.lshr(64, v, T.band(64, p, 63)), 1), r)
            return obs + [("bit", T.eq(64, x.o("x"), r))] + x.same("operand", "r.w", "r", W, a)
        nd = []
        for i, v in enumerate(d):
            c = v
            if op == 1:
                c = T.bor(64, v, bit)
            elif op == 2:
                c = T.band(64, v, T.bnot(64, bit))
            elif op == 3:
                c = T.bxor(64, v, bit)
            nd.append(T.ite(64, T.eq(64, idx, i), c, v))
        return obs + x.same("result", "r.w", "r", W, join(nd))
    return Job("%s %s bit, %s" % (TY[ty], BIT[op], wname(wa)), "h_bit", [wa, pbits, op + 256 * ty], spec, **opts)


SH = ("shl", "lshr", "ashr", "shr")


def shift_value(kind, W, a, s):
    """kind 0 shl 1 lshr 2 ashr; s a 64-bit value below w"""
    k = W.bits
    m = max(64, (k).bit_length())
    s = T.zext(k, s, 64) if k > 64 else s
    if kind == 0:
        return W.clip(T.shl(k, a, s))
    if kind == 1:
        return T.lshr(k, a, s)
    return W.clip(T.ashr(k, W.sext(a, k), s))


def shift_job(wa, op, form=0, ty=0, sbits=64, check="all", **opts):
    kind = op if op < 3 else (2 if ty == 1 else 1)

    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        s = T.zext(64, x.i("s", sbits), sbits)
        ok = T.ult(64, s, W.w)
        if x.has("err"):
            obs = [("a valid amount is refused", T.bnot(1, ok))] + x.error(4, s, W.w)
            if form == 0:
                obs += x.same("operand after the error", "r.w", "r", W, a)
            return obs
        obs = [("an invalid amount is accepted", ok)]
        if check == "guard":
            return obs
        return obs + x.same("result", "r.w", "r", W, shift_value(kind, W, a, s))

    def panic(x):
        if form < 2:
            return 0
        return T.bnot(1, T.ult(64, T.zext(64, x.i("s", sbits), sbits), x.width(wa, "w").w))

    return Job("%s %s, %s, %s" % (TY[ty], SH[op], FORM[form], wname(wa)), "h_shift", [wa, sbits, op + 16 * form + 256 * ty], spec, panic, **opts)


# ---------------------------------------------------------------- width changes

CAST = ("truncate", "zero_extend", "sign_extend", "zero_resize", "sign_resize", "extend", "resize")


def cast_value(signed, W, V, a):
    """value of width V: low bits, or extension"""
    big = max(W.bits, V.bits)
    v = W.sext(a, big) if signed else T.zext(big, a, W.bits)
    return V.clip(T.extract(v, big, V.bits - 1, 0))


def cast_job(wa, wt, op, form=0, ty=0, **opts):
    real = op
    if op == 5:
        real = 2 if ty == 1 else 1
    if op == 6:
        real = 4 if ty == 1 else 3

    def spec(x):
        W, V = x.width(wa, "w"), x.width(wt, "t")
        a = x.val("a", W)
        ok = {0: T.ule(64, V.w, W.w), 1: T.ule(64, W.w, V.w), 2: T.ule(64, W.w, V.w)}.get(real, 1)
        if x.has("err"):
            obs = [("a valid target width is refused", T.bnot(1, ok))] + x.error(8 if real == 0 else 9, V.w, W.w)
            if form == 0:
                obs += x.same("operand after the error", "r.w", "r", W, a)
            return obs
        return [("an invalid target width is accepted", ok)] + x.same("result", "r.w", "r", V, cast_value(real in (2, 4), W, V, a))
    return Job("%s %s, %s, %s to %s" % (TY[ty], CAST[op], FORM[form], wname(wa), wname(wt)), "h_cast",
               [wa, wt, op + 16 * form + 256 * ty], spec, **opts)


# ---------------------------------------------------------------- comparison

CMP = ("checked lt", "checked le", "checked gt", "checked ge", "partial_cmp", "<", "<=", ">", ">=")


def cmp_job(wa, wb, op, ty, **opts):
    signed = ty in (1, 3)

    def spec(x):
        W = x.width(wa, "w")
        V = W if wb == 0 else x.width(wb, "v")
        a, b = x.val("a", W), x.val("b", V)
        same = 1 if wb == 0 else T.eq(64, W.w, V.w)
        obs = []
        if W.n == V.n:
            if signed:
                k = W.bits
                # order of two's complement values: flip the sign bit
                f = msb_bit(W)
                lt = T.ult(k, T.bxor(k, a, f), T.bxor(k, b, f))
            else:
                lt = T.ult(W.bits, a, b)
            eq = big_eq(W, a, b)
        else:
            lt = eq = 0
        gt = T.band(1, T.bnot(1, lt), T.bnot(1, eq))
        ans = {0: lt, 1: T.bor(1, lt, eq), 2: gt, 3: T.bnot(1, lt)}
        if x.has("err"):
            obs.append(("an error although the widths agree", T.bnot(1, same)))
            ex, ey = x.o("err.x"), x.o("err.y")
            obs.append(("error kind", T.eq(64, x.o("err"), 6)))
            # `a <= b` may be decided as `not b < a`: the error names both widths in either order
            obs.append(("error names both widths", T.bor(1, T.band(1, T.eq(64, ex, W.w), T.eq(64, ey, V.w)), T.band(1, T.eq(64, ex, V.w), T.eq(64, ey, W.w)))))
        elif op < 4:
            obs.append(("no error although the widths differ", same))
            obs += with_cond(same, [("answer", T.eq(64, x.o("x"), z(ans[op])))])
        elif op == 4:
            v = T.ite(64, same, T.ite(64, lt, 0, T.ite(64, eq, 1, 2)), 3)
            obs.append(("answer", T.eq(64, x.o("x"), v)))
        else:
            obs.append(("answer", T.eq(64, x.o("x"), z(T.band(1, same, ans[op - 5])))))
        obs += x.same("left operand", "a.w", "a'", W, a)
        obs += x.same("right operand", "b.w", "b'", V, b)
        return obs
    return Job("%s %s, %s%s" % (TY[ty], CMP[op], wname(wa), "" if wb == 0 else " with " + wname(wb)), "h_cmp", [wa, wb, op + 256 * ty], spec, **opts)


def eq_job(wa, wb, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        V = W if wb == 0 else x.width(wb, "v")
        a, b = x.val("a", W), x.val("b", V)
        if W.n == V.n:
            e = T.band(1, T.eq(64, W.w, V.w), big_eq(W, a, b))
        else:
            e = 0
        obs = [("==", T.eq(64, x.o("eq"), z(e))), ("!=", T.eq(64, x.o("ne"), z(T.bnot(1, e))))]
        na, nb = x.o("han"), x.o("hbn")
        if type(na) is not int or type(nb) is not int:
            raise AssertionError("symbolic number of hasher calls")
        if na == nb:
            h = T.conj([T.eq(64, x.o("ha%d" % i), x.o("hb%d" % i)) for i in range(2 * na)])
        else:
            h = 0
        obs.append(("equal integers hash alike, different ones do not", T.eq(1, h, e)))
        obs += x.same("left operand", "a.w", "a'", W, a)
        obs += x.same("right operand", "b.w", "b'", V, b)
        return obs
    return Job("%s equality and hash, %s%s" % (TY[ty], wname(wa), "" if wb == 0 else " with " + wname(wb)), "h_eq", [wa, wb, 256 * ty], spec, **opts)


# ---------------------------------------------------------------- primitives

PRIM = (("bool", 1, 0), ("i8", 8, 1), ("u8", 8, 0), ("i16", 16, 1), ("u16", 16, 0), ("i32", 32, 1), ("u32", 32, 0),
        ("i64", 64, 1), ("u64", 64, 0), ("i128", 128, 1), ("u128", 128, 0))


def prim_job(wa, op, form=0, ty=0, **opts):
    name, bits, signed = PRIM[op]

    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        big = max(W.bits, 128)
        u = T.zext(big, a, W.bits)
        v = W.sext(a, big) if signed else u
        low = T.zext(128, T.extract(v, big, bits - 1, 0), bits)
        fits = T.eq(big, T.extract(u, big, big - 1, bits), 0) if False else T.eq(big - bits, T.extract(u, big, big - 1, bits), 0) if big > bits else 1
        obs = []
        if x.has("err"):
            if form == 0:
                return [("an error from a conversion that cannot fail", 0)]
            obs.append(("a value that fits is refused", T.bnot(1, fits)))
            obs += x.error(5)
            obs += x.same("value in the error", "err.vw", "err.v", W, a)
        else:
            if form == 1:
                obs.append(("a value that does not fit is accepted", fits))
            obs.append(("low word", T.eq(64, x.o("x0"), T.extract(low, 128, 63, 0))))
            obs.append(("high word", T.eq(64, x.o("x1"), T.extract(low, 128, 127, 64))))
        return obs + x.same("operand", "a.w", "a'", W, a)
    return Job("%s %s %s, %s" % (TY[ty], ("resize to", "try to")[form], name, wname(wa)), "h_prim", [wa, 0, op + 16 * form + 256 * ty], spec, **opts)


# ---------------------------------------------------------------- assignment

def assign_job(wa, wb, op, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        V = W if wb == 0 else x.width(wb, "v")
        a, b = x.val("a", W), x.val("b", V)
        obs = x.same("source", "b.w", "b'", V, b) + x.same("source after changing the target", "c.w", "c", V, b)
        if x.has("err"):
            if op != 1:
                return [("an error from an assignment that cannot fail", 0)]
            obs.append(("an error although the widths agree", 0 if wb == 0 else T.ne(64, W.w, V.w)))
            obs += x.error(6, W.w, V.w)
            obs += x.same("target after the error", "r.w", "r", W, a) + x.same("target in the end", "d.w", "d", W, a)
            return obs
        if op == 1:
            obs.append(("no error although the widths differ", 1 if wb == 0 else T.eq(64, W.w, V.w)))
            if W.n != V.n:
                return obs
        return obs + x.same("target", "r.w", "r", V, b) + x.same("target after changing the source", "d.w", "d", V, b)
    return Job("%s %s, %s%s" % (TY[ty], ("assign", "strict_assign", "clone")[op], wname(wa), "" if wb == 0 else " from " + wname(wb)),
               "h_assign", [wa, wb, op + 256 * ty], spec, **opts)


# ---------------------------------------------------------------- constructors

def from_prim_job(kind, form=0, ty=0, **opts):
    name, bits, signed = PRIM[kind]

    def spec(x):
        if bits == 128:
            v = T.concat([(x.i("v1", 64), 64), (x.i("v0", 64), 64)])
        else:
            v = x.i("v0", bits)
        W = Width(x, bits, None)
        return x.same("result", "r.w", "r", W, T.zext(W.bits, v, bits))
    return Job("%s %s %s" % (TY[ty], ("from_", "From ")[form], name), "h_from_prim", [0, 0, kind + 16 * form + 256 * ty], spec, **opts)


def from_array_job(n, ty, **opts):
    def spec(x):
        W = Width(x, 64 * n, None)
        return x.same("result", "r.w", "r", W, T.concat([(x.i("v%d" % i, 64), 64) for i in range(n)]))
    return Job("%s from %d words" % (("ApInt/u64", "ApInt/i64", "Int/i64", "UInt/u64")[ty], n), "h_from_array", [n, ty, 0], spec, **opts)


CONST = ("zero", "one", "all_unset", "all_set", "unsigned min", "unsigned max", "signed min", "signed max")


def const_job(wa, op, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        one_bit = T.eq(64, W.w, 1)
        if x.has("none"):
            return [("no value although the width can hold it", one_bit if (op, ty) == (1, 1) else 0)]
        obs = []
        if (op, ty) == (1, 1):
            obs.append(("a value although a signed one-bit integer cannot hold one", T.bnot(1, one_bit)))
        k = W.bits
        v = {0: 0, 1: 1, 2: 0, 3: W.mask(), 4: 0, 5: W.mask(), 6: msb_bit(W), 7: T.bxor(k, W.mask(), msb_bit(W))}[op]
        return obs + x.same("result", "r.w", "r", W, v)
    return Job("%s %s, %s" % (TY[ty], CONST[op], wname(wa)), "h_const", [wa, op, ty], spec, **opts)


def conv_job(wa, op, **opts):
    def spec(x):
        W = x.width(wa, "w")
        obs = x.same("result", "r.w", "r", W, x.val("a", W))
        if op >= 4:
            obs.append(("width", T.eq(64, x.o("x"), W.w)))
        return obs
    return Job("conversion %d, %s" % (op, wname(wa)), "h_conv", [wa, op, 0], spec, **opts)


def types_job(op, arg=0, **opts):
    bits = 8 if op in (1, 5) else 64

    def valid(v):
        if op in (0, 4):
            return T.ne(64, v, 0)
        if op in (1, 5):
            return T.band(1, T.ule(64, 2, v), T.ule(64, v, 36))
        return 1

    def spec(x):
        if op == 7:
            return [("number", T.eq(64, x.o("x"), arg))]
        v = T.zext(64, x.i("v", bits), bits)
        if x.has("err"):
            if op >= 2:
                return [("refused", 0)]
            return [("a valid number is refused", T.bnot(1, valid(v)))] + x.error({0: 7, 1: 1}[op], v)
        return [("an invalid number is accepted", valid(v)), ("number", T.eq(64, x.o("x"), v))]

    def panic(x):
        if op not in (4, 5):
            return 0
        return T.bnot(1, valid(T.zext(64, x.i("v", bits), bits)))
    return Job("number types %d %d" % (op, arg), "h_types", [op, arg, 0], spec, panic, **opts)


def rand_job(wa, op, ty=0, **opts):
    def spec(x):
        W = x.width(wa, "w")
        v = join([x.i("g%d" % i, 64) for i in range(W.n)])
        return [("words drawn", T.eq(64, x.o("n"), W.n)), ("other draws", T.eq(64, x.o("n32"), 0))] + \
            x.same("result", "r.w", "r", W, W.clip(v))
    return Job("%s %s, %s" % (TY[ty], ("random", "randomize")[op], wname(wa)), "h_rand", [wa, op, ty], spec, **opts)


# ---------------------------------------------------------------- sequences (canonical form and memory only)

def seq_job(wa, wb, ops, words, **opts):
    code = ops[0] | ops[1] << 4 | ops[2] << 8 | words[0] << 12 | words[1] << 16 | words[2] << 20
    return Job("sequence %s to words %s, %s with %s" % (ops, words, wname(wa), wname(wb)), "h_seq", [wa, wb, code], lambda x: [], **opts)


# ---------------------------------------------------------------- derived specifications

def canonical(x):
    """every reported integer is below 2^width"""
    obs = []
    for k, v in x.order:
        if not (k.endswith(".w") or k == "err.vw"):
            continue
        pre = {"a.w": "a'", "err.vw": "err.v"}.get(k, k[:-2])
        n = 0
        while x.has("%s%d" % (pre, n)):
            n += 1
        if n == 0 and k == "b.w":
            pre = "b'"
            while x.has("%s%d" % (pre, n)):
                n += 1
        if n == 0:
            obs.append(("no words reported for %s" % k, 0))
            continue
        top = x.o("%s%d" % (pre, n - 1))
        e = T.band(64, T.sub(64, v, 1), 63)
        obs.append(("%s: bits beyond the width are clear" % k, T.eq(64, T.band(64, top, T.bnot(64, T.lshr(64, M64, T.bxor(64, e, 63)))), 0)))
        obs.append(("%s: number of words" % k, T.eq(64, T.lshr(64, T.sub(64, v, 1), 6), n - 1)))
    return obs


def as_canonical(job):
    j = Job(job.name, job.fn, job.args, canonical, lambda x: 1, **job.opts)
    return j


def as_memory(job):
    """no memory error on any path, nothing left allocated on return"""
    def spec(x):
        return [("everything is released", 0)] if x.events else []
    j = Job(job.name, job.fn, job.args, spec, lambda x: 1, **job.opts)
    return j
