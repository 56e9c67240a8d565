"""Specifications of parsing and formatting."""
from irsym import terms as T
from irsym.spec import Job, SYM, M64, digits, join, Miss
from .ops import TY, wname, z

POW2 = {2: 1, 4: 2, 8: 3, 16: 4, 32: 5}


def rng(c, lo, hi):
    """lo <= c <= hi, 64 bits"""
    return T.band(1, T.ule(64, lo, c), T.ule(64, c, hi))


def char_digit(c):
    """(is a digit or letter, its digit value)"""
    d, l, u = rng(c, 48, 57), rng(c, 97, 122), rng(c, 65, 90)
    v = T.ite(64, d, T.sub(64, c, 48), T.ite(64, l, T.sub(64, c, 87), T.sub(64, c, 55)))
    return T.disj([d, l, u]), v


def char_ok(c, radix):
    alnum, v = char_digit(c)
    return T.band(1, alnum, T.ult(64, v, radix))


US = 95


def accept_obs(x, chars, radix):
    """chars: 64-bit values of the bytes"""
    n = len(chars)
    edge = 1 if n == 0 else T.bor(1, T.eq(64, chars[0], US), T.eq(64, chars[-1], US))
    fine = [T.bor(1, char_ok(c, radix), T.eq(64, c, US)) for c in chars]
    good = T.band(1, T.bnot(1, edge), T.conj(fine))
    if x.has("err"):
        obs = [("a well-formed text is refused", T.bnot(1, good))]
        k = x.o("err")
        pos = []
        for p in range(n):
            bad = T.bnot(1, fine[p])
            if p in (0, n - 1):
                bad = T.bor(1, bad, T.eq(64, chars[p], US))
            pos.append(T.conj([T.eq(64, x.o("err.x"), p), T.eq(64, x.o("err.y"), chars[p]), bad]))
        obs.append(("the error names its cause", T.bor(1, T.band(1, T.eq(64, k, 12), edge), T.band(1, T.eq(64, k, 2), T.disj(pos)))))
        return obs
    return [("a malformed text is accepted", good)]


def out_number(x):
    """the parsed integer: (words, value of 64*words bits); its width must be a multiple of 64"""
    w = x.o("r.w")
    if type(w) is not int or w == 0 or w % 64:
        return None, None
    return w // 64, x.big("r", w // 64)


def value_obs(x, terms, bits):
    """terms: list of (weight, value of `bits` bits); the parsed number must be their weighted sum"""
    n, v = out_number(x)
    if n is None:
        return [("the width is a multiple of 64", 0)]
    top = sum(wt * ((1 << bits) - 1) for wt, _ in terms)
    k = max(64 * n, top.bit_length())
    s = 0
    for wt, d in terms:
        s = T.add(k, s, T.mul(k, T.zext(k, d, bits), wt))
    return [("number", T.eq(k, T.zext(k, v, 64 * n), s))]


def pow2_obs(x, ds, bits, shift):
    """digits most significant first; radix 2^shift"""
    n, v = out_number(x)
    if n is None:
        return [("the width is a multiple of 64", 0)]
    parts = []
    for d in ds:
        if shift <= bits:
            parts.append((T.extract(d, bits, shift - 1, 0), shift))
        else:
            parts.append((T.zext(shift, d, bits), shift))
    t = T.concat(parts)
    tot = shift * len(ds)
    k = max(64 * n, tot)
    return [("number", T.eq(k, T.zext(k, v, 64 * n), T.zext(k, t, tot)))]


def valid_job(n, radix, mode, **opts):
    """mode bit 0: upper case, bit 1: underscores; above radix 10, bit 2 and 3: which positions hold letters
    (0 odd ones, 1 even ones, 2 all, 3 none)"""
    fix = {}
    for i in range(n):
        if radix <= 10:
            fix["d%d" % i] = ("max", radix - 1)
        elif (i % 2 == 1, i % 2 == 0, True, False)[mode >> 2]:
            fix["d%d" % i] = ("10", radix - 11)
        else:
            fix["d%d" % i] = ("max", 9)
    bits = 4 if radix <= 16 else 6

    def spec(x):
        if x.has("err"):
            return [("a well-formed text is refused", 0)]
        ds = [x.i("d%d" % i, bits) for i in range(n)]
        if radix in POW2:
            return pow2_obs(x, ds, bits, POW2[radix])
        return value_obs(x, [(radix ** (n - 1 - i), d) for i, d in enumerate(ds)], bits)
    return Job("parse %d digits in radix %d%s%s" % (n, radix, ", upper case" if mode & 1 else "", ", underscores" if mode & 2 else "") + ("", ", letters at even positions", ", letters", ", decimal digits")[mode >> 2],
               "h_parse_valid", [n, radix, mode], spec, fix=fix, **opts)


def text_value(x, chars, radix):
    n, v = out_number(x)
    if n is None:
        return [("the width is a multiple of 64", 0)]
    k = max(64 * n, (radix ** len(chars)).bit_length() + 8)
    s = 0
    for c in chars:
        _, d = char_digit(c)
        s = T.ite(k, T.eq(64, c, US), s, T.add(k, T.mul(k, s, radix), T.zext(k, d, 64)))
    return [("number", T.eq(k, T.zext(k, v, 64 * n), s))]


def parse_job(n, radix, value=False, **opts):
    def spec(x):
        chars = [T.zext(64, x.i("s%d" % i, 7), 7) for i in range(n)]
        obs = accept_obs(x, chars, radix)
        if value and not x.has("err"):
            obs += text_value(x, chars, radix)
        return obs
    return Job("parse any %d characters in radix %d" % (n, radix), "h_parse", [n, radix, 0], spec, **opts)


def at_job(n, radix, p, value=False, **opts):
    """ones, except any characters at position p and at the end"""
    def spec(x):
        chars = [49] * n
        chars[p] = T.zext(64, x.i("s%d" % p, 7), 7)
        chars[n - 1] = T.zext(64, x.i("s%d" % (n - 1), 7), 7)
        obs = accept_obs(x, chars, radix)
        if value and not x.has("err"):
            obs += text_value(x, chars, radix)
        return obs
    return Job("parse %d characters in radix %d, any at %d and at the end" % (n, radix, p), "h_parse_at", [n, radix, p], spec, **opts)


def utf8_job(n, radix, p, **opts):
    def spec(x):
        chars = [49] * n
        chars[p] = T.bor(64, 0xc0, T.zext(64, x.i("h", 5), 5))
        chars[p + 1] = T.bor(64, 0x80, T.zext(64, x.i("l", 6), 6))
        # the text holds one character that is no digit; the position is that of its first byte
        obs = [("a malformed text is accepted", int(x.has("err")))]
        if x.has("err"):
            obs += accept_obs(x, chars, radix)
        return obs
    return Job("parse %d bytes in radix %d, two-byte character at %d" % (n, radix, p), "h_parse_utf8", [n, radix, p], spec, **opts)


def parse_any_jobs(tier):
    """texts of every acceptance class"""
    J = [parse_job(0, 10)]
    for r in (2, 8, 10, 16, 32, 36, 3, 7, 11, 20, 27, 35) if tier == "quick" else range(2, 37):
        J.append(parse_job(1, r))
        J.append(parse_job(2, r))
    return J


def c29(tier):
    J = [parse_job(0, r) for r in (2, 10, 36)]
    for r in range(2, 37):
        J.append(parse_job(1, r))
        J.append(parse_job(2, r, cost=2))
        J.append(at_job(9, r, 4, cost=2))
    for r in (2, 8, 10, 11, 16, 32, 36) if tier == "quick" else range(2, 37):
        J.append(parse_job(3, r, cost=5))
        J.append(at_job(40, r, 21, cost=4))
        for p in (0, 1, 5):
            J.append(utf8_job(7, r, p))
    if tier != "quick":
        for r in (2, 10, 16, 36):
            J.append(parse_job(4, r, cost=30))
        for r in (2, 3, 10, 16, 36):
            for p in range(0, 30):
                J.append(at_job(31, r, p, cost=4))
    return J


def c28(tier):
    J = []
    for r in sorted(POW2):
        per = 64 // POW2[r]
        if r in (8, 32):
            ns = set(range(1, 24)) | {k * 64 // POW2[r] + d for k in range(1, 7) for d in (-1, 0, 1, 2)} | {64, 65, 66, 128, 129, 130, 192}
        else:
            ns = {1, 2, 3} | {k * per + d for k in range(1, 5) for d in (-1, 0, 1, 2)}
        if tier != "quick":
            ns |= set(range(1, 4 * per + 3)) | {k * per + d for k in range(5, 8) for d in (-1, 0, 1)}
        for n in sorted(ns):
            if n < 1 or n > 330:
                continue
            J.append(valid_job(n, r, 0))
            if tier != "quick" or n in (per, per + 1):
                J.append(valid_job(n, r, 3))
                if r > 10:
                    for m in (4, 8, 12):
                        J.append(valid_job(n, r, m))
    for r in range(2, 37):
        J.append(parse_job(1, r, value=True))
        J.append(parse_job(2, r, value=True, cost=2))
        J.append(at_job(9, r, 4, value=True, cost=2))
    J += radix_jobs(tier)
    return J


def radix_power(r):
    """number of digits of radix r that fit a word"""
    k = 0
    while r ** (k + 1) < 1 << 64:
        k += 1
    return k


def radix_jobs(tier):
    J = []
    for r in range(3, 37):
        if r in POW2:
            continue
        p = radix_power(r)
        ns = {3, p - 1, p, p + 1, 2 * p, 2 * p + 1} | ({3 * p + 1} if r in (3, 7, 10, 36) or tier != "quick" else set())
        if tier != "quick":
            ns |= set(range(1, p + 4)) | {2 * p - 1, 2 * p + 2, 3 * p, 3 * p + 2, 4 * p, 4 * p + 1}
            if r == 10:
                ns |= set(range(1, 78))
        for n in sorted(ns):
            J.append(valid_job(n, r, 0, cost=n / 10.0))
            if r > 10 and n in (p, p + 1, 2 * p + 1):
                for m in (4, 8, 12):
                    J.append(valid_job(n, r, m, cost=n / 10.0))
        J.append(valid_job(p + 3, r, 3, cost=3))
    return J


# ---------------------------------------------------------------- output

FMT = ("{:b}", "{:x}", "{:X}")


def fmt_job(wa, base, ty=0, **opts):
    sh = 1 if base == 0 else 4
    opts.setdefault("real_fmt", True)

    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        n = x.o("n")
        if type(n) is not int:
            raise AssertionError("symbolic output length")
        obs = [("the formatter reports success", T.eq(64, x.o("ok"), 1))]
        obs += x.same("operand", "a.w", "a'", W, a)
        if n < 1 or (n - 1) * sh >= W.bits:
            return obs + [("number of digits", 0)]
        if n * sh < W.bits:
            obs.append(("no digit is missing", T.eq(W.bits - n * sh, T.extract(a, W.bits, W.bits - 1, n * sh), 0)))
        for i in range(n):
            p = n - 1 - i
            d = T.zext(64, T.extract(a, W.bits, p * sh + sh - 1, p * sh), sh)
            if i == 0 and n > 1:
                obs.append(("no leading zero", T.ne(64, d, 0)))
            c = T.add(64, d, 48)
            if sh == 4:
                c = T.ite(64, T.ult(64, d, 10), c, T.add(64, d, 87 if base == 1 else 55))
            obs.append(("character %d" % i, T.eq(64, x.o("c%d" % i), c)))
        return obs
    return Job("%s %s, %s" % (TY[ty], FMT[base], wname(wa)), "h_fmt", [wa, base, ty], spec, **opts)


def c30(tier):
    J = []
    for n in (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
        for b in (0, 1, 2):
            if b == 0 and n > (4 if tier == "quick" else 6):
                continue
            J.append(fmt_job(SYM + n, b, 0, cost=n * (5 if b == 0 else 1)))
            if n <= 2:
                J.append(fmt_job(SYM + n, b, 1, cost=n * (5 if b == 0 else 1)))
                J.append(fmt_job(SYM + n, b, 2, cost=n * (5 if b == 0 else 1)))
    return J
