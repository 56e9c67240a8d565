"""Specifications of serialization."""
from irsym import terms as T
from irsym.spec import Job, SYM, M64, join
from .ops import wname


def serde_job(wa, human, **opts):
    def spec(x):
        W = x.width(wa, "w")
        a = x.val("a", W)
        if x.has("err"):
            return [("what was written cannot be read back", 0)]
        obs = [("writing succeeds", T.eq(64, x.o("ser"), 1)), ("everything written is read", T.eq(64, x.o("used"), x.o("ntok")))]
        obs += x.same("result", "r.w", "r", W, a)
        return obs + x.same("operand", "a.w", "a'", W, a)
    return Job("serde round trip, %s, %s" % ("readable" if human else "compact", wname(wa)), "h_serde", [wa, human, 0], spec, **opts)


def stated(x, v, ds, ok, strict=True):
    """the data states width v and digits ds, and is well-formed iff ok"""
    n = len(ds)
    fits = T.band(1, T.ne(64, v, 0), T.eq(64, T.lshr(64, T.sub(64, v, 1), 6), n - 1)) if n else 0
    good = T.band(1, ok, fits)
    if x.has("err"):
        return [("well-formed data is refused", T.bnot(1, good))] if strict else []
    obs = [("malformed data is accepted", good)]
    if n and ok:
        e = T.band(64, T.sub(64, v, 1), 63)
        d = list(ds)
        d[-1] = T.band(64, d[-1], T.lshr(64, M64, T.bxor(64, e, 63)))
        obs.append(("width", T.eq(64, x.o("r.w"), v)))
        for i in range(n):
            if not x.has("r%d" % i):
                obs.append(("word %d" % i, T.bnot(1, good)))
            else:
                obs.append(("word %d" % i, T.eq(64, x.o("r%d" % i), d[i])))
    return obs


def compact_job(outer, dig, shape, cut=0, **opts):
    def spec(x):
        v = x.i("v", 64)
        ds = [x.i("d%d" % i, 64) for i in range(dig)]
        ok = int(outer >= 2 and shape == 0 and not (0 < cut < 3 + dig))
        # what follows the two parts of the tuple is not specified
        return stated(x, v, ds, ok, strict=outer <= 2)
    return Job("compact data: %d parts, %d words, shape %d, cut after %d" % (outer, dig, shape, cut), "h_de_compact",
               [outer, dig, shape + 256 * cut], spec, **opts)


KEYS = {3: "width", 4: "digits", 5: "other"}


def human_job(keys, digs, shape, cut=0, **opts):
    """keys: list of 3/4/5; digs: number of words per entry"""
    kc = sum(k << (4 * j) for j, k in enumerate(keys))
    dc = sum(d << (4 * j) for j, d in enumerate(digs))
    total = 1
    for k, d in zip(keys, digs):
        total += 1
        if k == 3:
            total += (shape & 1 == 0) + (shape & 2 == 0)
        elif k == 4:
            total += 1 + (d if shape & 4 == 0 else 0)
        else:
            total += 1

    def spec(x):
        ok = int(sorted(keys) == [3, 4] and shape == 0 and not (0 < cut < total))
        v, ds = 0, []
        for j, k in enumerate(keys):
            if k == 3:
                v = x.i("v%d" % j, 64)
            if k == 4:
                ds = [x.i("d%d" % (16 * j + i), 64) for i in range(digs[j])]
        return stated(x, v, ds, ok)
    return Job("readable data: %s, words %s, shape %d, cut after %d" % (" ".join(KEYS[k] for k in keys) or "empty", digs, shape, cut), "h_de_human",
               [kc, dc, shape + 256 * cut], spec, **opts)


def malformed_jobs(tier):
    J = []
    big = 8 if tier == "quick" else 14
    for outer in (0, 1, 2, 3):
        J.append(compact_job(outer, 1, 0))
    for dig in range(0, big):
        J.append(compact_job(2, dig, 0))
    for shape in (1, 2, 3, 4):
        J.append(compact_job(2, 1, shape))
    for dig in (1, 2, 3):
        for cut in range(1, 3 + dig):
            J.append(compact_job(2, dig, 0, cut))
    import itertools
    for n in range(0, 4):
        for ks in itertools.product((3, 4, 5), repeat=n):
            J.append(human_job(list(ks), [1] * n, 0))
    for dig in range(0, big):
        J.append(human_job([3, 4], [0, dig], 0))
        J.append(human_job([4, 3], [dig, 0], 0))
    for ks, ds in (([3, 4, 4], [0, 1, 2]), ([4, 4, 3], [2, 3, 0]), ([3, 3, 4], [0, 0, 2])):
        J.append(human_job(ks, ds, 0))
    for shape in (1, 2, 4):
        J.append(human_job([3, 4], [0, 1], shape))
    for ks, ds in (([3, 4], [0, 2]), ([4, 3], [2, 0])):
        for cut in range(1, 8):
            J.append(human_job(ks, ds, 0, cut))
    return J


def c31(tier):
    J = []
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 17) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33):
        for h in (0, 1):
            J.append(serde_job(SYM + n, h))
    return J


def c32(tier):
    return malformed_jobs(tier)
