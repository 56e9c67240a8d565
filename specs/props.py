"""Which explorations decide which property, per tier."""
from .ops import *
from . import text as TX
from . import data as DA

A, I, U, S = 0, 1, 2, 3     # ApInt, Int, UInt, ApInt with signed operations (comparison)


def words(*ns):
    return [SYM + n for n in ns]


def tiers(tier, quick, thorough):
    return words(*(quick if tier == "quick" else thorough))


def c01(tier):
    J = []
    for k in range(11):
        for ty in (A, I, U):
            signed = PRIM[k][2]
            if k and ((ty == I and not signed) or (ty == U and signed)):
                continue
            for form in (0, 1):
                J.append(from_prim_job(k, form, ty))
    for n in (2, 3, 4, 5, 6, 7, 8, 16, 32):
        for ty in range(4):
            J.append(from_array_job(n, ty))
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65)):
        for op in range(8):
            J.append(const_job(w, op, A))
        for op in (0, 1, 2, 3, 6, 7):
            J.append(const_job(w, op, I))
        for op in range(6):
            J.append(const_job(w, op, U))
    return J


def c03(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)):
        for op in (0, 1):
            for form in (0, 1):
                J.append(bin_job(w, 0, op, form, cost=w - SYM))
        for op in (0, 2, 3):
            for form in (0, 1):
                J.append(un_job(w, op, form, cost=w - SYM))
    # wide integers, at and around word boundaries
    for w in tiers(tier, (9, 12), (16, 17, 33)):
        J.append(bin_job(w, 0, 0, 0, cost=10))
        J.append(bin_job(w, 0, 1, 0, cost=10))
        for op in (0, 2, 3):
            J.append(un_job(w, op, 0, cost=5))
    return J


def c08(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65)):
        for form in (0, 1):
            for op in (3, 4, 5):
                J.append(bin_job(w, 0, op, form))
            J.append(un_job(w, 1, form))
    return J


def c09(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in (A, I, U):
            for op in range(4):
                if ty == A or w <= SYM + 3:
                    J.append(bit_job(w, op, ty, cost=w - SYM))
            if ty != U:
                for op in (8, 9, 10):
                    J.append(un_job(w, op, 0, ty))
                J.append(pred_job(w, 12, ty))
        J.append(pred_job(w, 13, A))
    return J


def c10(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in (A, I, U):
            for op in (5, 6, 7):
                J.append(un_job(w, op, 0, ty))
            for op in (0, 2, 3, 4, 5):
                J.append(pred_job(w, op, ty))
            if ty != A:
                J.append(pred_job(w, 1, ty))
            if ty == I:
                J.append(pred_job(w, 6, ty))
                J.append(pred_job(w, 7, ty))
    return J


def c11(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in (A, I, U):
            for op in (8, 9, 10, 11):
                J.append(pred_job(w, op, ty, cost=w - SYM))
    return J


def c12(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6, 7, 8, 9)):
        for form in (0, 1):
            J.append(shift_job(w, 0, form, A, cost=w - SYM))
            J.append(shift_job(w, 1, form, A, cost=w - SYM))
        J.append(shift_job(w, 0, 0, I))
        J.append(shift_job(w, 0, 1, I))
        J.append(shift_job(w, 0, 0, U))
        J.append(shift_job(w, 0, 1, U))
        J.append(shift_job(w, 3, 0, U))
        J.append(shift_job(w, 3, 1, U))
    return J


def c13(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 6, 7, 8, 9)):
        for form in (0, 1):
            J.append(shift_job(w, 2, form, A, cost=w - SYM))
            J.append(shift_job(w, 3, form, I, cost=w - SYM))
    return J


def c14(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for form in (0, 1):
            for op in (0, 1, 2):
                J.append(shift_job(w, op, form, A, check="guard"))
            for op in (0, 3):
                J.append(shift_job(w, op, form, I, check="guard"))
                J.append(shift_job(w, op, form, U, check="guard"))
    return J


def pairs(tier, q=(1, 2, 3), t=(1, 2, 3, 4, 5), extra=()):
    ns = q if tier == "quick" else t
    r = [(SYM + a, SYM + b) for a in ns for b in ns]
    for a, b in extra:
        r.append((SYM + a, SYM + b))
    return r


def c15(tier):
    J = []
    for w, t in pairs(tier, (1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), ((8, 3), (9, 8), (17, 1))):
        for form in (0, 1):
            J.append(cast_job(w, t, 0, form, A))
            if w <= SYM + 3 and t <= SYM + 3:
                J.append(cast_job(w, t, 0, form, I))
                J.append(cast_job(w, t, 0, form, U))
    return J


def c16(tier):
    J = []
    for w, t in pairs(tier, (1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), ((3, 8), (8, 9), (1, 17))):
        for form in (0, 1):
            J.append(cast_job(w, t, 1, form, A))
            J.append(cast_job(w, t, 2, form, A))
            if w <= SYM + 3 and t <= SYM + 3:
                J.append(cast_job(w, t, 5, form, I))
                J.append(cast_job(w, t, 5, form, U))
    return J


def c17(tier):
    J = []
    for w, t in pairs(tier, (1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), ((3, 8), (8, 9), (1, 17), (8, 3), (17, 1))):
        for form in (0, 1):
            J.append(cast_job(w, t, 3, form, A))
            J.append(cast_job(w, t, 4, form, A))
            if w <= SYM + 3 and t <= SYM + 3:
                J.append(cast_job(w, t, 6, form, I))
                J.append(cast_job(w, t, 6, form, U))
    return J


def cmp_jobs(tier, tys):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in tys:
            for op in range(9):
                if op >= 4 and ty in (A, S):
                    continue
                J.append(cmp_job(w, 0, op, ty, cost=w - SYM))
    for w, v in pairs(tier, (1, 2, 3, 5), (1, 2, 3, 4, 5, 6)):
        for ty in tys:
            for op in range(9):
                if op >= 4 and ty in (A, S):
                    continue
                J.append(cmp_job(w, v, op, ty))
    return J


def c18(tier):
    return cmp_jobs(tier, (A, U))


def c19(tier):
    return cmp_jobs(tier, (S, I))


def c20(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in (A, I, U):
            J.append(eq_job(w, 0, ty))
    for w, v in pairs(tier, (1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6, 7, 8, 9)):
        for ty in (A, I, U):
            J.append(eq_job(w, v, ty))
    return J


def prims(tier, form):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33)):
        for ty in (A, I, U):
            for k in range(11):
                signed = PRIM[k][2]
                if k and ((ty == I and not signed) or (ty == U and signed)):
                    continue
                J.append(prim_job(w, k, form, ty))
    return J


def c21(tier):
    return prims(tier, 0)


def c22(tier):
    return prims(tier, 1)


def c23(tier):
    J = []
    for w, v in pairs(tier, (1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), ((8, 3), (3, 8), (8, 8), (66, 66), (65, 2), (2, 65))):
        for ty in (A, I, U):
            for op in (0, 1, 2):
                J.append(assign_job(w, v, op, ty))
    return J


def c24(tier):
    J = []
    for w, v in pairs(tier, (1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6, 7), ((8, 3), (3, 8))):
        for op in range(6):
            for form in (0, 1):
                for ty in (A, I, U):
                    if ty == A or (w <= SYM + 2 and v <= SYM + 2):
                        J.append(bin_job(w, v, op, form, ty, check="mismatch"))
    J += differ_jobs(tier, False)
    for w, v in pairs(tier, (1, 2, 3, 5), (1, 2, 3, 4, 5, 6)):
        for op in range(4):
            for ty in (A, S, I, U):
                J.append(cmp_job(w, v, op, ty))
        for ty in (A, I, U):
            J.append(assign_job(w, v, 1, ty))
            J.append(eq_job(w, v, ty))
    return J


def c33(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7, 8, 9, 17), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33)):
        for ty in (A, I, U):
            for op in (0, 1):
                J.append(rand_job(w, op, ty))
    return J


def c34(tier):
    J = [types_job(op) for op in range(7)]
    J += [types_job(7, w) for w in (1, 8, 16, 32, 64, 128)]
    return J


def c25(tier):
    """every forwarded operation of Int and UInt against the specification of its signedness"""
    J = []
    ns = tiers(tier, (1, 2, 3), (1, 2, 3, 4, 5))
    for w in ns:
        for ty in (I, U):
            for form in (0, 1):
                for op in (0, 1, 3, 4, 5):
                    J.append(bin_job(w, 0, op, form, ty))
                for op in (0, 1):
                    J.append(un_job(w, op, form, ty))
                J.append(bin_job(SYM + 1, 0, 2, form, ty))
                J.append(shift_job(w, 0, form, ty))
                J.append(shift_job(w, 3, form, ty))
                for t in ns:
                    for op in (0, 5, 6):
                        J.append(cast_job(w, t, op, form, ty))
            for op in (5, 6, 7):
                J.append(un_job(w, op, 0, ty))
            if ty == I:
                J.append(un_job(w, 4, 0, ty))
                J.append(un_job(w, 4, 1, ty))
                for op in (8, 9, 10):
                    J.append(un_job(w, op, 0, ty))
                for op in (6, 7, 12, 14):
                    J.append(pred_job(w, op, ty))
            for op in (0, 1, 2, 3, 4, 5, 8, 9, 10, 11):
                J.append(pred_job(w, op, ty))
            for op in range(4):
                J.append(bit_job(w, op, ty))
            for op in range(9):
                J.append(cmp_job(w, 0, op, ty))
            for op in (0, 1, 2):
                J.append(assign_job(w, w, op, ty))
        for op in range(7):
            J.append(conv_job(w, op))
    J.append(un_job(SYM + 3, 4, 0, I))
    J.append(pred_job(SYM + 3, 14, I))
    J += forwarded_div(tier)
    return J


def forwarded_div(tier):
    J = []
    for ty in (I, U):
        for form in (0, 1):
            for op in (6, 7):
                J.append(div_job(SYM + 1, 0, op, form, ty, cost=5))
    return J


def c26(tier):
    J = []
    ns = tiers(tier, (1, 2, 3, 4), (1, 2, 3, 4, 5, 6))
    for w in ns:
        for ty in (A, I, U):
            for form in (2, 3):
                for op in (0, 1, 3, 4, 5):
                    J.append(bin_job(w, 0, op, form, ty, cost=w - SYM))
                if ty != A:
                    J.append(shift_job(w, 0, form, ty))
                    J.append(shift_job(w, 3, form, ty))
                elif True:
                    J.append(shift_job(w, 0, form, ty))
            for op in (0, 1):
                J.append(un_job(w, op, 2, ty))
    for ty in (A, I, U):
        for form in (2, 3):
            J.append(bin_job(SYM + 1, 0, 2, form, ty))
            J.append(bin_job(SYM + 2, 0, 2, form, ty, cost=9))
            if ty != A:
                for op in (6, 7):
                    J.append(div_job(SYM + 1, 0, op, form, ty, cost=9))
    for w, v in pairs(tier, (1, 2), (1, 2, 3)):
        for ty in (A, I, U):
            for form in (2, 3):
                for op in range(8):
                    if op >= 6:
                        if ty == A or w == v:
                            continue
                        J.append(div_job(w, v, op, form, ty, value=False))
                    else:
                        J.append(bin_job(w, v, op, form, ty, check="mismatch"))
    return J


def seqs(tier):
    J = []
    import itertools
    if tier == "quick":
        trip = [(0, 2, 8), (2, 0, 3), (4, 8, 14), (5, 6, 0), (15, 7, 9), (1, 12, 2), (13, 4, 14), (3, 14, 0), (7, 0, 15), (11, 5, 10), (6, 9, 1), (8, 10, 12), (0, 0, 0), (2, 2, 2), (4, 15, 6)]
        shapes = [(1, 2, (2, 1, 3)), (3, 1, (1, 2, 1)), (2, 3, (3, 2, 2))]
    else:
        trip = list(itertools.product((0, 1, 2, 4, 5, 6, 7, 9, 14, 15), (0, 2, 3, 8, 10, 11, 12, 13, 14, 15), (0, 2, 6, 14)))
        shapes = [(1, 2, (2, 1, 3)), (3, 1, (1, 2, 1)), (2, 3, (3, 2, 2))]
    for i, t in enumerate(trip):
        for k, s in enumerate(shapes):
            if tier != "quick" and (i + k) % 3 and False:
                continue
            J.append(seq_job(SYM + s[0], SYM + s[1], t, s[2]))
    return J


def everything(tier, contracts=False):
    """one exploration of every operation per storage class: for the properties about all operations"""
    J = []
    ns = tiers(tier, (1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 6, 7, 8))
    for k in range(11):
        J.append(from_prim_job(k, 0, A))
    for n in (2, 3, 5):
        J.append(from_array_job(n, 0))
    for w in ns:
        for op in range(8):
            J.append(const_job(w, op, A))
        J.append(const_job(w, 1, I))
        for form in (0, 1):
            for op in (0, 1, 3, 4, 5):
                J.append(bin_job(w, 0, op, form, A, cost=3))
            for op in (0, 1, 2, 3):
                J.append(un_job(w, op, form, A))
            for op in (0, 1, 2):
                J.append(shift_job(w, op, form, A, cost=3))
        for op in (5, 6, 7, 8, 9, 10):
            J.append(un_job(w, op, 0, A))
        J.append(un_job(w, 4, 0, I))
        J.append(un_job(w, 4, 1, I))
        for op in range(4):
            J.append(bit_job(w, op, A))
        for op in (0, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13):
            J.append(pred_job(w, op, A))
        for op in (0, 1):
            J.append(rand_job(w, op, A))
        for k in (0, 1, 2, 7, 8, 9, 10):
            J.append(prim_job(w, k, 1, A))
        for op in range(4):
            J.append(conv_job(w, op))
        J.append(DA.serde_job(w, 0))
        J.append(DA.serde_job(w, 1))
    for w in ns:
        for t in ns:
            for form in (0, 1):
                for op in range(5):
                    J.append(cast_job(w, t, op, form, A))
            for op in (0, 1, 2):
                J.append(assign_job(w, t, op, A))
            for op in (0, 1, 2, 3):
                for form in (0, 1):
                    J.append(bin_job(w, t, op, form, A, check="mismatch") if w != t else bin_job(w, 0, op, form, A, cost=4))
            J.append(eq_job(w, t, A))
            if w != t:
                for op in (6, 7, 8, 9):
                    for form in (0, 1):
                        J.append(div_job(w, t, op, form, A, value=False))
                for op in range(4):
                    J.append(divrem_job(w, t, op, value=False))
    for w in words(1, 2) + (tiers(tier, (3, 5), (3, 4, 5, 6)) if contracts else []):
        for op in (6, 7, 8, 9):
            c = contracts and (w > SYM + 2 or (op >= 8 and w == SYM + 2))
            if c and op >= 8 and w > SYM + 2:
                continue
            for form in (0, 1):
                J.append(div_job(w, 0, op, form, A, value=False, cost=8, contracts=c))
        for op in range(4):
            c = contracts and (w > SYM + 2 or (op >= 2 and w == SYM + 2))
            if c and op >= 2 and w > SYM + 2:
                continue
            J.append(divrem_job(w, 0, op, value=False, cost=8, contracts=c))
    # many words: only what does not fork per word
    for n in (17, 66, 130):
        w = SYM + n
        for op in range(8):
            J.append(const_job(w, op, A))
        for op in (3, 4, 5):
            J.append(bin_job(w, 0, op, 0, A))
        for op in (1, 5, 6, 7, 8, 9, 10):
            J.append(un_job(w, op, 0, A))
        for op in (0, 1, 2):
            J.append(assign_job(w, w, op, A))
            J.append(assign_job(w, SYM + 2, op, A))
            J.append(assign_job(SYM + 2, w, op, A))
        for op in range(5):
            J.append(cast_job(w, SYM + n - 1, op, 0, A))
            J.append(cast_job(SYM + n - 1, w, op, 0, A))
            J.append(cast_job(w, SYM + 1, op, 0, A))
            J.append(cast_job(SYM + 1, w, op, 0, A))
        J.append(rand_job(w, 0, A))
    J += TX.parse_any_jobs("quick")[:12]
    J += DA.malformed_jobs("quick")
    J += seqs(tier)
    return J


def c02(tier):
    return [as_canonical(j) for j in everything(tier, True)]


def c27(tier):
    return [as_memory(j) for j in everything(tier)]


def c04(tier):
    J = []
    for w in tiers(tier, (1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)):
        for form in (0, 1):
            J.append(bin_job(w, 0, 2, form, A, cost=10 * (w - SYM), timeout=120.0))
    return J


def c05(tier):
    J = []
    # short operands: the code as it is
    for w in words(1, 2):
        for op in (6, 7):
            for form in (0, 1):
                J.append(div_job(w, 0, op, form, A, cost=20))
        for op in (0, 1):
            J.append(divrem_job(w, 0, op, cost=20))
    # the entry points around the long division, which is taken by its contract
    for w in tiers(tier, (3, 4, 5, 6), (3, 4, 5, 6, 8, 9)):
        for op in (6, 7):
            for form in (0, 1):
                J.append(div_job(w, 0, op, form, A, contracts=True))
        for op in (0, 1):
            J.append(divrem_job(w, 0, op, contracts=True))
    J += long_jobs(tier)
    return J


# seeds of window
WINDOWS = (
    10, 19, 38, 53, 56, 69, 72, 76, 86, 88, 104, 112, 125, 128, 140, 145, 147, 149, 154, 155, 158, 162, 165, 167, 169, 181, 184, 185, 190, 210, 223,
    225, 239, 242, 245, 249, 261, 281, 284, 308, 313, 331, 333, 336, 354, 358, 368, 373, 384, 385, 386, 392, 402, 417, 423, 431, 439, 454, 457, 464,
    472, 485, 491, 492, 503, 505, 506, 510, 514, 520, 524, 525, 530, 539, 546, 548, 552, 557, 560, 562, 567, 568, 570, 572, 579, 581, 583, 586, 597,
    598, 602, 605, 607, 612, 614, 616, 652, 666, 667, 677, 679, 689, 699, 705, 712, 724, 730, 736, 741, 751, 762, 769, 777, 784, 785, 786, 790)
WINDOWS_SLOW = (
    3, 37, 51, 60, 67, 78, 92, 117, 137, 152, 200, 236, 260, 270, 274, 303, 348, 352, 380, 393, 425, 475, 535, 559, 622, 642, 671, 683, 691, 696)

# seeds of quotient_window; together they reach every alignment of the partial quotients, both kinds of step, every ending of the
# loop and carries of every length through the quotient, at 4 to 9 words
QUOTIENTS = (
    4, 14, 24, 35, 45, 77, 93, 111, 135, 156, 164, 179, 182, 204, 222, 260, 262, 305, 315, 328, 355, 389, 415, 431, 473, 492, 494, 496, 512,
    524, 550, 568, 582, 611, 636, 657, 688, 725, 737, 766, 784, 795, 801, 805, 813, 825, 848, 890, 908, 937, 958, 965, 978, 997, 999, 1060,
    1092, 1159, 1228, 1267, 1289, 1342, 1375, 1384, 1424, 1432, 1482, 1488, 1516, 1545, 1558, 1581, 1587, 1664, 1690, 1730, 1740, 1755,
    1822, 1865, 1867, 1896, 1904, 1939, 1971, 1982, 2007, 2010, 2040, 2073, 2081, 2089, 2112, 2116, 2119, 2189, 2354, 2356, 2360, 2371,
    2374, 2391, 2425, 2483, 2487, 2521, 2536, 2552, 2577, 2645, 2650, 2780, 2820, 2850, 2858, 2947, 2953, 3036, 3083, 3179, 3181, 3223,
    3277, 3283, 3295, 3308, 3314, 3370, 3385, 3387, 3424, 3436, 3454, 3537, 3538, 3542, 3576, 3670, 3680, 3681, 3705, 3713, 3749, 3811,
    3877, 3944, 4007, 4075, 4087, 4140, 4179, 4186, 4196, 4205, 4306, 4496, 4515, 4582, 4643, 4691, 4777, 4795, 4959, 5023, 5065, 5101,
    5102, 5250, 5274, 5346, 5487, 5636, 5759, 5901, 5977, 6001, 6078, 6135, 6158, 6224, 6253, 6271, 6295, 6387, 6519, 6530, 6616, 6774,
    6776, 6801, 6813, 6830, 6872, 6873, 6893, 6984, 7070, 7095, 7112, 7131, 7175, 7193, 7249, 7289, 7307, 7353, 7398, 7501, 7515, 7603,
    7605, 7609, 7632, 7676, 7693, 7813, 7816, 7916, 8117, 8208, 8215, 8264, 8284, 8424, 8448, 8456, 8511, 8517, 8518, 8588, 8736, 8868,
    8942, 9005, 9017, 9073, 9115, 9166, 9172, 9277, 9302, 9338, 9370, 9378, 9419, 9501, 9510, 9580, 9839, 10101, 10197, 10484, 10536, 10660,
    10733, 11030, 11060, 11531, 11558, 11671, 11756, 11920)

# (words, top word and leading zeros of the dividend, the same of the divisor)
SHAPES = ((3, 2, 0, 2, 0), (3, 2, 0, 2, 5), (3, 2, 3, 2, 20), (3, 2, 9, 1, 7), (3, 2, 5, 2, 5), (4, 3, 0, 3, 0), (4, 2, 3, 2, 20), (4, 2, 63, 1, 2),
          (3, 2, 62, 1, 30), (5, 3, 4, 3, 4), (5, 3, 4, 3, 5), (3, 2, 20, 2, 60), (4, 3, 0, 3, 63), (5, 2, 40, 1, 33),
          (5, 4, 4, 4, 4), (6, 5, 0, 5, 0), (7, 6, 3, 6, 3), (8, 7, 9, 7, 9), (5, 4, 0, 4, 5), (6, 4, 3, 4, 20), (5, 4, 63, 3, 2))
SHAPES_SLOW = ((4, 3, 5, 3, 30), (5, 4, 1, 4, 40), (9, 8, 1, 8, 1), (17, 16, 5, 16, 5), (6, 5, 3, 5, 20), (7, 6, 0, 6, 1), (8, 7, 0, 7, 8),
               (9, 8, 0, 8, 8), (5, 4, 9, 3, 7), (6, 5, 40, 4, 33), (3, 2, 63, 1, 63), (4, 3, 9, 2, 7), (3, 2, 0, 1, 0), (3, 2, 9, 1, 40),
               (3, 2, 30, 1, 40), (6, 5, 10, 4, 5))


def long_jobs(tier):
    """the long division itself"""
    J = []
    quick = tier == "quick"
    for s in SHAPES + (() if quick else SHAPES_SLOW):
        J.append(long_job(*s, cost=2000, limit=300 if quick else 1500))
    M = (1 << 64) - 1
    J.append(by_const_job(3, 2, 3, [1, 1 << 40], cost=2000, limit=300))
    J.append(by_const_job(3, 2, 7, [M, M, 1 << 30], cost=3000, limit=300))
    if not quick:
        J.append(by_const_job(3, 2, 0, [0, 1 << 63], cost=3000, limit=900))
        J.append(by_const_job(4, 3, 0, [0, 0, 1 << 63], cost=3000, limit=900))
    for n in (3, 4, 5, 6, 8, 9) if quick else (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17):
        for lb in range(64) if n <= 4 or not quick else (0, 1, 7, 31, 32, 33, 47, 62, 63):
            J.append(small_job(n, lb, cost=n))
        J.append(small_job(n, 5, 1, cost=n))
    for s in WINDOWS + (() if quick else WINDOWS_SLOW):
        J.append(window(s, cost=500, limit=200))
    for s in QUOTIENTS:
        J.append(quotient_window(s, cost=5, limit=200))
        if not quick:
            J.append(quotient_window(s, 1, 60, cost=600, limit=300))
    for s in () if quick else range(1500):
        if s not in QUOTIENTS:
            J.append(quotient_window(s, cost=5, limit=200))
    return J


def c06(tier):
    J = []
    for ty in (A, I):
        for op in ((8, 9) if ty == A else (6, 7)):
            for form in (0, 1):
                J.append(div_job(SYM + 1, 0, op, form, ty))
    for op in (2, 3):
        J.append(divrem_job(SYM + 1, 0, op))
    for w in (65, 100, 128) if tier == "quick" else (65, 66, 96, 100, 127, 128, 129, 160, 192):
        for op in (8, 9):
            for form in (0, 1):
                J.append(div_job(w, 0, op, form, A, contracts=True, cost=w, limit=400))
        for op in (2, 3):
            J.append(divrem_job(w, 0, op, contracts=True, cost=2 * w, limit=400))
        for op in (6, 7):
            J.append(div_job(w, 0, op, 0, I, contracts=True, cost=w, limit=400))
    for w in (SYM + 2, 192) if tier == "quick" else (SYM + 2, SYM + 3, 256, 257, 320):
        for op in (8, 9):
            J.append(div_job(w, 0, op, 0, A, contracts=True, cost=400, limit=400 if tier == "quick" else 3000))
    for op in (2, 3) if tier != "quick" else ():
        J.append(divrem_job(SYM + 2, 0, op, contracts=True, cost=500, limit=3000))
    return J


def differ_jobs(tier, wrappers=True):
    """divisions of operands whose widths may differ"""
    J = []
    for w, t in pairs(tier, (1, 2, 3, 5), (1, 2, 3, 4, 5, 6)):
        # signed division of equal widths forks over many words: there, only widths that do differ
        fixes = [{}] if w != t or w <= SYM + 1 else [{"w": (0, 5), "v": (1, 5)}, {"w": (1, 5), "v": (0, 5)}]
        for op in (6, 7, 8, 9):
            for f in fixes if op >= 8 else [{}]:
                for form in (0, 1):
                    J.append(div_job(w, t, op, form, A, value=False, contracts=True, fix=f))
        for op in range(4):
            for f in fixes if op >= 2 else [{}]:
                J.append(divrem_job(w, t, op, value=False, contracts=True, fix=f))
        if wrappers:
            for ty in (I, U):
                for op in (6, 7):
                    for f in fixes if ty == I else [{}]:
                        for form in (0, 1):
                            J.append(div_job(w, t, op, form, ty, value=False, contracts=True, fix=f))
    return J


def zero(n):
    return {"b%d" % i: (0, 0) for i in range(n)}


def c07(tier):
    J = []
    div = (6, 7, 8, 9)
    J += differ_jobs(tier)
    # by zero, through the long division itself
    for n in (1, 2, 3, 4, 5, 6, 8, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33):
        w = SYM + n
        for op in div:
            for form in (0, 1):
                J.append(div_job(w, 0, op, form, A, fix=zero(n)))
        for op in range(4):
            J.append(divrem_job(w, 0, op, fix=zero(n)))
        for ty in (I, U):
            for op in (6, 7):
                for form in (0, 1, 2, 3):
                    J.append(div_job(w, 0, op, form, ty, fix=zero(n)))
        # zero divided by anything
        nul = {"a%d" % i: (0, 0) for i in range(n)}
        for op in (6, 7):
            J.append(div_job(w, 0, op, 0, A, fix=nul))
        J.append(divrem_job(w, 0, 0, fix=nul))
    return J


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20,
         "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": TX.c28, "C29": TX.c29, "C30": TX.c30,
         "C31": DA.c31, "C32": DA.c32, "C33": c33, "C34": c34}
