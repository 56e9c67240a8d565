"""check <property> [quick|thorough] | check replay <file> | check all [quick|thorough]"""
import json
import os
import sys
import time
from . import build, runner
from .engine import Program, demangle
from .spec import SYM

HERE = build.HERE
QUICK_LIMIT = 600
THOROUGH_LIMIT = 4 * 3600

ASSUME = [
    "LLVM IR of the crate (opt-level 2, no vectorisation, overflow checks and debug assertions on; thorough also off) represents the source; the same spec is also run on natively built code for the validated paths and for every counterexample",
    "panic=abort in the encoding: clean-up code that runs while unwinding is not encoded",
    "the allocator never fails",
    "text inside error annotations and panic messages is not encoded (format machinery is stubbed except where the property is about formatting)",
    "the 64-bit little-endian target of this sandbox",
]


def evidence(pid, tier, jobs, res, wall, status, extra):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ok = [r for r in res if r is not None]
    funcs = {}
    ends = {}
    by = {}
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, decided_by_simplifier=0)
    for r in ok:
        for f, n in r.funcs.items():
            funcs[f] = funcs.get(f, 0) + n
        for k, n in r.endings.items():
            ends[k] = ends.get(k, 0) + n
        for k in tot:
            tot[k] += r.stats.get(k, 0)
        for k, (n, s) in r.stats.get("by", {}).items():
            e = by.setdefault(k, [0, 0.0])
            e[0] += n
            e[1] = round(e[1] + s, 3)
    tot["solver_s"] = round(tot["solver_s"], 2)
    names = sorted(set(demangle(f) for f in funcs))
    repo = [f for f in names if "apint::" in f]
    samples = []
    for r in sorted(ok, key=lambda r: -r.paths)[:3]:
        samples.append(dict(exploration=r.name, driver=r.fn, parameters=r.args, paths=r.paths, endings=r.endings,
                            obligations=r.obligations, wall_s=round(r.wall, 2)))
    for r in ok:
        if r.sample:
            samples.append(r.sample)
            if len(samples) >= 6:
                break
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=sum(r.paths for r in ok), transitions=sum(r.steps for r in ok),
            traces_validated_against_impl=sum(r.validated for r in ok), samples=samples,
            rule="states = symbolic paths explored to their end, transitions = IR instructions executed symbolically",
            explorations=len(jobs), explorations_decided=sum(1 for r in ok if r.status == "ok"),
            obligations=sum(r.obligations for r in ok), obligations_closed_by_simplification=sum(r.trivial for r in ok),
            endings=ends, queries=tot, queries_by_method=by,
            functions_encoded=repo, other_functions_encoded=len(names) - len(repo),
            bounds=bounds(jobs), undecided=[dict(exploration=j.name, why=("; ".join(r.notes)[:400] if r else "not reached"))
                                            for j, r in zip(jobs, res) if (r is None or r.status != "ok")][:50],
            **extra),
        assumptions=ASSUME, wall_s=round(wall, 2), violations=sum(1 for r in ok if r.status == "violation"))
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, pid + ".json"))


def bounds(jobs):
    """per driver: the parameters explored"""
    b = {}
    for j in jobs:
        e = b.setdefault(j.fn, dict(explorations=0, words=set(), widths=set()))
        e["explorations"] += 1
        for a in j.args[:2]:
            if a >= SYM:
                e["words"].add(a - SYM)
    return {k: dict(explorations=v["explorations"], every_width_of_these_word_counts=sorted(v["words"])) for k, v in b.items()}


def known():
    p = os.path.join(HERE, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                r.append(l[len("finding: "):])
    return r


def save_replay(pid, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, os.getpid()))
    v = dict(v)
    v["property"] = pid
    v["how"] = "cd /verif && ./check replay %s   # rebuilds /repo natively, runs this input, applies the specification" % p
    with open(p, "w") as f:
        json.dump(v, f, indent=1, default=str)
    return p


def judge(pid, tier, jobs, res, t0, extra):
    bad = [r for r in res if r is not None and r.status == "violation"]
    und = [(j, r) for j, r in zip(jobs, res) if r is None or r.status == "unknown"]
    if bad:
        und = [(j, r) for j, r in und if r is not None]
    code = 0
    if bad:
        v = bad[0].violation
        p = save_replay(pid, v)
        print("%s: %s" % (pid, v["job"]))
        print("  inputs: %s" % {k: hex(x) for k, x in v["inputs"].items()})
        print("  native run (%s) ends: %s %s; failed: %s" % (v["profile"], v["native"]["ending"], v["native"]["detail"], "; ".join(v["failed"])[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        code = 1
    for j, r in und[:20]:
        print("UNDECIDED %s: %s: %s" % (pid, j.name, "; ".join(r.notes)[:600] if r else "not reached before the time limit"))
    if code == 0 and len(und) * 2 > len(jobs):
        code = 2
    status = {0: "held", 1: "violated", 2: "no answer"}[code]
    evidence(pid, tier, jobs, res, time.time() - t0, status, extra)
    ok = [r for r in res if r is not None]
    print("%s %s: %s; %d explorations (%d undecided), %d paths, %d obligations, %d queries, solver %.1fs, %d runs compared natively, %.1fs" % (
        pid, tier, status, len(jobs), len(und), sum(r.paths for r in ok), sum(r.obligations for r in ok),
        sum(r.stats["queries"] for r in ok), sum(r.stats["solver_s"] for r in ok), sum(r.validated for r in ok), time.time() - t0))
    return code


def prepare(tier, native):
    native.start("dev")
    t = time.time()
    ll = build.ir()
    prog = Program(ll + build.std_ir())
    return prog, dict(ir_build_s=round(time.time() - t, 2))


def one(pid, tier, prog=None, native=None, verbose=False):
    from specs.props import PROPS
    if pid not in PROPS:
        print("no such property: %s" % pid)
        return 2
    t0 = time.time()
    own = native is None
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
    extra = {}
    try:
        if own:
            native = build.Native()
            prog, extra = prepare(tier, native)
        jobs = PROPS[pid](tier)
        res = runner.run_all(prog, native, jobs, t0 + limit, verbose=verbose)
        if tier == "thorough" and not any(r is not None and r.status == "violation" for r in res):
            # the same explorations on the code as it is compiled without run-time checks
            prog2 = Program(build.ir(checked=False) + build.std_ir())
            native.start("release")
            jobs2 = PROPS[pid]("quick")
            for j in jobs2:
                j.name += " (no run-time checks)"
                j.opts["profile"] = "release"
            res2 = runner.run_all(prog2, native, jobs2, t0 + limit, verbose=verbose)
            jobs, res = jobs + jobs2, res + res2
        return judge(pid, tier, jobs, res, t0, extra)
    except build.BuildError as e:
        print("cannot build: %s" % e)
        evidence(pid, tier, [], [], time.time() - t0, "no answer", dict(explanation="build failed: %s" % str(e)[-500:]))
        return 2
    finally:
        if own:
            native.stop()


def all_(tier, ids, verbose):
    from specs.props import PROPS
    native = build.Native()
    prog, _ = prepare(tier, native)
    worst = 0
    try:
        for pid in ids or sorted(PROPS):
            c = one(pid, tier, prog, native, verbose)
            worst = max(worst, c)
    finally:
        native.stop()
    return worst


def replay(path):
    from specs.props import PROPS
    v = json.load(open(path))
    pid = v["property"]
    native = build.Native()
    for tier in ("quick", "thorough"):
        for j in PROPS[pid](tier):
            if j.fn == v["fn"] and j.args == v["args"]:
                native.start("dev")
                native.start("release")
                c = runner.Confirm(native, j).confirm({k: int(x) for k, x in v["inputs"].items()}, "memory")
                native.stop()
                if c is None:
                    print("replay: the property holds on this input")
                    return 0
                print("replay (%s build): ends %s %s" % (c[0], c[1][0], c[1][1]))
                for k, x in c[1][2]:
                    print("  %s = %#x" % (k, x))
                print("  failed: %s" % "; ".join(c[2]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
    print("replay: no such exploration")
    return 2


def main(a):
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if a[-1] in ("quick", "thorough"):
        tier = a[-1]
        a = a[:-1]
    if a[0] == "all":
        return all_(tier, a[1:], verbose)
    return one(a[0], tier, verbose=verbose)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
