"""Runs jobs: explore, discharge obligations, replay counterexamples natively."""
import json
import multiprocessing
import os
import random
import sys
import time
import traceback
from . import build, terms as T
from .engine import Engine, Program, Unsupported, Limit, UNDEF, demangle
from .solver import Solver, Unknown
from .spec import X, unshape, confine

HERE = build.HERE


class Result(object):
    def __init__(self, job):
        self.name = job.name
        self.fn = job.fn
        self.args = job.args
        self.status = "ok"       # ok | violation | unknown
        self.notes = []
        self.paths = 0
        self.endings = {}
        self.obligations = 0
        self.trivial = 0
        self.validated = 0
        self.steps = 0
        self.open_paths = 0
        self.wall = 0.0
        self.stats = {}
        self.funcs = {}
        self.violation = None
        self.sample = None


class Confirm(object):
    """native confirmation of a counterexample"""

    def __init__(self, native, job):
        self.native = native
        self.job = job

    def run(self, prof, inputs, plain=False, pre=()):
        path = self.native.path(prof)
        return build.native_run(path, self.job.fn, self.job.args, inputs, pre=pre, plain=plain)

    def judge(self, res, inputs, leaks=False):
        """list of failed obligations of a native run"""
        kind, detail, outs, mem = res
        if kind == "assume":
            return None
        x = X(kind, detail, outs, env=inputs, events=["leak"] if mem and mem[1] else [])
        bad = []
        if mem and mem[0]:
            bad.append("memory: the checking allocator reports %#x" % mem[0])
        for label, c in self.job.obligations(x):
            if type(c) is not int:
                raise AssertionError("obligation %s is not concrete in a replay" % label)
            if not c:
                bad.append(label)
        return bad

    def confirm(self, inputs, kind):
        for prof in ("dev", "release"):
            res = self.run(prof, inputs)
            bad = self.judge(res, inputs)
            if bad:
                return prof, res, bad
        if kind in ("memory", "ub"):
            # reads outside of a block, uninitialised data: ask valgrind
            for prof in ("dev", "release"):
                res = self.run(prof, inputs, plain=True, pre=("valgrind", "-q", "--error-exitcode=99"))
                path = self.native.path(prof)
                import subprocess
                e = dict(os.environ)
                e["VERIF_PLAIN"] = "1"
                data = "".join("%s %x\n" % kv for kv in inputs.items())
                r = subprocess.run(["valgrind", "-q", "--error-exitcode=99", path, self.job.fn] + [str(a) for a in self.job.args],
                                   input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e)
                if r.returncode == 99:
                    return prof + "+valgrind", res, ["memory: " + " ".join(r.stderr.split())[:300]]
        return None


def run_job(prog, native, job, deadline, validate=2):
    T.reset()
    t0 = time.time()
    r = Result(job)
    solver = Solver(timeout=job.opts.get("timeout", 60.0))
    solver.hard_timeout = job.opts.get("hard_timeout", 0.5)
    solver.deadline = deadline
    solver.lazy = job.opts.get("lazy", False)
    eng = Engine(prog, solver, deadline=deadline, max_paths=job.opts.get("max_paths", 20000),
                 real_fmt=job.opts.get("real_fmt", False))
    eng.contracts = job.opts.get("contracts", False)
    fix = eng.fix = job.opts.get("fix", {})
    eng.split_shifts = job.opts.get("split_shifts", False)
    conf = Confirm(native, job)
    rnd = random.Random(1)
    try:
        for o in eng.explore(job.fn, job.args):
            st = o.state
            if any(k == "na" for k, _ in st.outs):
                raise Unsupported("job %s: no such operation" % job.name)
            r.paths += 1
            r.endings[o.kind] = r.endings.get(o.kind, 0) + 1
            x = X(o.kind, o.detail, st.outs, events=st.events, fix=fix)
            obs = job.obligations(x)
            r.obligations += len(obs)
            fail = None
            todo = []
            for label, c in obs:
                if type(c) is int:
                    if c:
                        r.trivial += 1
                        continue
                todo.append((label, c))
            if todo:
                try:
                    env = solver.prove(st.pc, [c for _, c in todo], st.model)
                    if env is not None:
                        fail = env
                except Unknown as e:
                    # keep looking at the other paths
                    r.status = "unknown"
                    r.open_paths += 1
                    if len(r.notes) < 3:
                        r.notes.append("Unknown: %s" % e)
            if fail is not None:
                inputs = {k: unshape(fix, k, fail.get(k, 0) & ((1 << b) - 1)) for k, b in st.inputs.items()}
                c = conf.confirm(inputs, o.kind)
                label = "; ".join(l for l, cc in todo if not T.evaluate(cc, fail))[:300]
                if c is None:
                    r.status = "unknown"
                    r.notes.append("counterexample does not reproduce natively: %s inputs %s (%s, %s)" % (label, inputs, o.kind, o.where[:200]))
                    continue
                r.status = "violation"
                r.violation = dict(job=job.name, fn=job.fn, args=job.args, inputs=inputs, solver_says=label or o.detail,
                                   where=o.where, profile=c[0], native=dict(ending=c[1][0], detail=c[1][1], outputs=c[1][2], memory=c[1][3]),
                                   failed=c[2])
                break
            # validation of the executor: replay the path's own witness
            if validate and r.validated < validate and o.kind in ("return", "panic") and st.model is not None:
                if not any(k.startswith("undef!") for k in ()):
                    env = {}
                    for k, b in st.inputs.items():
                        env[k] = st.model.get(k, 0) & ((1 << b) - 1)
                    # try a random assignment that follows the same path
                    for _ in range(3):
                        e2 = {k: confine(fix, k, rnd.getrandbits(b)) for k, b in st.inputs.items()}
                        memo = {}
                        if all(T.evaluate(c, e2, memo) for c in st.pc):
                            env = e2
                            break
                    memo = {}
                    if all(T.evaluate(c, env, memo) for c in st.pc):
                        given = {k: unshape(fix, k, v) for k, v in env.items()}
                        res = conf.run(job.opts.get("profile", "dev"), given)
                        want = [(k, T.evaluate(v, env, memo)) for k, v in st.outs]
                        if res[0] != o.kind or (o.kind == "return" and res[2] != want):
                            has_undef = any("undef!" in v.a[0] for v in T.variables([v for _, v in st.outs] + st.pc))
                            if not has_undef:
                                r.status = "unknown"
                                r.notes.append("executor and native run differ on %s: %s %s vs %s %s %s" % (env, o.kind, want, res[0], res[2], res[1]))
                        else:
                            r.validated += 1
                            if r.sample is None:
                                r.sample = dict(exploration=job.name, replayed_input={k: hex(v) for k, v in given.items()},
                                                ending=o.kind, outputs={k: hex(v) for k, v in want[:12]})
        if r.status == "ok" and not r.paths:
            r.status = "unknown"
            r.notes.append("no path explored")
    except (Unsupported, Limit, Unknown, build.BuildError) as e:
        r.status = "unknown" if r.status == "ok" else r.status
        r.notes.append("%s: %s" % (type(e).__name__, e))
    except Exception as e:
        r.status = "unknown" if r.status == "ok" else r.status
        r.notes.append("internal error: %s" % traceback.format_exc()[-1500:])
    r.steps = eng.total_steps
    r.wall = time.time() - t0
    r.stats = solver.stats.dump()
    r.funcs = dict(eng.funcs_used)
    return r


_G = {}


def _worker(i):
    prog, native, jobs, deadline, validate = _G["x"]
    job = jobs[i]
    d = deadline
    if "limit" in job.opts:
        d = min(d, time.time() + job.opts["limit"])
    return i, run_job(prog, native, job, d, validate)


def run_all(prog, native, jobs, deadline, validate=2, procs=None, verbose=False, stop=True):
    """results in job order; stops early at the first confirmed violation"""
    procs = procs or min(8, os.cpu_count() or 1)
    _G["x"] = (prog, native, jobs, deadline, validate)
    res = [None] * len(jobs)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].opts.get("cost", 1))
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(procs)
    try:
        it = pool.imap_unordered(_worker, order)
        for _ in order:
            left = deadline + 60 - time.time()
            try:
                i, r = it.next(timeout=max(1, left))
            except multiprocessing.TimeoutError:
                break
            res[i] = r
            if verbose:
                print("%-60s %-9s paths %-5d obl %-5d q %-5d z3 %.2fs wall %.2fs %s" % (
                    r.name, r.status, r.paths, r.obligations, r.stats["queries"], r.stats["solver_s"], r.wall, "; ".join(r.notes)[:1500]), flush=True)
            if r.status == "violation" and stop:
                break
    finally:
        pool.terminate()
        pool.join()
    return res
