"""Builds the driver crate against /repo: LLVM IR for the executor, native binaries for replay."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(target, flags):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["HOME"] = "/root"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = flags
    return e


def run(cmd, e, cwd=HARNESS):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


IRFLAGS = ("--cfg apint_verif -Awarnings --emit=llvm-ir -C panic=abort -C opt-level=2 -C no-vectorize-loops -C no-vectorize-slp "
           "-C codegen-units=1 -C debuginfo=0 ")
CHECKED = "-C overflow-checks=on -C debug-assertions=on"
UNCHECKED = "-C overflow-checks=off -C debug-assertions=off"


def ir(checked=True):
    """paths of the .ll files"""
    target = os.path.join(BUILD, "ir" if checked else "ir-rel")
    for f in glob.glob(os.path.join(target, TRIPLE, "debug", "deps", "*.ll")):
        os.unlink(f)
    # cargo decides by timestamps; force the two crates under study
    e = env(target, IRFLAGS + (CHECKED if checked else UNCHECKED))
    fp = os.path.join(target, TRIPLE, "debug", ".fingerprint")
    if os.path.isdir(fp):
        shutil.rmtree(fp)
    run(["cargo", "build", "--lib", "--offline", "--target", TRIPLE], e)
    out = glob.glob(os.path.join(target, TRIPLE, "debug", "deps", "*.ll"))
    names = [os.path.basename(p) for p in out]
    if not any(n.startswith("apint-") for n in names) or not any(n.startswith("harness-") for n in names):
        raise BuildError("no IR emitted: %s" % names)
    return out


def std_ir():
    """IR of core and alloc, from the bitcode in the installed rlibs"""
    d = os.path.join(BUILD, "std")
    out = [os.path.join(d, n + ".ll") for n in ("core", "alloc")]
    if all(os.path.exists(p) for p in out):
        return out
    os.makedirs(d, exist_ok=True)
    e = env(d, "")
    root = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    lib = os.path.join(root, "lib", "rustlib", TRIPLE, "lib")
    bn = os.path.join(root, "lib", "rustlib", TRIPLE, "bin")
    for n, p in zip(("core", "alloc"), out):
        rlib = glob.glob(os.path.join(lib, "lib%s-*.rlib" % n))[0]
        w = os.path.join(d, n)
        os.makedirs(w, exist_ok=True)
        run([os.path.join(bn, "llvm-ar"), "x", rlib], e, cwd=w)
        o = [x for x in os.listdir(w) if x.endswith(".o")]
        if len(o) != 1:
            raise BuildError("unexpected contents of %s: %s" % (rlib, o))
        bc = os.path.join(w, "x.bc")
        run([os.path.join(bn, "llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, os.path.join(w, o[0]), "/dev/null"], e, cwd=w)
        run([os.path.join(bn, "llvm-dis"), bc, "-o", p + ".tmp"], e, cwd=w)
        os.rename(p + ".tmp", p)
        shutil.rmtree(w)
    return out


class Native(object):
    """native replay binaries, built in separate processes"""

    def __init__(self):
        self.started = {}

    def _status(self, prof):
        return os.path.join(BUILD, "native-%s.status" % prof)

    def start(self, prof):
        if prof in self.started:
            return
        os.makedirs(BUILD, exist_ok=True)
        try:
            os.unlink(self._status(prof))
        except OSError:
            pass
        self.started[prof] = subprocess.Popen([sys.executable, "-m", "irsym.build", prof], cwd=HERE,
                                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def stop(self):
        for p in self.started.values():
            if p.poll() is None:
                p.kill()
            p.wait()

    def path(self, prof, limit=600):
        """waits for the build; usable in forked workers once start() was called before the fork"""
        if prof not in self.started:
            # one worker builds, the others wait
            lock = open(os.path.join(BUILD, "native-%s.lock" % prof), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(self._status(prof) + ".run%d" % os.getppid()):
                build_native(prof)
                open(self._status(prof) + ".run%d" % os.getppid(), "w").close()
            lock.close()
        t = time.time()
        while not os.path.exists(self._status(prof)):
            if time.time() - t > limit:
                raise BuildError("native build takes too long")
            time.sleep(0.05)
        s = open(self._status(prof)).read()
        if s != "ok":
            raise BuildError(s)
        return os.path.join(BUILD, "native-" + prof, "release" if prof == "release" else "debug", "replay")


def build_native(prof):
    st = os.path.join(BUILD, "native-%s.status" % prof)
    try:
        target = os.path.join(BUILD, "native-" + prof)
        fp = os.path.join(target, "release" if prof == "release" else "debug", ".fingerprint")
        for d in glob.glob(os.path.join(fp, "apint-*")) + glob.glob(os.path.join(fp, "harness-*")):
            shutil.rmtree(d)
        cmd = ["cargo", "build", "--offline", "--bin", "replay"]
        if prof == "release":
            cmd.append("--release")
        run(cmd, env(target, "--cfg apint_verif -Awarnings"))
        res = "ok"
    except Exception as ex:
        res = str(ex)
    with open(st + ".tmp", "w") as f:
        f.write(res)
    os.rename(st + ".tmp", st)


def native_run(path, fn, args, inputs, timeout=60, pre=(), plain=False):
    """(ending, detail, outs, mem) of a native run"""
    data = "".join("%s %x\n" % kv for kv in inputs.items())
    try:
        e = dict(os.environ)
        if plain:
            e["VERIF_PLAIN"] = "1"
        r = subprocess.run(list(pre) + [path, fn] + [str(a) for a in args], input=data, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return "timeout", "", [], None
    outs, end, detail, mem = [], None, "", None
    for l in r.stdout.splitlines():
        if l.startswith("out "):
            _, k, v = l.split(" ")
            outs.append((k, int(v, 16)))
        elif l.startswith("mem "):
            mem = tuple(int(x) for x in l.split()[1:])
        elif l.startswith("end "):
            p = l.split(" ", 2)
            end, detail = p[1], p[2] if len(p) > 2 else ""
    if end is None:
        end, detail = "crash", "exit status %s %s" % (r.returncode, r.stderr[-300:])
    return end, detail, outs, mem


if __name__ == "__main__":
    build_native(sys.argv[1])
