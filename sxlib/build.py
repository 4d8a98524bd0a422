"""Builds the engine and, from /repo's working tree, the harness: LLVM IR for
the engine and a native binary for replays."""
import fcntl, glob, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:" + e["HOME"] + "/.cargo/bin"
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, cwd=None, extra=None, what=""):
    e = env()
    if extra:
        e.update(extra)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        i = r.stdout.find("error")
        sys.stderr.write(r.stdout[max(i, 0):][:2500])
        sys.stderr.write("\nBUILD FAILED: %s\n" % (what or " ".join(cmd)))
        sys.exit(2)
    return r.stdout


def engine():
    out = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline", "--target-dir", out], cwd=os.path.join(VERIF, "engine"), what="engine")
    return os.path.join(out, "release", "sx")


def harness():
    """returns (list of IR files, native binary)"""
    src = os.path.join(VERIF, "harness")
    out = os.path.join(BUILD, "harness")
    os.makedirs(out, exist_ok=True)
    # a copy, so that the dependency can point at the tree under test
    crate = os.path.join(out, "crate")
    shutil.rmtree(crate, ignore_errors=True)
    shutil.copytree(src, crate, ignore=shutil.ignore_patterns("target"))
    toml = os.path.join(crate, "Cargo.toml")
    text = open(toml).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(toml, "w").write(text)
    os.utime(os.path.join(crate, "src", "main.rs"))
    objs, irs = [], []
    o = os.path.join(out, "sx.o")
    run(["clang", "-O1", "-c", os.path.join(src, "sx.c"), "-o", o], what="sx.c")
    objs.append(o)
    cxx = sorted(glob.glob(os.path.join(REPO, "src", "cxx", "*.cpp"))) + sorted(glob.glob(os.path.join(src, "cxx", "*.cpp")))
    for c in cxx:
        base = os.path.join(out, os.path.basename(c)[:-4])
        run(["clang++", "-std=gnu++14", "-O1", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-D_IN_ADV",
             "-I" + os.path.join(REPO, "include"), "-I" + src, "-S", "-emit-llvm", c, "-o", base + ".ll"], what=c)
        run(["clang++", "-c", "-O1", base + ".ll", "-o", base + ".o"], what=c)
        objs.append(base + ".o")
        irs.append(base + ".ll")
    lib = os.path.join(out, "libsxrt.a")
    if os.path.exists(lib):
        os.remove(lib)
    run(["ar", "rcs", lib] + objs)
    target = os.path.join(out, "target")
    for f in glob.glob(os.path.join(target, "sx", "deps", "harness-*.ll")):
        os.remove(f)
    args = ["cargo", "rustc", "--offline", "--profile", "sx", "--target-dir", target, "--", "--emit=llvm-ir,link",
            "-L", out, "-l", "static=sxrt", "-l", "dylib=stdc++"]
    run(args, cwd=crate, what="harness against " + REPO)
    lls = glob.glob(os.path.join(target, "sx", "deps", "harness-*.ll"))
    if len(lls) != 1:
        sys.stderr.write("BUILD FAILED: no IR\n")
        sys.exit(2)
    return [lls[0]] + irs, os.path.join(target, "sx", "harness")


def all():
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(engine), ex.submit(harness)
            sx = a.result()
            irs, native = b.result()
    return sx, irs, native, time.time() - t


if __name__ == "__main__":
    print(all())
