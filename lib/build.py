"""Builds the executor, the harness's LLVM IR (from /repo's current tree) and
the native replayers.  Everything goes under /verif/build."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
# generic instances shared by std's own dependencies live in their crates
STD = ("gimli", "addr2line", "rustc_demangle", "miniz_oxide", "hashbrown", "alloc", "core")
TRIPLE = "x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    kw.setdefault("env", env())
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout[-4000:] + "\n" + p.stderr[-8000:] + "\n")
        raise RuntimeError("failed: " + " ".join(cmd[:3]))
    return p.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"]).strip()
    return _sysroot


def llvm(tool):
    return os.path.join(sysroot(), "lib/rustlib", TRIPLE, "bin", tool)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def engine():
    run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "engine")],
        cwd=os.path.join(VERIF, "engine"))
    return os.path.join(BUILD, "engine/release/symex")


def std_bitcode():
    """LLVM bitcode of the standard library crates, from the installed rlibs."""
    out = os.path.join(BUILD, "std")
    os.makedirs(out, exist_ok=True)
    stamp = os.path.join(out, "stamp-" + hashlib.sha1(run(["rustc", "-vV"]).encode()).hexdigest()[:12])
    if os.path.exists(stamp):
        return sorted(glob.glob(os.path.join(out, "*.bc")))
    lib = os.path.join(sysroot(), "lib/rustlib", TRIPLE, "lib")
    for crate in STD:
        rl = glob.glob(os.path.join(lib, f"lib{crate}-*.rlib"))[0]
        d = os.path.join(out, "x-" + crate)
        os.makedirs(d, exist_ok=True)
        run([llvm("llvm-ar"), "x", rl], cwd=d)
        for i, o in enumerate(sorted(glob.glob(os.path.join(d, "*.o")))):
            bc = os.path.join(out, f"{crate}.{i}.bc")
            p = subprocess.run([llvm("llvm-objcopy"), "--dump-section", f".llvmbc={bc}", o, os.path.join(d, "scratch.o")],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode != 0 and os.path.exists(bc):
                os.remove(bc)
            os.remove(o)
            if os.path.exists(bc):
                run([llvm("opt"), "--strip-debug", bc, "-o", bc])
    open(stamp, "w").close()
    return sorted(glob.glob(os.path.join(out, "*.bc")))


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness/src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness/Cargo.toml"),
             os.path.join(VERIF, "harness/Cargo.lock"), os.path.abspath(__file__)]
    for r in roots:
        for d, _, fs in sorted(os.walk(r)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    h.update(run(["rustc", "-vV"]).encode())
    return h.hexdigest()[:16]


def ir():
    """harness + /repo + dependencies + needed std functions as one module"""
    key = tree_hash()
    out = os.path.join(BUILD, "ir", key + ".ll")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    e = env()
    e["RUSTFLAGS"] = "--emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp"
    e["CARGO_TERM_COLOR"] = "never"
    js = run(["cargo", "build", "--offline", "--lib", "--target", TRIPLE, "--message-format=json",
              "--target-dir", os.path.join(BUILD, "irbuild")], cwd=os.path.join(VERIF, "harness"), env=e)
    bcs = []
    for l in js.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact" or "proc-macro" in m["target"]["kind"]:
            continue
        for f in m["filenames"]:
            if f"/{TRIPLE}/" in f and f.endswith(".rlib"):
                d, b = os.path.split(f)
                if not d.endswith("/deps"):
                    d = os.path.join(d, "deps")
                # final artifacts are uplifted without their hash
                stem = b[3:-5]
                c = os.path.join(d, stem + ".bc")
                if not os.path.exists(c):
                    c = sorted(glob.glob(os.path.join(d, stem + "-*.bc")), key=os.path.getmtime)[-1]
                bcs.append(c)
    tmp = os.path.join(BUILD, "ir", f"tmp{os.getpid()}")
    run([llvm("llvm-link"), *bcs, "-o", tmp + ".1.bc"])
    std = std_bitcode()
    # alloc needs core, so core goes last; panics end a path, so std stays out
    order = [b for c in STD for b in std if os.path.basename(b).startswith(c)]
    run([llvm("llvm-link"), "--only-needed", tmp + ".1.bc", *order, "-o", tmp + ".2.bc"])
    names = [l for l in open(os.path.join(VERIF, "harness/src/lib.rs")) if "=>" in l and l.strip().startswith("h_")]
    api = ",".join(l.strip().split()[0] for l in names)
    run([llvm("opt"), "-S", "-passes=internalize,globaldce", "-internalize-public-api-list=" + api,
         tmp + ".2.bc", "-o", tmp + ".ll"])
    os.rename(tmp + ".ll", out)
    for s in (".1.bc", ".2.bc"):
        os.remove(tmp + s)
    for f in glob.glob(os.path.join(BUILD, "ir", "*.ll")):
        if f != out:
            os.remove(f)
    return out


def replayer(prof):
    """native harness: dev (assertions, overflow checks) or release"""
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--target-dir", os.path.join(BUILD, "replay-" + prof)]
    if prof == "release":
        cmd.append("--release")
    run(cmd, cwd=os.path.join(VERIF, "harness"))
    return os.path.join(BUILD, "replay-" + prof, "debug" if prof == "dev" else "release", "replay")


def everything():
    """executor, IR and the dev replayer, in parallel: {name: path}"""
    import threading
    res, errs = {}, []

    def go(name, f):
        try:
            res[name] = f()
        except Exception as e:
            errs.append(f"{name}: {e}")

    with Lock():
        ts = [threading.Thread(target=go, args=x) for x in (("engine", engine), ("ir", ir), ("dev", lambda: replayer("dev")))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if errs:
        raise RuntimeError("; ".join(errs))
    return res


if __name__ == "__main__":
    t0 = time.time()
    print(everything(), round(time.time() - t0, 1))
