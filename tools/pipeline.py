"""Builds the program under analysis: /repo's carcara plus the harness crate, compiled by the
repository's own compiler to LLVM IR, linked with the standard library's bitcode and optimised."""
import glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CARSYM_REPO", "/repo")
BUILD = os.environ.get("CARSYM_BUILD", os.path.join(VERIF, ".build"))
RUSTUP = os.path.expanduser(os.environ.get("RUSTUP_HOME", "~/.rustup"))
TC = "1.87-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
LLVM = None
STD = ["core", "alloc", "std", "hashbrown", "std_detect", "memchr", "panic_abort", "rustc_demangle"]
DEPS = ["guest", "carcara", "indexmap", "hashbrown", "equivalent", "log", "rug", "az", "gmp_mpfr_sys", "libc", "thiserror"]
FLAGS = "--emit=llvm-bc,link -C codegen-units=1 -C no-prepopulate-passes -Z inline-mir=no -Z share-generics=no --cfg carcara_sym"


def llvm(tool):
    for t in ["nightly-" + TARGET, "stable-" + TARGET]:
        p = f"{RUSTUP}/toolchains/{t}/lib/rustlib/{TARGET}/bin/{tool}"
        if os.path.exists(p):
            return p
    raise SystemExit("no " + tool)


def sh(cmd, env=None, cwd=None, timeout=900, ok=(0,)):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    if r.returncode not in ok:
        sys.stderr.write(f"command failed ({r.returncode}): {' '.join(cmd)}\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}\n")
        raise SystemExit(3)
    return r


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".py", ".eo")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build_std():
    out = f"{BUILD}/std"
    if all(os.path.exists(f"{out}/{c}.bc") for c in STD):
        return
    os.makedirs(out, exist_ok=True)
    lib = f"{RUSTUP}/toolchains/{TC}/lib/rustlib/{TARGET}/lib"
    for c in STD:
        rl = glob.glob(f"{lib}/lib{c}-*.rlib")[0]
        d = f"{out}/x_{c}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh([llvm("llvm-ar"), "x", rl], cwd=d)
        bcs = []
        for i, o in enumerate(sorted(glob.glob(f"{d}/*.rcgu.o"))):
            b = f"{d}/{i}.bc"
            r = sh([llvm("llvm-objcopy"), f"--dump-section=.llvmbc={b}", o], ok=(0, 1))
            if os.path.exists(b) and os.path.getsize(b) > 0:
                bcs.append(b)
        sh([llvm("llvm-link")] + bcs + ["-o", f"{out}/{c}.bc"])
        shutil.rmtree(d)


def build_carsym():
    sh(["cargo", "build", "--release", "--offline"], cwd=f"{VERIF}/carsym", env={"RUSTUP_TOOLCHAIN": "1.87", "CARGO_TARGET_DIR": f"{BUILD}/carsym"}, timeout=1500)
    return f"{BUILD}/carsym/release/carsym"


STUB = re.compile(r"core9panicking9panic_fmt|core9panicking18panic_nounwind_fmt|core9panicking15const_panic_fmt|rust_begin_unwind|5stdio6_print|5stdio7_eprint|handle_alloc_error17|raw_vec17capacity_overflow|Fallibility17capacity_overflow"
                  r"|DefaultHasher\$u20\$as\$u20\$core\.\.hash\.\.Hasher\$GT\$(5write|6finish|9write_str)|hashmap_random_keys|rt10begin_panic|panicking11begin_panic|5alloc8rust_oom|std3env"
                  r"|std9panicking|std2io5stdio|std3sys9backtrace|9backtrace")
KEEP = re.compile(r"format_inner|9scheduler15get_step_weight")


def forget(tgt, key, names):
    """cargo goes by modification times; make it rebuild when the sources' contents differ"""
    stamp = f"{tgt}/carsym.stamp"
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    for n in names:
        for d in glob.glob(f"{tgt}/debug/.fingerprint/{n}-*"):
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(tgt, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(key)


def build_ll():
    """returns the path of the IR of the current tree"""
    key = tree_hash([f"{REPO}/carcara/src", f"{REPO}/carcara/Cargo.toml", f"{VERIF}/guest/src", f"{VERIF}/shared"]) + hashlib.sha256(open(f"{VERIF}/tools/pipeline.py", "rb").read() + open(f"{VERIF}/guest/Cargo.toml", "rb").read()).hexdigest()[:8]
    ll = f"{BUILD}/ll/{key}.ll"
    if os.path.exists(ll):
        return ll, key, 0.0
    t0 = time.time()
    build_std()
    os.makedirs(f"{BUILD}/ll", exist_ok=True)
    src = f"{BUILD}/guest_src"
    os.makedirs(src, exist_ok=True)
    tgt = f"{BUILD}/guest"
    forget(tgt, key, ["carcara", "guest"])
    sh(["cargo", "build", "--offline"], cwd=f"{VERIF}/guest", env={"RUSTUP_TOOLCHAIN": "1.87", "RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": tgt, "RUSTFLAGS": FLAGS, "CARGO_PROFILE_DEV_PANIC": "abort"}, timeout=800)
    bcs = []
    for d in DEPS:
        c = sorted(glob.glob(f"{tgt}/debug/deps/{d}-*.bc"), key=os.path.getmtime)
        if d in ("guest", "carcara"):
            c = c[-1:]
        bcs += c
    tmp = f"{BUILD}/ll/{key}.{os.getpid()}"
    sh([llvm("llvm-link")] + bcs + [f"{BUILD}/std/{c}.bc" for c in STD] + ["-o", tmp + ".all.bc"])
    sh([llvm("opt"), "-internalize-public-api-list=cs_main,guest_step_weight", "-passes=internalize,globaldce", tmp + ".all.bc", "-o", tmp + ".a.bc"])
    sh([llvm("llvm-dis"), tmp + ".a.bc", "-o", tmp + ".a.ll"])
    keep = []
    out = []
    skip = False
    with open(tmp + ".a.ll", encoding="utf-8", errors="surrogateescape") as fh:
        for line in fh:
            if skip:
                if line.startswith("}"):
                    skip = False
                continue
            if line.startswith("define "):
                m = re.search(r'@("?)([^"( ]+)\1\(', line)
                n = m.group(2)
                if STUB.search(n) and not re.search("9panicking3try|__rust_begin_short_backtrace", n) and "drop_in_place" not in n and "fmt..Write" not in n:
                    line = re.sub(r"^define (internal |private |hidden |weak |linkonce_odr )*", "declare ", line)
                    line = re.sub(r" unnamed_addr", "", line)
                    line = re.sub(r" (comdat(\(\$[^)]*\))?)", "", line)
                    line = re.sub(r" personality .*", " {", line)
                    line = re.sub(r"(![a-zA-Z.]+ ![0-9]+ )*\{\s*$", "\n", line)
                    line = re.sub(r" !dbg ![0-9]+", "", line)
                    out.append(line)
                    skip = True
                    continue
                if KEEP.search(n):
                    keep.append(n)
            out.append(line)
    with open(tmp + ".b.ll", "w", encoding="utf-8", errors="surrogateescape") as fh:
        fh.writelines(out)
    pub = ",".join(["cs_main", "guest_step_weight"] + keep)
    sh([llvm("opt"), f"-internalize-public-api-list={pub}", "-passes=internalize,globaldce", tmp + ".b.ll", "-o", tmp + ".c.bc"])
    force = [f"-force-attribute={n}:noinline" for n in keep]
    sh([llvm("opt")] + force + ["-passes=default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", tmp + ".c.bc", "-o", tmp + ".d.bc"])
    sh([llvm("llvm-dis"), tmp + ".d.bc", "-o", tmp + ".ll"])
    os.rename(tmp + ".ll", ll)
    for s in (".all.bc", ".a.bc", ".a.ll", ".b.ll", ".c.bc", ".d.bc"):
        try:
            os.remove(tmp + s)
        except FileNotFoundError:
            pass
    for old in glob.glob(f"{BUILD}/ll/*.ll"):
        if old != ll and time.time() - os.path.getmtime(old) > 3600:
            os.remove(old)
    return ll, key, time.time() - t0


def build_native():
    """the ordinary carcara executable of the current tree, without hooks"""
    tgt = f"{BUILD}/native"
    forget(tgt, tree_hash([f"{REPO}/carcara", f"{REPO}/cli"]), ["carcara", "carcara-cli"])
    sh(["cargo", "build", "--offline", "--locked", "-p", "carcara-cli"], cwd=REPO, env={"RUSTUP_TOOLCHAIN": "1.87", "CARGO_TARGET_DIR": tgt}, timeout=800)
    return f"{tgt}/debug/carcara"


def build_vtool():
    """asks the library of the current tree directly"""
    tgt = f"{BUILD}/vtool"
    forget(tgt, tree_hash([f"{REPO}/carcara", f"{VERIF}/vtool", f"{VERIF}/shared"]), ["carcara", "vtool"])
    sh(["cargo", "build", "--offline"], cwd=f"{VERIF}/vtool", env={"RUSTUP_TOOLCHAIN": "1.87", "CARGO_TARGET_DIR": tgt}, timeout=800)
    return f"{tgt}/debug/vtool"


if __name__ == "__main__":
    t0 = time.time()
    what = sys.argv[1:] or ["std", "carsym", "ll", "native", "vtool"]
    for w in what:
        r = {"std": build_std, "carsym": build_carsym, "ll": build_ll, "native": build_native, "vtool": build_vtool}[w]()
        print(w, r, f"{time.time()-t0:.1f}s")
