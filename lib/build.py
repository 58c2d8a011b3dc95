"""Build the replayer against /repo's working tree (both configurations)."""
import fcntl, hashlib, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(V, "harness")
VARIANTS = {"generic": [], "asm": ["--features", "asmtab"]}
# the portable build also runs the overflow checks and debug assertions users see in their debug builds
CHECKED = {"generic": {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true"}}

def env(hooks=True):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "1.74.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg halo2curves_verif" if hooks else ""
    e.pop("CARGO_TARGET_DIR", None)
    return e

def srchash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "derive", "script"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x not in ("target", ".git", "__pycache__")]
            files += [os.path.join(d, f) for f in fs if not f.endswith((".pyc", ".orig"))]
    for f in ("Cargo.toml", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): files.append(p)
    for f in sorted(files):
        if f.endswith("src/bn256/fr/table.rs"): continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def prepare():
    """Files the crate needs that git ignores."""
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    # the generated table follows its generator, also when an older table is still there
    table = os.path.join(REPO, "src/bn256/fr/table.rs")
    gen = os.path.join(REPO, "script/bn256.py")
    if os.path.exists(gen):
        tmp = tempfile.mkdtemp(prefix="verif-table-")
        try:
            os.makedirs(os.path.join(tmp, "src/bn256/fr"))
            shutil.copytree(os.path.join(REPO, "script"), os.path.join(tmp, "script"))
            r = subprocess.run(["python3", "script/bn256.py"], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            new = os.path.join(tmp, "src/bn256/fr/table.rs")
            if r.returncode == 0 and os.path.exists(new):
                with open(new, "rb") as fh: want = fh.read()
                have = None
                if os.path.exists(table):
                    with open(table, "rb") as fh: have = fh.read()
                if want != have:
                    with open(table, "wb") as fh: fh.write(want)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

def build_variants(h, hooks):
    bins, procs = {}, []
    for name, feat in VARIANTS.items():
        td = os.path.join(V, "target", name if hooks else name + "-nohooks")
        feat = feat if hooks else feat + ["--features", "nohooks"]
        os.makedirs(td, exist_ok=True)
        stamp = os.path.join(td, ".srchash")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h and old:
            # never trust modification times: rebuild the crates of the repository
            subprocess.run(["cargo", "clean", "--release", "--offline", "--target-dir", td, "-p", "halo2curves", "-p", "halo2derive"],
                           cwd=H, env=env(hooks), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.unlink(stamp)
        p = subprocess.Popen(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", td, *feat], cwd=H,
                             env=dict(env(hooks), **CHECKED.get(name, {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((name, td, stamp, p))
    err = ""
    for name, td, stamp, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            err += f"[{name}]\n" + out
        else:
            with open(stamp, "w") as fh: fh.write(h)
            bins[name] = os.path.join(td, "release", "replay")
    return bins, err

def build_all():
    os.makedirs(os.path.join(V, "target"), exist_ok=True)
    with open(os.path.join(V, "target", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prepare()
        h = srchash()
        bins, err = build_variants(h, True)
        if err:
            # an edit near a guarded hook may break only the guarded lines: do without them
            b2, e2 = build_variants(h, False)
            if not e2:
                print("NOTE: the build with the guarded hooks fails; operations that need them are left out")
                bins, err = b2, ""
        return bins, err

if __name__ == "__main__":
    import sys
    b, e = build_all()
    print(e[-6000:] if e else b)
    sys.exit(1 if e else 0)
