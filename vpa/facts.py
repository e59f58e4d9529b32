"""Produce MIR facts for /repo's current working tree (cached by a hash of its sources)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(HERE, ".cache"))


class FactsError(Exception):
    pass


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            out.append(p)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.join(HERE, "driver/src/main.rs"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:32]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    # native objects are never linked into what is analysed (cargo check): do not compile them
    e["CC"] = e["CXX"] = os.path.join(HERE, "tools/fastcc")
    for k in [k for k in e if k.startswith(("CC_", "CXX_", "CFLAGS", "TARGET_CC", "HOST_CC"))]:
        e.pop(k)
    return e


def build_driver():
    src = os.path.join(HERE, "driver/src/main.rs")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(CACHE, "mirdump-" + h)
    if not os.path.exists(out):
        r = subprocess.run([os.path.join(HERE, "driver/build.sh"), out], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise FactsError("driver build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    return out


def get(verbose=True):
    """Returns the directory holding the fact files of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(CACHE, "facts-" + key)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        t0 = time.time()
        drv = build_driver()
        tgt = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper: forget the workspace's own crates
        for pat in ("doge-shell*", "doge_shell*", "dsh-*", "dsh_*", "dsh"):
            for p in glob.glob(os.path.join(tgt, "debug/.fingerprint", pat)) + glob.glob(os.path.join(tgt, "debug/build", pat)):
                shutil.rmtree(p, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = env()
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["VP_FACTS_DIR"] = tmp
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--offline", "--locked", "--target-dir", tgt],
                           cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise FactsError("cargo check failed:\n" + r.stdout.decode(errors="replace")[-6000:])
        want = ["doge_shell", "dsh_builtin", "dsh_frecency", "dsh_openai", "dsh_types"]
        for w in want:
            if not os.path.exists(os.path.join(tmp, w + ".jsonl")):
                raise FactsError("no facts were produced for crate " + w)
        if tree_hash() != key:
            raise FactsError("/repo changed while it was being analysed")
        open(os.path.join(tmp, "ok"), "w").write(key)
        for p in glob.glob(os.path.join(CACHE, "facts-*")):
            if p != tmp:
                shutil.rmtree(p, ignore_errors=True)
        os.rename(tmp, d)
        if verbose:
            print("analysed /repo with the MIR driver in %.0fs" % (time.time() - t0), file=sys.stderr)
        return d


if __name__ == "__main__":
    print(get())
