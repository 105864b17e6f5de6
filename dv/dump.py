"""Produce the MIR dump of /repo's current source (built on demand, cached by content hash)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CONFIGS = {"all": ["--features", "std,rayon,serde,rkyv,zerocopy"], "default": []}


def src_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
    for f in fs:
        if os.path.exists(f):
            h.update(f[len(REPO):].encode() + b"\0")
            h.update(open(f, "rb").read())
    for f in sorted(glob.glob(VERIF + "/mirdump/src/*.rs")):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


class BuildError(RuntimeError):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def env_base():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def driver():
    b = os.path.join(VERIF, "mirdump/target/release/mirdump")
    src = [os.path.join(VERIF, "mirdump/src/main.rs"), os.path.join(VERIF, "mirdump/Cargo.toml")]
    if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in src if os.path.exists(s)):
        run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "mirdump"), env=env_base())
        os.utime(b)
    return b


_memo = {}


def dump(cfg):
    """parsed MIR of the crate under configuration cfg ('all' | 'default')"""
    h = src_hash()
    if (cfg, h) in _memo:
        return _memo[(cfg, h)]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mir-%s-%s.json" % (cfg, h))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in glob.glob(os.path.join(BUILD, "mir-%s-*.json" % cfg)):
                os.unlink(f)
            b = driver()
            td = os.path.join(BUILD, "t-" + cfg)
            for f in glob.glob(td + "/debug/.fingerprint/gauss-quad-*") + glob.glob(td + "/debug/build/gauss-quad*"):
                shutil.rmtree(f)
            e = env_base()
            root = run(["rustc", "+nightly", "--print", "sysroot"], env=e).strip()
            tmp = out + ".tmp"
            if os.path.exists(tmp):
                os.unlink(tmp)
            e.update(MIRDUMP_CRATE="gauss_quad", MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=b,
                     LD_LIBRARY_PATH=root + "/lib")
            run(["cargo", "+nightly", "check", "--lib", "--offline", "--locked", "--target-dir", td] + CONFIGS[cfg],
                cwd=REPO, env=e)
            os.rename(tmp, out)
    d = json.load(open(out))
    _memo[(cfg, h)] = d
    return d


if __name__ == "__main__":
    for c in sys.argv[1:] or list(CONFIGS):
        d = dump(c)
        print(c, len(d["bodies"]), "bodies", src_hash())
