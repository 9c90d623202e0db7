"""Build the fact extractor and extract facts from /repo's current working tree."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FNNTW_REPO", "/repo")
WORK = os.environ.get("FNNTW_WORK", os.path.join(VERIF, ".work"))


class FactError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly")
        _sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env, text=True, cwd=VERIF).strip()
    return _sysroot


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def source_files():
    out = []
    for base in ("src", "pyfnntw/src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "pyfnntw/Cargo.toml", "Cargo.lock", "README.md", "rust-toolchain.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def driver():
    src = [os.path.join(VERIF, "driver", x) for x in ("Cargo.toml", "Cargo.lock", "src/main.rs")]
    h = filehash(src)
    dst = os.path.join(WORK, "bin", "factdump-" + h)
    if os.path.exists(dst):
        return dst
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(WORK, "driver"))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = _run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(VERIF, "driver"), env=env)
    if r.returncode:
        raise FactError("driver build failed:\n" + r.stdout[-4000:])
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = "%s.%d.tmp" % (dst, os.getpid())
    shutil.copy(os.path.join(WORK, "driver/release/factdump"), tmp)
    os.rename(tmp, dst)
    return dst


def base_env():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["CARGO_INCREMENTAL"] = "0"
    # release semantics: debug_assert! and overflow checks are not relied upon
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    py = "/opt/vp/venv/bin/python"
    if os.path.exists(py):
        env.setdefault("PYO3_PYTHON", py)
    return env


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)


def tidy_features(features):
    return ",".join(sorted(features))


def extract(pkg, features):
    """features: tuple of feature names for fnntw (no defaults); pkg 'fnntw' or 'pyfnntw'."""
    drv = driver()
    ensure_lock()
    key = hashlib.sha256(("%s|%s|%s|%s" % (pkg, tidy_features(features), os.path.basename(drv), filehash(source_files()))).encode()).hexdigest()[:24]
    out = os.path.join(WORK, "facts", key)
    done = os.path.join(out, "OK")
    if os.path.exists(done):
        return out
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(WORK, "target")
        env = base_env()
        env["CARGO_TARGET_DIR"] = target
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["FACTDUMP_CRATES"] = "fnntw,pyfnntw"
        env["FACTDUMP_OUT"] = out
        for p in glob.glob(os.path.join(target, "*/.fingerprint/fnntw-*")) + glob.glob(os.path.join(target, "*/.fingerprint/pyfnntw-*")) + glob.glob(os.path.join(target, "*/build/fnntw")) + glob.glob(os.path.join(target, "*/build/pyfnntw")):
            shutil.rmtree(p, ignore_errors=True)
        cmd = ["cargo", "check", "--offline", "-p", pkg, "--lib"]
        if pkg == "fnntw":
            cmd += ["--no-default-features"]
            if features:
                cmd += ["--features", tidy_features(features)]
        r = _run(cmd, cwd=REPO, env=env)
        if r.returncode:
            raise FactError("type-check of %s [%s] failed:\n%s" % (pkg, tidy_features(features), r.stdout[-6000:]))
        if not os.path.exists(os.path.join(out, pkg + ".json")):
            raise FactError("no facts for %s:\n%s" % (pkg, r.stdout[-3000:]))
        open(done, "w").write("ok")
    return out


def load(pkg, features):
    d = extract(pkg, features)
    res = {}
    for c in ("fnntw", "pyfnntw"):
        p = os.path.join(d, c + ".json")
        if os.path.exists(p):
            with open(p) as f:
                res[c] = json.load(f)
    return res


if __name__ == "__main__":
    print(extract(sys.argv[1], tuple(x for x in (sys.argv[2] if len(sys.argv) > 2 else "").split(",") if x)))
