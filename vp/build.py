"""Builds the driver if needed and produces MIR facts for /repo's current working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(VERIF, "driver")


def sh(cmd, env=None, cwd=None, quiet=True):
    p = subprocess.run(cmd, shell=True, executable="/bin/bash", cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        env.pop(k, None)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, env=env).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def hash_files(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"<missing>")
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", ".venv", "node_modules", "__pycache__")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(root, f))
    return sorted(out)


def driver_bin():
    src = sorted(glob.glob(DRIVER + "/src/*.rs")) + [DRIVER + "/Cargo.toml"]
    key = hash_files(src)
    binp = os.path.join(CACHE, "driver", "mirfacts-" + key)
    if not os.path.exists(binp):
        env = base_env()
        env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver-target")
        rc, out = sh("cargo +nightly build --release --offline", env=env, cwd=DRIVER)
        if rc != 0:
            sys.stderr.write(out[-6000:])
            raise SystemExit("driver build failed")
        os.makedirs(os.path.dirname(binp), exist_ok=True)
        shutil.copy(os.path.join(env["CARGO_TARGET_DIR"], "release", "mirfacts"), binp + ".tmp")
        os.rename(binp + ".tmp", binp)
    return binp, key


WANT = ["egobox.lib.json", "egobox_doe.lib.json", "egobox_ego.lib.json", "egobox_gp.lib.json", "egobox_moe.lib.json"]


def facts():
    """(facts dir, seconds spent, reused?)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp, dkey = driver_bin()
        key = hashlib.sha256((hash_files(repo_files()) + dkey).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, "facts-" + key)
        if os.path.exists(os.path.join(out, "done")):
            return out, time.time() - t0, True
        for old in glob.glob(os.path.join(CACHE, "facts-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        env = base_env()
        tgt = os.path.join(CACHE, "target")
        rc, sysroot = sh("rustc +nightly --print sysroot", env=env)
        env["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
        env["CARGO_TARGET_DIR"] = tgt
        env["MIRFACTS_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = binp
        # cargo's freshness check would skip the wrapper for workspace crates on a warm target directory
        for attempt in (0, 1):
            for n in ("egobox*", "gpqa*", "stub_gen*"):
                for d in glob.glob(tgt + "/release/.fingerprint/" + n) + glob.glob(tgt + "/release/build/" + n):
                    shutil.rmtree(d, ignore_errors=True)
            rc, log = sh("cargo +nightly check --release --workspace --offline --locked", env=env, cwd=REPO)
            missing = [w for w in WANT if not os.path.exists(os.path.join(out, w))]
            if rc != 0 or not missing:
                break
            shutil.rmtree(tgt, ignore_errors=True)
        if rc != 0 or missing:
            sys.stderr.write(log[-6000:])
            shutil.rmtree(out, ignore_errors=True)
            raise SystemExit(f"facts build failed rc={rc} missing={missing}")
        open(os.path.join(out, "done"), "w").close()
        return out, time.time() - t0, False


if __name__ == "__main__":
    d, s, r = facts()
    print(f"facts in {d} ({s:.1f}s, {'reused' if r else 'built'})")
