"""Builds what the checks analyse: the MIR of the current /repo tree.

Nothing of it is executed apart from rustc, cargo and the dependencies' own build scripts.
Results are cached under /verif/.build by a hash of every input; without a cache everything is
rebuilt (about 20 s)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout


def out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_inputs():
    res = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "target", "node_modules")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".h", ".c")) and os.path.isfile(os.path.join(d, f)):
                res.append(os.path.join(d, f))
    return res


def driver():
    src = os.path.join(VERIF, "driver/mirdump.rs")
    key = hash_files([src])
    exe = os.path.join(BUILD, "mirdump-" + key)
    if not os.path.exists(exe):
        sysroot = out(["rustc", "+nightly", "--print", "sysroot"])
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib")
        env.pop("RUSTUP_TOOLCHAIN", None)
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", src, "-o", exe + ".tmp"], env=env)
        if rc:
            raise BuildError("driver: " + o[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe, key


def clean_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env["HOME"] = env.get("HOME", "/root")
    return env


def mir(wasm=False):
    """The dump of the workspace's MIR as parsed JSON."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dkey = driver()
        tmpl = [os.path.join(VERIF, "harness", f) for f in ("Cargo.toml.in", "src/lib.rs.in")]
        key = hash_files(repo_inputs() + tmpl, dkey + ("w" if wasm else "n"))
        res = os.path.join(BUILD, "mir-%s.json" % key)
        if not os.path.exists(res):
            hd = os.path.join(BUILD, "harness")
            os.makedirs(os.path.join(hd, "src"), exist_ok=True)
            for f in ("Cargo.toml.in", "src/lib.rs.in"):
                with open(os.path.join(VERIF, "harness", f)) as i:
                    t = i.read().replace("@REPO@", REPO)
                with open(os.path.join(hd, f[:-3]), "w") as o:
                    o.write(t)
            shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(hd, "Cargo.lock"))
            sysroot = out(["rustc", "+nightly", "--print", "sysroot"])
            rustc = out(["rustup", "which", "--toolchain", "nightly", "rustc"])
            env = clean_env()
            env.update(CARGO_NET_OFFLINE="true", CC="/bin/true", AR="/bin/true",
                       LD_LIBRARY_PATH=sysroot + "/lib",
                       VP_CRATES="qhull_rs,qhull_sys,image_palette_recoloring,vharness",
                       VP_FN_CRATES="qhull_sys",
                       VP_TARGET_CRATE="vharness", VP_OUT=res + ".tmp",
                       RUSTC_BOOTSTRAP="-1", RUSTFLAGS="-Awarnings -Zallow-features=",
                       RUSTC_WRAPPER=exe, RUSTC=rustc)
            if wasm:
                env["VP_EXTRA_FLAGS"] = '--cfg target_family="wasm" -A explicit_builtin_cfgs_in_flags'
            for p in (res, res + ".tmp"):
                if os.path.exists(p):
                    os.unlink(p)
            rc, o = sh(["cargo", "+stable", "check", "--offline", "--target-dir", os.path.join(BUILD, "target")],
                       env=env, cwd=hd)
            if rc == 0 and not os.path.exists(res + ".tmp"):
                # cargo thought the harness was fresh (its sources did not change, the driver's flags did)
                os.utime(os.path.join(hd, "src/lib.rs"))
                rc, o = sh(["cargo", "+stable", "check", "--offline", "--target-dir", os.path.join(BUILD, "target")],
                           env=env, cwd=hd)
            if rc or not os.path.exists(res + ".tmp"):
                raise BuildError("cargo: " + o[-4000:])
            os.rename(res + ".tmp", res)
            # keep the cache small
            old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("mir-") and f.endswith(".json")),
                         key=os.path.getmtime)
            for p in old[:-12]:
                os.unlink(p)
    with open(res) as f:
        return json.load(f)


if __name__ == "__main__":
    import time
    t = time.time()
    d = mir("wasm" in sys.argv)
    print({k: len(v) for k, v in d.items()}, round(time.time() - t, 1))
