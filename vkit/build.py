"""From /repo's working tree to a dumped program: mirror, MIR driver, cargo check. Cached by content."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

from .mirror import files, mirror
from .prog import Prog

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
DRIVER = os.path.join(ROOT, "driver")


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def content_key():
    h = hashlib.sha256()
    for rel in sorted(files(REPO)):
        if rel.endswith((".rs", ".toml", ".lock", ".json")):
            h.update(rel.encode() + b"\0")
            h.update(open(os.path.join(REPO, rel), "rb").read())
    for d in (DRIVER, os.path.join(ROOT, "stubs")):
        for p in sorted(glob.glob(d + "/**/*", recursive=True)):
            if os.path.isfile(p):
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def run(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def mirdump():
    src = os.path.join(DRIVER, "mirdump.rs")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirdump-" + key)
    if not os.path.exists(out):
        run(["rustc", "+nightly", "--edition", "2021", "-O", "-o", out + ".tmp", src])
        os.rename(out + ".tmp", out)
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def mirrored():
    """the mirrored tree, up to date"""
    m = os.path.join(BUILD, "m")
    mirror(REPO, m)
    return m


def dump(crate="dynamic_bonding_curve", pkg="dynamic-bonding-curve"):
    """path of the dump of one crate of /repo's current tree"""
    with Lock("lock"):
        key = content_key()
        d = os.path.join(BUILD, "dump", key)
        out = os.path.join(d, crate + ".jsonl")
        if os.path.exists(out):
            return out
        for old in sorted(glob.glob(os.path.join(BUILD, "dump", "*")), key=os.path.getmtime)[:-6]:
            shutil.rmtree(old, ignore_errors=True)
        with Lock("mlock"):
            m = mirrored()
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        w = mirdump()
        env = {
            "LD_LIBRARY_PATH": sysroot() + "/lib", "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "nightly",
            "CARGO_TARGET_DIR": os.path.join(BUILD, "tn"), "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
            # /repo's release profile has overflow-checks = true: the program that runs panics on overflow
            "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true", "CARGO_INCREMENTAL": "0",
            "RUSTFLAGS": "-Zalways-encode-mir -Zinline-mir=no", "MIRDUMP_CRATES": crate, "MIRDUMP_DIR": tmp,
            "MIRDUMP_STOP": os.path.join(DRIVER, "stop.txt"), "MIRDUMP_SKIP": os.path.join(DRIVER, "skip.txt"),
            "RUSTC_WORKSPACE_WRAPPER": w,
        }
        src = {"dynamic_bonding_curve": "programs/dynamic-bonding-curve/src/lib.rs",
               "dynamic_bonding_curve_sdk": "dynamic-bonding-curve-sdk/src/lib.rs"}[crate]
        os.utime(os.path.join(m, src))
        run(["cargo", "check", "-p", pkg], env, m)
        if not os.path.exists(os.path.join(tmp, crate + ".jsonl")):
            raise BuildError("no dump was written")
        os.makedirs(d, exist_ok=True)
        os.rename(os.path.join(tmp, crate + ".jsonl"), out)
        shutil.rmtree(tmp, ignore_errors=True)
        return out


def native(funcs_src):
    """the native replay program, with these function calls in it: path of the executable"""
    with Lock("nlock"):
        key = hashlib.sha256((content_key() + funcs_src + open(os.path.join(ROOT, "replay/src/main.rs")).read()).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "vreplay-" + key)
        if os.path.exists(out):
            return out
        with Lock("mlock"):
            m = mirrored()
        r = os.path.join(BUILD, "r")
        os.makedirs(os.path.join(r, "src"), exist_ok=True)
        for a, b in (("Cargo.toml.txt", "Cargo.toml"), ("src/main.rs", "src/main.rs")):
            put(os.path.join(r, b), open(os.path.join(ROOT, "replay", a)).read())
        put(os.path.join(r, "src/funcs.rs"), funcs_src)
        if not os.path.exists(os.path.join(r, "Cargo.lock")):
            shutil.copy(os.path.join(m, "Cargo.lock"), os.path.join(r, "Cargo.lock"))
        t = os.path.join(BUILD, "tr")
        if not os.path.exists(t) and os.path.isdir("/opt/vp/mirror/target/debug/deps"):
            # reuse the dependencies the sandbox has built
            os.makedirs(t + ".tmp/debug", exist_ok=True)
            for d in ("build", "deps", ".fingerprint"):
                run(["cp", "-a", "/opt/vp/mirror/target/debug/" + d, t + ".tmp/debug/"])
            os.rename(t + ".tmp", t)
        env = {"RUSTUP_TOOLCHAIN": "1.85.0", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1",
               "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
               "CARGO_TARGET_DIR": t}
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            os.environ.pop(k, None)
        run(["cargo", "build"], env, r)
        for old in sorted(glob.glob(os.path.join(BUILD, "vreplay-*")), key=os.path.getmtime)[:-3]:
            os.unlink(old)
        shutil.copy(os.path.join(t, "debug/vreplay"), out)
        return out


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def overflow_checks():
    """does the profile the program is built with panic on overflow?"""
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    sec = t.split("[profile.release]")[-1].split("\n[")[0] if "[profile.release]" in t else ""
    return "overflow-checks = true" in sec


_progs = {}


def program(crate="dynamic_bonding_curve", pkg="dynamic-bonding-curve"):
    p = dump(crate, pkg)
    if p not in _progs:
        _progs[p] = Prog(p)
    return _progs[p]


if __name__ == "__main__":
    t = time.time()
    print(dump(*sys.argv[1:]), round(time.time() - t, 1), "s")
