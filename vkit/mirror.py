"""Copies /repo's Rust sources to a build directory, with stand-ins for the two git dependencies.

The workspace names two crates that can only be fetched from git (protocol-zap, unchecked_account), so cargo
cannot load it offline. The copy gets path dependencies on the stand-ins in /verif/stubs instead, and a
Cargo.lock without the git packages. Nothing else of /repo is changed: no source line is cut or rewritten.
Files are written only when their content differs, so cargo rebuilds incrementally.
"""
import os
import re
import stat

SKIP_DIRS = {".git", "target", "node_modules", ".anchor", "test-ledger", ".yarn"}
SKIP_TOP = {"tests", "scripts", ".github"}
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")


def _manifest(text):
    for name in ("protocol-zap", "unchecked_account"):
        text = re.sub(
            r"(?m)^%s[ \t]*=.*$" % name, '%s = { path = "%s/%s" }' % (name, STUBS, name), text)
    return text


def _lock(text):
    head, *packages = re.split(r"(?m)^(?=\[\[package\]\]$)", text)
    keep = [p for p in packages if not re.search(r'^source = "git\+', p, re.M)]
    out = head + "".join(keep)
    # stand-ins replace the two crates the program names; the rest of the git packages go away
    out = re.sub(r'^ "(jupiter|zap-sdk)(?: [^"]*)?",\n', "", out, flags=re.M)
    return out


def files(repo):
    for d, dirs, names in os.walk(repo):
        rel = os.path.relpath(d, repo)
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not (rel == "." and x in SKIP_TOP))
        for n in sorted(names):
            p = os.path.normpath(os.path.join(rel, n))
            if stat.S_ISREG(os.lstat(os.path.join(repo, p)).st_mode):
                yield p


def mirror(repo, dst):
    os.makedirs(dst, exist_ok=True)
    want = set()
    for rel in files(repo):
        base = os.path.basename(rel)
        if not (base.endswith((".rs", ".toml", ".lock", ".json", ".bin", ".so"))
                or rel.startswith(("programs", "libs", "dynamic-bonding-curve-sdk", "idls", "keys"))):
            continue
        with open(os.path.join(repo, rel), "rb") as f:
            data = f.read()
        if rel == "Cargo.lock":
            data = _lock(data.decode()).encode()
        elif base == "Cargo.toml":
            data = _manifest(data.decode()).encode()
        elif base == "rust-toolchain.toml":
            continue
        want.add(rel)
        path = os.path.join(dst, rel)
        try:
            with open(path, "rb") as f:
                old = f.read()
            if rel == "Cargo.lock":      # cargo adds the stand-ins to it; rewrite only when the base changed
                marker = os.path.join(dst, ".lock.base")
                if os.path.exists(marker) and open(marker, "rb").read() == data:
                    continue
            elif old == data:
                continue
        except FileNotFoundError:
            pass
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        if rel == "Cargo.lock":
            with open(os.path.join(dst, ".lock.base"), "wb") as f:
                f.write(data)
    for d, dirs, names in os.walk(dst):
        for n in names:
            p = os.path.relpath(os.path.join(d, n), dst)
            if p not in want and p != ".lock.base":
                os.unlink(os.path.join(d, n))


if __name__ == "__main__":
    import sys
    mirror(sys.argv[1], sys.argv[2])
