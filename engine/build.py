"""Builds the binaries under test from /repo's working tree.

Nothing is built inside /repo: cargo gets its own target directory under
/verif (ignored by git). Cargo decides freshness by file times; so that a
change can never be missed (for example because a file was restored with an
old time), the contents of all sources are hashed and, when the hash differs
from the one of the last build, the fingerprints of the workspace crates are
dropped, which forces cargo to rebuild them.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
TOOLCHAIN = "1.74"


class BuildError(Exception):
    pass


def source_files(root):
    out = subprocess.run(
        ["git", "-C", root, "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
        check=True, stdout=subprocess.PIPE).stdout
    names = sorted(set(n for n in out.decode("utf-8", "surrogateescape").split("\0") if n))
    skip = (".md", ".png", ".svg", ".gif", ".mp4")
    return [n for n in names if not n.endswith(skip)]


def tree_hash(root, names=None):
    h = hashlib.sha256()
    for name in names if names is not None else source_files(root):
        path = os.path.join(root, name)
        if not os.path.isfile(path):
            continue
        with open(path, "rb") as f:
            data = f.read()
        h.update(name.encode("utf-8", "surrogateescape") + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()


def cargo_env(target):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    env.update({
        "RUSTUP_TOOLCHAIN": TOOLCHAIN,
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": target,
        "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_OPT_LEVEL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "0",
    })
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTC_WRAPPER", None)
    return env


def _workspace_crates():
    crates = []
    for name in sorted(os.listdir(REPO)):
        if os.path.isfile(os.path.join(REPO, name, "Cargo.toml")):
            crates.append(name)
    return crates


def _drop_fingerprints(target, crates):
    fp = os.path.join(target, "debug", ".fingerprint")
    if not os.path.isdir(fp):
        return
    for entry in os.listdir(fp):
        base = entry.rsplit("-", 1)[0]
        if base in crates:
            shutil.rmtree(os.path.join(fp, entry), ignore_errors=True)


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode("utf-8", "replace")[-6000:])
        raise BuildError("%s failed in %s" % (" ".join(cmd), cwd))


class _Locked:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_binary():
    """Builds git-branchless; returns the directory holding just that binary."""
    with _Locked("bin"):
        target = os.path.join(TARGET, "bin")
        h = tree_hash(REPO)
        vbin = os.path.join(TARGET, "vbin")
        stamp = os.path.join(TARGET, "bin.stamp")
        out = os.path.join(vbin, "git-branchless")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old == h and os.path.exists(out):
            return vbin
        if old != h:
            _drop_fingerprints(target, set(_workspace_crates()) | {"git-branchless-lib"})
        if os.path.exists(stamp):
            os.unlink(stamp)
        _run(["cargo", "build", "-p", "git-branchless", "--bin", "git-branchless", "--locked", "--offline"],
             REPO, cargo_env(target))
        os.makedirs(vbin, exist_ok=True)
        tmp = out + ".tmp"
        shutil.copy2(os.path.join(target, "debug", "git-branchless"), tmp)
        os.replace(tmp, out)
        with open(stamp, "w") as f:
            f.write(h)
        return vbin


def build_harness(name):
    """Builds /verif/harness/<name>, a crate with path dependencies on /repo."""
    with _Locked("h-" + name):
        crate = os.path.join(VERIF, "harness", name)
        target = os.path.join(TARGET, "h-" + name)
        h = tree_hash(REPO) + tree_hash(VERIF, sorted(
            os.path.relpath(os.path.join(d, f), VERIF)
            for d, _, fs in os.walk(crate) for f in fs))
        stamp = os.path.join(TARGET, "h-%s.stamp" % name)
        out = os.path.join(target, "debug", name)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old == h and os.path.exists(out):
            return out
        if old != h:
            _drop_fingerprints(target, set(_workspace_crates()) | {"git-branchless-lib", name})
        if os.path.exists(stamp):
            os.unlink(stamp)
        _run(["cargo", "build", "--locked", "--offline"], crate, cargo_env(target))
        with open(stamp, "w") as f:
            f.write(h)
        return out


if __name__ == "__main__":
    print(build_binary())
    for n in sys.argv[1:]:
        try:
            print(build_harness(n))
        except BuildError as e:     # each check decides what to do without it
            print("harness %s: %s" % (n, e))
