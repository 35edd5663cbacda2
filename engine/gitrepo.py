"""Scratch repositories: written and read back without the code under test.

Objects are written as loose objects and read straight from disk (falling
back to `git cat-file` for packed ones), so that building a generated history
and inspecting the result costs almost nothing and does not go through
git-branchless.
"""
import hashlib
import os
import shutil
import signal
import stat
import subprocess
import tempfile
import time
import zlib

TIMEOUT = 120


class HarnessError(Exception):
    """Something that is neither a pass nor a violation. With `kind`, the code
    under test crashed or hung where it has to work."""

    def __init__(self, text, kind=None):
        Exception.__init__(self, text)
        self.kind = kind


class Result:
    __slots__ = ("code", "out", "err", "args")

    def __init__(self, code, out, err, args):
        self.code, self.out, self.err, self.args = code, out, err, args

    @property
    def text(self):
        return self.out + self.err

    def __repr__(self):
        return "<%s -> %d\n--stdout--\n%s--stderr--\n%s>" % (" ".join(self.args), self.code, self.out[-3000:], self.err if len(self.err) < 4500 else self.err[:1500] + "\n[...]\n" + self.err[-3000:])


class Commit:
    __slots__ = ("oid", "tree", "parents", "author", "committer", "message", "extra")

    def __init__(self, oid, data):
        self.oid = oid
        head, _, self.message = data.partition(b"\n\n")
        self.parents, self.extra = [], []
        self.tree = self.author = self.committer = None
        for line in head.split(b"\n"):
            k, _, v = line.partition(b" ")
            if k == b"tree":
                self.tree = v.decode()
            elif k == b"parent":
                self.parents.append(v.decode())
            elif k == b"author":
                self.author = v
            elif k == b"committer":
                self.committer = v
            else:
                self.extra.append(line)

    @property
    def subject(self):
        return self.message.split(b"\n", 1)[0].decode("utf-8", "replace")


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 512 * 1024 * 1024:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def base_env(vbin, home, extra=None):
    env = {
        "HOME": home,
        "XDG_CONFIG_HOME": os.path.join(home, ".config"),
        "PATH": vbin + ":/usr/local/bin:/usr/bin:/bin",
        "GIT_CONFIG_NOSYSTEM": "1",
        "GIT_TERMINAL_PROMPT": "0",
        "LC_ALL": "C",
        "TZ": "UTC",
        "TERM": "dumb",
        "RUST_BACKTRACE": "0",
        "GIT_EDITOR": ":",
        "GIT_AUTHOR_NAME": "Gen Author",
        "GIT_AUTHOR_EMAIL": "author@example.com",
        "GIT_COMMITTER_NAME": "Gen Committer",
        "GIT_COMMITTER_EMAIL": "committer@example.com",
        "GIT_AUTHOR_DATE": "1600000000 +0000",
        "GIT_COMMITTER_DATE": "1600000000 +0000",
        "GIT_MERGE_AUTOEDIT": "no",
    }
    if extra:
        env.update(extra)
    return env


class Repo:
    def __init__(self, path, vbin, home):
        self.path = path
        self.gitdir = os.path.join(path, ".git")
        self.vbin = vbin
        self.home = home
        self.env = base_env(vbin, home)
        self.cache = {}
        self.tree_cache = {}
        self.log = []

    # -- running ---------------------------------------------------------
    def run(self, *args, env=None, input=None, cwd=None, check=None, timeout=TIMEOUT):
        e = self.env
        if env:
            e = dict(e)
            e.update(env)
        p = subprocess.Popen(
            list(args), cwd=cwd or self.path, env=e,
            stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(
                input if (input is None or isinstance(input, bytes)) else input.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            raise HarnessError("no end after %d s: %r" % (timeout, args), "hang" if args[0] == "git-branchless" or "wrap" in args else None)
        r = Result(p.returncode, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), args)
        if check is not None and r.code != check:
            crash = args[0] == "git-branchless" and (r.code == 101 or r.code < 0)
            raise HarnessError("unexpected exit code (wanted %d): %r" % (check, r), "crash" if crash else None)
        return r

    def git(self, *args, **kw):
        kw.setdefault("check", 0)
        return self.run("git", *args, **kw)

    def gb(self, *args, **kw):
        """Runs git-branchless itself."""
        return self.run("git-branchless", *args, **kw)

    # -- objects -----------------------------------------------------------
    def _obj_path(self, oid):
        return os.path.join(self.gitdir, "objects", oid[:2], oid[2:])

    def write_object(self, kind, data):
        raw = kind + b" " + str(len(data)).encode() + b"\0" + data
        oid = hashlib.sha1(raw).hexdigest()
        path = self._obj_path(oid)
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(zlib.compress(raw, 1))
        return oid

    def read_object(self, oid):
        if oid in self.cache:
            return self.cache[oid]
        try:
            with open(self._obj_path(oid), "rb") as f:
                raw = zlib.decompress(f.read())
            head, _, data = raw.partition(b"\0")
            res = (head.split(b" ")[0], data)
        except FileNotFoundError:
            p = subprocess.run(["git", "cat-file", "--batch"], cwd=self.path, env=self.env,
                               input=oid.encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            head, _, rest = p.stdout.partition(b"\n")
            parts = head.split(b" ")
            if len(parts) != 3:
                return None
            res = (parts[1], rest[:int(parts[2])])
        self.cache[oid] = res
        return res

    def exists(self, oid):
        """Does the object exist right now (not from the cache)?"""
        if os.path.exists(self._obj_path(oid)):
            return True
        return self.git("cat-file", "-e", oid, check=None).code == 0

    def commit(self, oid):
        o = self.read_object(oid)
        if o is None or o[0] != b"commit":
            return None
        return Commit(oid, o[1])

    def write_tree(self, files):
        """files: {path: (mode, bytes)}; returns the tree's id."""
        root = {}
        for path, (mode, data) in files.items():
            parts = path.split("/")
            d = root
            for p in parts[:-1]:
                d = d.setdefault(p, {})
                assert isinstance(d, dict), path
            assert parts[-1] not in d, path
            d[parts[-1]] = (mode, self.write_object(b"blob", data))
        return self._write_tree(root)

    def _write_tree(self, d):
        entries = []
        for name, v in d.items():
            if isinstance(v, dict):
                entries.append((name + "/", b"40000", name, self._write_tree(v)))
            else:
                entries.append((name, v[0].encode(), name, v[1]))
        entries.sort(key=lambda e: e[0].encode())
        data = b"".join(m + b" " + n.encode() + b"\0" + bytes.fromhex(o) for _, m, n, o in entries)
        return self.write_object(b"tree", data)

    def flat(self, tree, prefix=""):
        """{path: (mode, blob id)} of a tree."""
        if tree in self.tree_cache:
            sub = self.tree_cache[tree]
        else:
            o = self.read_object(tree)
            if o is None or o[0] != b"tree":
                raise HarnessError("missing tree %s" % tree)
            sub, data = {}, o[1]
            i = 0
            while i < len(data):
                sp = data.index(b" ", i)
                nul = data.index(b"\0", sp)
                mode, name = data[i:sp].decode(), data[sp + 1:nul].decode("utf-8", "surrogateescape")
                oid = data[nul + 1:nul + 21].hex()
                i = nul + 21
                if mode == "40000":
                    for p, v in self.flat(oid).items():
                        sub[name + "/" + p] = v
                    if not self.flat(oid):
                        sub[name + "/"] = ("40000", oid)
                else:
                    sub[name] = (mode.rjust(6, "0"), oid)
            self.tree_cache[tree] = sub
        return sub

    def blob(self, oid):
        o = self.read_object(oid)
        return None if o is None else o[1]

    def files(self, commit_oid):
        """{path: (mode, bytes)} of a commit."""
        c = self.commit(commit_oid)
        return {p: (m, self.blob(b) if m != "40000" else b"") for p, (m, b) in self.flat(c.tree).items()}

    def write_commit(self, tree, parents, message, author=None, committer=None, time=1600000000):
        author = author or b"Gen Author <author@example.com>"
        committer = committer or b"Gen Committer <committer@example.com>"
        ts = b" %d +0000" % time
        data = b"tree " + tree.encode() + b"\n"
        for p in parents:
            data += b"parent " + p.encode() + b"\n"
        data += b"author " + author + ts + b"\ncommitter " + committer + ts + b"\n\n"
        data += message if isinstance(message, bytes) else message.encode()
        return self.write_object(b"commit", data)

    # -- references --------------------------------------------------------
    def write_ref(self, name, oid):
        path = os.path.join(self.gitdir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(oid + "\n")

    def refs(self, prefix="refs/"):
        res = {}
        packed = os.path.join(self.gitdir, "packed-refs")
        if os.path.exists(packed):
            with open(packed) as f:
                for line in f:
                    if line.startswith(("#", "^")) or not line.strip():
                        continue
                    oid, name = line.rstrip("\n").split(" ", 1)
                    res[name] = oid
        base = os.path.join(self.gitdir, "refs")
        for d, _, fs in os.walk(base):
            for fn in fs:
                if fn.endswith(".lock"):
                    continue
                full = os.path.join(d, fn)
                name = os.path.relpath(full, self.gitdir)
                try:
                    with open(full) as f:
                        v = f.read().strip()
                except FileNotFoundError:
                    continue
                if v.startswith("ref: "):
                    v = "ref: " + v[5:]
                res[name] = v
        return {n: o for n, o in res.items() if n.startswith(prefix)}

    def user_refs(self):
        """All references apart from git-branchless' own bookkeeping."""
        return {n: o for n, o in self.refs().items()
                if not n.startswith(("refs/branchless/", "refs/rewritten/"))}

    def branches(self):
        return {n[len("refs/heads/"):]: o for n, o in self.refs("refs/heads/").items()}

    def head(self):
        """('branch', name, oid or None) or ('detached', None, oid)."""
        with open(os.path.join(self.gitdir, "HEAD")) as f:
            v = f.read().strip()
        if v.startswith("ref: "):
            name = v[5:]
            short = name[len("refs/heads/"):] if name.startswith("refs/heads/") else name
            return ("branch", short, self.refs().get(name))
        return ("detached", None, v)

    def head_oid(self):
        return self.head()[2]

    def ancestors(self, oids):
        seen, todo = set(), list(oids)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            c = self.commit(o)
            if c is None:
                raise HarnessError("missing commit %s" % o)
            todo.extend(c.parents)
        return seen

    # -- working copy ------------------------------------------------------
    def worktree(self):
        """{path: (mode, bytes)} of every file in the working copy."""
        res = {}
        for d, ds, fs in os.walk(self.path):
            if d == self.path:
                ds[:] = [x for x in ds if x != ".git"]
            for n in list(ds):
                if os.path.islink(os.path.join(d, n)):
                    ds.remove(n)
                    fs = fs + [n]
            for n in fs:
                full = os.path.join(d, n)
                rel = os.path.relpath(full, self.path)
                st = os.lstat(full)
                if stat.S_ISLNK(st.st_mode):
                    res[rel] = ("120000", os.readlink(full).encode())
                else:
                    with open(full, "rb") as f:
                        data = f.read()
                    res[rel] = ("100755" if st.st_mode & 0o100 else "100644", data)
        return res

    def put_file(self, rel, mode, data):
        full = os.path.join(self.path, rel)
        parent = os.path.dirname(full)
        # Replace files that stand where a directory is needed.
        p = self.path
        for part in os.path.relpath(parent, self.path).split("/"):
            if part == ".":
                continue
            p = os.path.join(p, part)
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
        os.makedirs(parent, exist_ok=True)
        if os.path.islink(full) or os.path.isfile(full):
            os.unlink(full)
        elif os.path.isdir(full):
            shutil.rmtree(full)
        if mode == "120000":
            os.symlink(data.decode(), full)
        else:
            with open(full, "wb") as f:
                f.write(data)
            os.chmod(full, 0o755 if mode == "100755" else 0o644)

    def remove_file(self, rel):
        full = os.path.join(self.path, rel)
        if os.path.islink(full) or os.path.isfile(full):
            os.unlink(full)
        d = os.path.dirname(full)
        while d != self.path and os.path.isdir(d) and not os.listdir(d):
            os.rmdir(d)
            d = os.path.dirname(d)

    def index(self):
        """{(path, stage): (mode, oid)}"""
        out = self.git("ls-files", "-s", "-z").out
        res = {}
        for ent in out.split("\0"):
            if ent:
                meta, path = ent.split("\t", 1)
                mode, oid, stage = meta.split(" ")
                res[(path, int(stage))] = (mode, oid)
        return res

    def checkout_files(self, commit_oid):
        """Populates index and working copy from a commit (HEAD already set)."""
        self.git("reset", "-q", "--hard", commit_oid, env={"GIT_CONFIG_COUNT": "1",
                 "GIT_CONFIG_KEY_0": "core.hooksPath", "GIT_CONFIG_VALUE_0": "/dev/null"})

    # -- git-branchless views ------------------------------------------------
    def query(self, revset, check=0):
        r = self.gb("query", "-r", revset, check=check)
        return [l for l in r.out.splitlines() if l]

    def visible(self):
        """The visible draft commits, as git-branchless sees them."""
        return set(self.query("draft()"))

    def state(self):
        return {"refs": self.user_refs(), "head": self.head()[:2] + (self.head()[2],)}

    def nohooks(self):
        return {"GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "core.hooksPath", "GIT_CONFIG_VALUE_0": "/dev/null"}


class Arena:
    """A scratch directory per worker, with a template repository."""

    def __init__(self, vbin, keep=False):
        self.vbin = vbin
        self.root = tempfile.mkdtemp(prefix="gbv-", dir=scratch_root())
        self.home = os.path.join(self.root, "home")
        os.makedirs(self.home)
        self.n = 0
        self.template = None
        self.keep = keep

    def _make_template(self):
        path = os.path.join(self.root, "template")
        os.makedirs(path)
        r = Repo(path, self.vbin, self.home)
        r.git("init", "-q", "-b", "master")
        shutil.rmtree(os.path.join(path, ".git", "hooks"))
        shutil.rmtree(os.path.join(path, ".git", "info"), ignore_errors=True)
        os.makedirs(os.path.join(path, ".git", "hooks"))
        for k, v in [("user.name", "Gen Committer"), ("user.email", "committer@example.com"),
                     ("core.abbrev", "12"), ("gc.auto", "0"), ("maintenance.auto", "false"),
                     ("branchless.restack.preserveTimestamps", "true"),
                     ("core.autocrlf", "false"), ("core.fsync", "none"),
                     ("branchless.commitDescriptors.relativeTime", "false")]:
            r.git("config", k, v)
        r.gb("init", "--main-branch", "master", check=0)
        shutil.rmtree(os.path.join(path, ".git", "branchless", "man"), ignore_errors=True)
        self.template = path

    def new_repo(self, name="repo"):
        if self.template is None:
            self._make_template()
        self.n += 1
        path = os.path.join(self.root, "%s%d" % (name, self.n))
        shutil.copytree(self.template, path, symlinks=True)
        return Repo(path, self.vbin, self.home)

    def new_dir(self, name):
        self.n += 1
        path = os.path.join(self.root, "%s%d" % (name, self.n))
        os.makedirs(path)
        return path

    def clone_repo(self, repo, name="clone"):
        self.n += 1
        path = os.path.join(self.root, "%s%d" % (name, self.n))
        shutil.copytree(repo.path, path, symlinks=True)
        c = Repo(path, self.vbin, self.home)
        c.cache = repo.cache
        c.tree_cache = repo.tree_cache
        return c

    def clear(self):
        """Removes everything but the template and home."""
        for n in os.listdir(self.root):
            if n in ("home", "template"):
                continue
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def close(self):
        if not self.keep:
            shutil.rmtree(self.root, ignore_errors=True)
