"""P22: init can be repeated, keeps the user's hooks and configuration, and uninstall removes only itself."""
import os
import shutil

from hypothesis import strategies as st

from engine.gitrepo import Repo
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P22"
LEVEL = "exploration"
RULE = ("Random pre-existing hook scripts (interpreter lines, missing final newline, older installed sections in any place, marker-like lines, CRLF, symbolic links), local and global configuration "
        "(aliases, other include.path entries, core.hooksPath), branches, then a random sequence of `init` / `init --uninstall` from the root, a subdirectory or a linked worktree. After every step the "
        "user's lines and configuration are compared, the effective aliases and main branch are checked, and real commits show whether the user's hooks still run and whether git-branchless is called and "
        "tracks them. Non-trivial: there is at least one user hook or user setting, and at least two steps.")
ASSUMPTIONS = ["Hook scripts are UTF-8 text and executable, do not exit early, and have balanced section markers.",
               "Uninstalling may leave a section of comments in the hooks.", "Aliases set in the repository's own configuration are not considered (init documents only global ones)."]

START, END = "## START BRANCHLESS CONFIG", "## END BRANCHLESS CONFIG"
HOOKS = ["post-commit", "post-checkout", "reference-transaction", "post-rewrite", "post-merge", "pre-auto-gc", "post-applypatch", "pre-commit", "commit-msg"]
# The ones that the operations below trigger.
RUN = {"post-commit", "post-checkout", "reference-transaction", "post-rewrite", "pre-commit", "commit-msg", "post-merge"}
ALIASES = ["amend", "hide", "move", "next", "prev", "query", "record", "restack", "reword", "sl", "smartlog", "submit", "sw", "switch", "sync", "test", "undo", "unhide"]
INSTALLED = [a for a in ALIASES if a != "switch"]
CANDIDATES = ["master", "main", "mainline", "devel", "develop", "development", "trunk"]
SHAPES = 12
PYTHON = 11

HOOK = st.tuples(st.integers(0, len(HOOKS) - 1), st.one_of(st.integers(0, SHAPES - 2), st.integers(0, SHAPES - 2), st.integers(0, SHAPES - 2), st.integers(0, SHAPES - 1))).map(list)
FROM = st.sampled_from(["root", "root", "sub", "tree"])
CASE = st.fixed_dictionaries({
    "hooks": st.lists(HOOK, max_size=4),
    "place": st.sampled_from(["default", "default", "default", "local-abs", "local-rel", "global"]),
    "aliases": st.lists(st.integers(0, len(ALIASES) - 1), max_size=2),
    "config": st.lists(st.integers(0, 6), max_size=3),
    "branches": st.lists(st.sampled_from(CANDIDATES + ["feature", "maintenance"]), min_size=1, max_size=3),
    "default": st.one_of(st.none(), st.none(), st.sampled_from(CANDIDATES + ["feature"])),
    "steps": st.lists(st.one_of(
        st.tuples(st.just("init"), FROM, st.one_of(st.none(), st.none(), st.integers(0, 2))).map(list),
        st.tuples(st.just("uninstall"), FROM, st.none()).map(list)), min_size=1, max_size=4),
    "order": st.integers(0, 1),
})


def hook_text(name, shape, log):
    act = "echo %s >> %s" % (name, log)
    if shape == 0:
        return "#!/bin/sh\n%s\n" % act
    if shape == 1:
        return "#!/bin/sh\n%s" % act
    if shape == 2:
        return "#!/bin/bash\n\n\t# Zażółć   \n\n%s   \n\n\n" % act
    if shape == 3:
        return "#!/bin/sh\n%s\n\ngit branchless hook-that-is-gone || true\n%s\n%s\n" % (START, END, act)
    if shape == 4:
        return "#!/bin/sh\n: first\n%s\necho old > /dev/null\n%s\n\n%s\n: last" % (START, END, act)
    if shape == 5:
        return "#!/bin/sh\n  %s\n%s (not this)\n# %s\n%s \n%s\n: end of mine\n" % (START, START, END, END, act)
    if shape == 6:
        return "#!/bin/sh\n# dos comment\r\n%s\n: other # \r\n" % act
    if shape == 7:
        return "%s\n" % act
    if shape == 8:
        return "#!/bin/sh\nif true; then\n%s\nfi\ncat > /dev/null <<EOT\n%s branchless\nEOT\n" % (act, START[3:])
    if shape == 9:
        return "#!/bin/sh -e\n%s\n" % act                # behind a symbolic link
    if shape == PYTHON:
        return "#!/usr/bin/env python3\nwith open(%r, 'a') as f:\n    f.write(%r)\n" % (log, name + "\n")
    return "#!/bin/sh\n%s\n: one\n%s\n%s\n: two\n" % (act, START, END)


CONFIG = [
    ("core.editor", "my editor --flag"), ("include.path", "../my-branchless/config"), ("include.path", "branchless-extra.inc"),
    ("include.path", "/nonexistent/branchless/config"), ("user.signingkey", "a\"b\\c"), ("branch.x.description", "two\nlines"), ("alias.mine", "!echo branchless/"),
]


def user_part(text):
    """The text without the installed sections, as lines with their ends."""
    res, inside, sections = [], False, 0
    for line in text.split("\n"):
        if line == START:
            inside = True
            sections += 1
        elif line == END and inside:
            inside = False
        elif not inside:
            res.append(line)
    while res and res[-1] == "":
        res.pop()
    return res, sections, inside


def read(path):
    with open(path, "rb") as f:
        return f.read().decode()


def settings(r, *args):
    out = r.run("git", "config", "-z", *args, "--list").out
    res = []
    for e in out.split("\0"):
        if e:
            k, _, v = e.partition("\n")
            res.append((k, v))
    return res


def run(ctx, case):
    base = ctx.arena.new_dir("init")
    home = os.path.join(base, "home")
    path = os.path.join(base, "repo")
    stub = os.path.join(base, "stub")
    log, calls = os.path.join(base, "log"), os.path.join(base, "calls")
    for d in (home, path, stub):
        os.makedirs(d)
    with open(os.path.join(stub, "git-branchless"), "w") as f:
        f.write("#!/bin/sh\necho \"$@\" >> %s\nexec %s/git-branchless \"$@\"\n" % (calls, ctx.arena.vbin))
    os.chmod(os.path.join(stub, "git-branchless"), 0o755)
    r = Repo(path, ctx.arena.vbin, home)
    r.env["PATH"] = stub + ":" + r.env["PATH"]
    branches = sorted(set(case["branches"]))
    r.git("init", "-q", "--template=", "-b", branches[0])
    for k, v in (("user.name", "U"), ("user.email", "u@example.com"), ("gc.auto", "0"), ("core.fsync", "none")):
        r.git("config", k, v)
    os.makedirs(os.path.join(path, "sub"))
    r.put_file("sub/file", "100644", b"0\n")
    r.git("add", ".")
    r.git("commit", "-q", "-m", "base")
    for b in branches[1:]:
        r.git("branch", b)
    tree = os.path.join(base, "tree")
    r.git("worktree", "add", "-q", "--detach", tree)
    # The user's things.
    place = case["place"]
    hooks = os.path.join(path, ".git", "hooks")
    if place == "local-abs":
        hooks = os.path.join(base, "my hooks")
        r.git("config", "core.hooksPath", hooks)
    elif place == "local-rel":
        hooks = os.path.join(path, "tools/hooks")
        r.git("config", "core.hooksPath", "tools/hooks")
    elif place == "global":
        hooks = os.path.join(home, "hooks")
        r.git("config", "--global", "core.hooksPath", hooks)
    for i in case["config"]:
        r.git("config", "--add", *CONFIG[i])
    aliases = sorted({ALIASES[i] for i in case["aliases"]})
    for a in aliases:
        r.git("config", "--global", "alias." + a, "log --%s" % a)
    if case["default"]:
        r.git("config", "--global", "init.defaultBranch", case["default"])
    os.makedirs(hooks, exist_ok=True)
    mine, modes = {}, {}
    for hi, shape in case["hooks"]:
        name = HOOKS[hi]
        if name in mine:
            continue
        if name in ("pre-commit", "commit-msg") and shape in (3, 4, 10):
            shape = 0                       # init has no section in these
        if shape == PYTHON and name not in ("post-commit", "post-merge"):
            shape = 0                       # Git would refuse to work at all
        text = hook_text(name, shape, log)
        target = os.path.join(hooks, name)
        if shape == 9:
            target = os.path.join(base, "real-" + name)
            os.symlink(target, os.path.join(hooks, name))
        with open(target, "wb") as f:
            f.write(text.encode())
        os.chmod(target, [0o755, 0o775, 0o700, 0o750, 0o555][(hi + shape) % 5])
        mine[name] = (text, shape)
        modes[name] = os.stat(target).st_mode
    conf0 = read(os.path.join(path, ".git", "config"))
    file0 = settings(r, "--file", os.path.join(path, ".git", "config"))
    eff0 = settings(r)
    installed, main, interpreter = False, None, None
    trace, sections = [], {}
    n = 0
    for step, (kind, where, arg) in enumerate(case["steps"]):
        cwd = {"root": path, "sub": os.path.join(path, "sub"), "tree": tree}[where]
        args, stdin = ["init"], None
        if kind == "init":
            exp = None
            if arg is not None:
                exp = branches[arg % len(branches)]
                args += ["--main-branch", exp]
            elif case["default"] in branches:
                exp = case["default"]
            else:
                exp = next((c for c in CANDIDATES if c in branches), None)
                if exp is None:
                    exp = branches[-1]
                    stdin = exp + "\n"
        else:
            args += ["--uninstall"]
        res = r.run("git-branchless", *args, cwd=cwd, input=stdin)
        trace.append("%s (%s): %r" % (" ".join(args), where, res))
        what = "branches %s, default %s, hooks %s in %s, global aliases %s\n%s" % (branches, case["default"], {k: v[1] for k, v in mine.items()}, place, aliases, "\n".join(trace))
        if kind == "init":
            if res.code != 0:
                raise Violation("P22:init-failed", what)
            installed, main = True, exp
        elif res.code != 0:
            if installed:
                raise Violation("P22:uninstall-failed", what)
            if res.code == 101 or res.code < 0:
                raise Violation("P22:crash", what)
        else:
            installed = False
        # Hooks.
        for name, (text, shape) in mine.items():
            now = read(os.path.join(hooks, name))
            want, _, _ = user_part(text)
            got, count, open_ = user_part(now)
            if got != want:
                raise Violation("P22:hook-text", "%s: the user's part is now %r, was %r\n%s" % (name, got, want, what))
            if open_ or (installed and not count and name not in ("pre-commit", "commit-msg")) or (name in ("pre-commit", "commit-msg") and now != text):
                raise Violation("P22:hook-section", "%s: %r\n%s" % (name, now, what))
            if name in sections and count != sections[name]:
                raise Violation("P22:hook-repeat", "%s has %d sections, before %d\n%s" % (name, count, sections[name], what))
            if count:
                sections[name] = count
            mode = os.stat(os.path.join(hooks, name)).st_mode
            if mode | 0o111 != modes[name] | 0o111 or not mode & 0o100:
                raise Violation("P22:hook-mode", "%s has mode %o, before %o\n%s" % (name, mode, modes[name], what))
            if shape == 9 and not os.path.islink(os.path.join(hooks, name)):
                raise Violation("P22:hook-link", "%s is no longer a link\n%s" % (name, what))
        # Configuration.
        conf = read(os.path.join(path, ".git", "config"))
        ours = [("include.path", "branchless/config")]
        file1 = settings(r, "--file", os.path.join(path, ".git", "config"))
        if [e for e in file1 if e not in ours] != file0:
            raise Violation("P22:config", "the repository's configuration changed: %s\n%s" % (sorted(set(file1) ^ set(file0)), what))
        lines = conf.split("\n")
        pos = 0
        for line in conf0.rstrip("\n").split("\n"):
            while pos < len(lines) and lines[pos] != line:
                pos += 1
            if pos == len(lines):
                raise Violation("P22:config-text", "the line %r is gone from %r\n%s" % (line, conf, what))
            pos += 1
        if len(file1) - len(file0) != (1 if installed else 0):
            raise Violation("P22:config-repeat", "%s\n%s" % (file1, what))
        for where2, d in (("root", path), ("tree", tree)):
            eff = r.run("git", "config", "-z", "--list", cwd=d).out.split("\0")
            eff = {e.partition("\n")[0]: e.partition("\n")[2] for e in eff if e}
            if installed:
                wanted = dict(eff0)
                for a in aliases:
                    if eff.get("alias." + a) != wanted["alias." + a]:
                        raise Violation("P22:alias", "alias %s is now %r\n%s" % (a, eff.get("alias." + a), what))
                for a in INSTALLED:
                    if a not in aliases and not eff.get("alias." + a, "").startswith("branchless"):
                        raise Violation("P22:alias-missing", "alias %s is %r in %s\n%s" % (a, eff.get("alias." + a), where2, what))
                if eff.get("branchless.core.mainbranch") != main:
                    raise Violation("P22:main", "main branch is %r, expected %r\n%s" % (eff.get("branchless.core.mainbranch"), main, what))
                bad = [k for k, v in wanted.items() if eff.get(k) != v and k != "include.path"]
            else:
                wanted = dict(eff0)
                bad = [k for k in set(eff) | set(wanted) if eff.get(k) != wanted.get(k)]
            if bad:
                raise Violation("P22:effective", "in %s these settings changed: %s\n%s" % (where2, sorted(bad), what))
        # Do the hooks work?
        for d in ((path, tree) if case["order"] else (tree, path)):
            n += 1
            if step < len(case["steps"]) - 1 and n % 2:
                continue
            for f in (log, calls):
                if os.path.exists(f):
                    os.unlink(f)
            start = r.run("git", "rev-parse", "HEAD", cwd=d).out.strip()
            r.run("git", "checkout", "-q", "--detach", cwd=d, check=0)
            cd = os.path.join(d, "sub") if n // 2 % 2 == case["order"] else d
            with open(os.path.join(d, "sub", "file"), "w") as f:
                f.write("%d\n" % n)
            r.run("git", "commit", "-q", "-a", "-m", "work %d" % n, cwd=cd, check=0)
            first = r.run("git", "rev-parse", "HEAD", cwd=d).out.strip()
            r.run("git", "commit", "-q", "--amend", "-m", "amended %d" % n, cwd=cd, check=0)
            new = r.run("git", "rev-parse", "HEAD", cwd=d).out.strip()
            r.run("git", "checkout", "-q", "--detach", start, cwd=cd, check=0)
            r.run("git", "merge", "-q", "--ff-only", new, cwd=cd, check=0)
            r.run("git", "checkout", "-q", "--detach", start, cwd=cd, check=0)
            ran = set(read(log).split()) if os.path.exists(log) else set()
            if place == "local-rel" and d == tree:
                continue                    # Git looks for the hooks in the worktree.
            missing = {h for h in mine if h in RUN} - ran
            if missing and installed and all(mine[h][1] == PYTHON for h in missing):
                interpreter = "the user's %s did not run in %s\n%s" % (sorted(missing), d, what)
            elif missing:
                raise Violation("P22:hook-lost", "the user's %s did not run in %s\n%s" % (sorted(missing), d, what))
            called = read(calls).splitlines() if os.path.exists(calls) else []
            if installed:
                if not called and not interpreter:
                    raise Violation("P22:hook-dead", "git-branchless was not called in %s\n%s" % (cd, what))
                kinds = {l.split()[1] for l in called if l.startswith("hook ")}
                want = {"post-commit", "post-checkout", "post-rewrite", "reference-transaction", "post-merge"}
                want -= {h for h in mine if mine[h][1] == PYTHON}
                if not want <= kinds:
                    raise Violation("P22:hook-dead", "in %s git-branchless was not called for %s\n%s" % (cd, sorted(want - kinds), what))
                vis = r.run("git-branchless", "query", "-r", "draft()", cwd=cd, check=0).out.split()
                if interpreter is None and (new not in vis or first in vis):
                    raise Violation("P22:tracking", "a commit amended in %s is not tracked: %s and %s, visible %s\n%s" % (cd, first, new, vis, what))
            elif called:
                raise Violation("P22:left", "git-branchless is still called: %s\n%s" % (called, what))
    if interpreter:
        raise Violation("P22:interpreter", interpreter)
    kinds = [s[0] for s in case["steps"]]
    return {"nontrivial": bool(mine or aliases or case["config"]) and len(kinds) >= 2,
            "labels": ["place:" + place, "steps:%s" % "".join(k[0] for k in kinds)] + ["from:" + s[1] for s in case["steps"]] + ["shape:%d" % v[1] for v in mine.values()]}


PARTS = [Part("init", CASE, run, 260, 12000)]
