"""Reference model of file contents and of three-way application of changes.

A file is a generation id plus four slots; it renders to text in which slots
are separated by unique context lines, so that a line-based merge behaves
exactly like a slot-wise merge. Generations (and paths) are part of every
line, so two files are never similar enough to look like a rename.
"""
import hashlib

SLOTS = 4
PATHS = ["a", "b", "d/x", "d/y", "d/e/z", "g/h/i", "k", "d", "a/q", "g"]
# The first entries are what most edits touch; the last three force
# file<->directory transitions.


class F(tuple):
    """('f', gen, slots, exec) or ('l', target)"""


def mkfile(gen, slots=(0,) * SLOTS, ex=False):
    return ("f", gen, tuple(slots), bool(ex))


def mklink(target):
    return ("l", target)


def render(path, node):
    if node[0] == "l":
        return ("120000", node[1].encode())
    _, gen, slots, ex = node
    lines = []
    for k, v in enumerate(slots):
        for j in range(4):
            h = hashlib.sha1(("%s|%s|%d|%d" % (path, gen, k, j)).encode()).hexdigest()[:16]
            lines.append("%s %s" % (h, h[::-1]))
        lines.append("%s %s slot %d is %s" % (hashlib.sha1((path + str(gen)).encode()).hexdigest()[:8], gen, k, v))
    for j in range(4):
        h = hashlib.sha1(("%s|%s|end|%d" % (path, gen, j)).encode()).hexdigest()[:16]
        lines.append("%s %s" % (h, h[::-1]))
    return ("100755" if ex else "100644", ("\n".join(lines) + "\n").encode())


def render_tree(tree):
    return {p: render(p, n) for p, n in tree.items()}


def place(tree, path, node):
    """Puts a file at `path`, clearing whatever stands in its way."""
    t = {p: n for p, n in tree.items()
         if not p.startswith(path + "/") and not path.startswith(p + "/")}
    t[path] = node
    return t


BASE = {p: mkfile("g0") for p in ("a", "b", "d/x", "d/y", "d/e/z", "k")}

EDIT_KINDS = ("slot", "slot", "slot", "slot", "delete", "chmod", "link", "fresh", "rmdir")


def apply_edit(tree, edit, uid):
    """edit: [kind, path index, slot, value]; `uid` makes fresh values unique."""
    kind, pi, slot, val = edit
    path = PATHS[pi % len(PATHS)]
    slot %= SLOTS
    cur = tree.get(path)
    v = val if val else "u%s" % uid
    if kind == "slot":
        if cur is not None and cur[0] == "f":
            slots = list(cur[2])
            slots[slot] = v
            return place(tree, path, ("f", cur[1], tuple(slots), cur[3]))
        return place(tree, path, mkfile("g%s" % uid))
    if kind == "delete":
        if cur is not None:
            t = dict(tree)
            del t[path]
            return t
        return place(tree, path, mkfile("g%s" % uid))
    if kind == "chmod":
        if cur is not None and cur[0] == "f":
            return place(tree, path, ("f", cur[1], cur[2], not cur[3]))
        return place(tree, path, mkfile("g%s" % uid, ex=True))
    if kind == "link":
        return place(tree, path, mklink("target-%s" % v))
    if kind == "fresh":
        return place(tree, path, mkfile("g%s" % uid))
    if kind == "rmdir":
        d = path.split("/")[0]
        t = {p: n for p, n in tree.items() if p != d and not p.startswith(d + "/")}
        if val:
            t[d] = mkfile("g%s" % uid)
        return t
    raise AssertionError(kind)


PLACES = [(p, k) for k in range(SLOTS) for p in range(len(PATHS)) if PATHS[p] in BASE]


def apply_edits(tree, edits, uid):
    """An "own" edit touches a place of its own for each commit, so that
    such commits rarely conflict."""
    base = int(uid[1:]) + (13 if uid[0] == "m" else 0) if uid[1:].isdigit() else 0
    for i, e in enumerate(edits):
        if e[0] == "own":
            pi, slot = PLACES[(base + 7 * i + 5 * e[1] + e[2]) % len(PLACES)]
            e = ["slot", pi, slot, e[3]]
        tree = apply_edit(tree, e, "%s.%d" % (uid, i))
    return tree


class Conflict(Exception):
    def __init__(self, paths):
        Exception.__init__(self, "conflict in %s" % sorted(paths))
        self.paths = set(paths)


class Ambiguous(Exception):
    """The outcome is not determined by the model; the case is set aside."""


def merge3(base, ours, theirs):
    res, bad = {}, set()
    for p in set(base) | set(ours) | set(theirs):
        b, o, t = base.get(p), ours.get(p), theirs.get(p)
        if o == t or t == b:
            n = o
        elif o == b:
            n = t
        elif b and o and t and b[0] == o[0] == t[0] == "f" and (b[1:3] == o[1:3] or b[1:3] == t[1:3] or o[1:3] == t[1:3]):
            # Contents and modes are merged separately.
            ex = o[3] if (o[3] == t[3] or t[3] == b[3]) else t[3]
            n = ("f",) + (t[1:3] if b[1:3] == o[1:3] else o[1:3]) + (ex,)
        elif b and o and t and b[0] == o[0] == t[0] == "f" and b[1] == o[1] == t[1]:
            slots = []
            for sb, so, st in zip(b[2], o[2], t[2]):
                if so == st or st == sb:
                    slots.append(so)
                elif so == sb:
                    slots.append(st)
                else:
                    bad.add(p)
                    slots.append(so)
            ex = o[3] if (o[3] == t[3] or t[3] == b[3]) else t[3]
            n = ("f", b[1], tuple(slots), ex)
        else:
            bad.add(p)
            n = None
        if n is not None:
            res[p] = n
    for p in res:
        parts = p.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in res:
                bad.add(p)
    if bad:
        raise Conflict(bad)
    return res


def patch_key(parent, tree):
    """What `git patch-id` would look at; None for an empty patch."""
    key = []
    for p in sorted(set(parent) | set(tree)):
        a, b = parent.get(p), tree.get(p)
        if a == b:
            continue
        if a and b and a[0] == b[0] == "f" and a[1] == b[1]:
            key.append((p, a[1], tuple((k, x, y) for k, (x, y) in enumerate(zip(a[2], b[2])) if x != y), a[3] != b[3]))
        else:
            key.append((p, a, b))
    return tuple(key) or None


def mode_only(key):
    """Patch ids do not tell mode-only changes apart."""
    return any(len(k) == 4 and k[3] for k in key or ())
