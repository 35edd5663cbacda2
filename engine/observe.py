"""Reading back repositories after a command, in terms of a World."""
from . import model
from .gitrepo import HarnessError
from .runner import Violation


def full_state(r, work=True):
    """Everything a user can see; compared before/after."""
    s = {"refs": r.user_refs(), "head": r.head()}
    if work:
        s["index"] = r.index()
        s["work"] = r.worktree()
    return s


def diff_state(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict):
                ks = [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)]
                out.append("%s: %s" % (k, "; ".join("%r: %s -> %s" % (x, short(a[k].get(x)), short(b[k].get(x))) for x in sorted(ks, key=repr)[:8])))
            else:
                out.append("%s: %r -> %r" % (k, a[k], b[k]))
    return "\n".join(out)


def short(v):
    s = repr(v)
    return s if len(s) < 90 else s[:80] + "..." + str(len(s))


def by_subject(r, oids):
    """{first word of the subject: [oids]}"""
    res = {}
    for o in oids:
        c = r.commit(o)
        if c is None:
            raise Violation("missing-commit", "visible commit %s does not exist" % o)
        res.setdefault(c.subject.split(" ")[0], []).append(o)
    return res


def describe(r, w=None):
    lines = [r.gb("smartlog").out]
    return "\n".join(lines)
