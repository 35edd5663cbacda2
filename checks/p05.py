"""P05: public commits are never rewritten without an explicit force."""
from hypothesis import strategies as st

from engine import model, moves, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P05"
LEVEL = "exploration"
RULE = ("Random forests over a main branch of one to five commits and random rewriting requests (move -s/-b/-x with --insert/--fixup, reword, amend, "
        "test fix) aimed at public and draft commits alike. If the closure of the request contains a public commit the command must fail and leave "
        "everything as it was; otherwise it must not be refused as public; with --force-rewrite the request goes ahead. "
        "Non-trivial: the closure contains a public commit.")
ASSUMPTIONS = ["Public means reachable from the local main branch `master`."]

EDITS = st.lists(st.tuples(st.just("own"), st.integers(0, 2), st.just(0), st.just(0)).map(list), min_size=1, max_size=2)
SCN = scenario.scenario_strategy(max_main=4, max_commits=5, min_commits=1, edits=EDITS, dups=0)

MOVE = st.fixed_dictionaries({
    "scn": SCN,
    "mode": st.sampled_from(["s", "x", "b"]),
    "src": st.lists(SEL, min_size=1, max_size=2),
    "dst": SEL,
    "flag": st.sampled_from(["", "", "--insert", "--fixup"]),
    "pub": st.booleans(),
})


def graph(w):
    return "graph: %s\nHEAD %s branches %s" % ("; ".join("%s <- %s%s" % (c.name, c.parents, " (main)" if c.main else "") for c in w.commits), w.head, w.branches)


def requested(w, mode, src, dst, flag):
    """{commit: new parent or a fold}, None if not decided here."""
    np = {c.name: (c.parents[0] if c.parents else None) for c in w.commits}
    explicit = set()
    par = lambda n: w.by_name[n].parents[0]
    if mode == "b":
        da = w.ancestors(dst)
        n = src[0]
        if n in da or dst in w.ancestors(n):
            raise Skip("base related to destination")
        while par(n) not in da:
            n = par(n)
        src, mode = [n], "s"
    if mode == "s":
        roots = src[:1]
        moved = w.descendants(roots[0])
    else:
        moved = set(src)
        roots = [n for n in moved if par(n) not in moved]
        if len(roots) != 1:
            raise Skip("several pieces")
    root = roots[0]
    if dst in moved:
        raise Skip("destination is moved")
    if flag == "--fixup" and (mode == "s" and len(moved) > 1 or len(moved) > 1):
        raise Skip("several commits to fold")
    if mode == "x":
        for c in w.commits:
            if c.name not in moved and c.parents and c.parents[0] in moved:
                np[c.name] = par(root)
                explicit.add(c.name)
    if flag == "--fixup":
        explicit |= {dst, root}
    else:
        np[root] = dst
        explicit.add(root)
    if flag == "--insert":
        heads = [n for n in moved if not any(k in moved for k in w.children(n))]
        if len(heads) != 1:
            raise Skip("several heads")
        for c in w.children(dst):
            if c not in moved:
                np[c] = heads[0]
                explicit.add(c)
    for n in np:
        seen, x = set(), n
        while x is not None:
            if x in seen:
                raise Skip("cycle")
            seen.add(x)
            x = np[x]
    closure, grew = set(explicit), True
    while grew:
        grew = False
        for n, p in np.items():
            if n not in closure and p in closure:
                closure.add(n)
                grew = True
    return np, explicit, closure, src, mode


def run_move(ctx, case):
    w = scenario.plan(case["scn"])
    names = [c.name for c in w.commits[1:]] if case["pub"] else [c.name for c in w.drafts]
    src = []
    for s in case["src"]:
        n = pick(names, s)
        if n not in src:
            src.append(n)
    dst = pick([c.name for c in w.commits], case["dst"])
    if case["mode"] != "x":
        src = src[:1]
    np, explicit, closure, _, _ = requested(w, case["mode"], src, dst, case["flag"])
    public = {n for n in closure if w.by_name[n].main}
    if "m0" in closure:
        raise Skip("root commit")
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    args = ["move"]
    for n in src:
        args += ["-" + case["mode"], w.by_name[n].oid]
    args += ["-d", w.by_name[dst].oid] + ([case["flag"]] if case["flag"] else [])
    before, vis = observe.full_state(r), r.visible()
    res = r.gb(*args)
    context = "%s\nmove -%s %s -d %s %s; would rewrite public %s\n%r" % (graph(w), case["mode"], src, dst, case["flag"], sorted(public), res)
    labels = ["mode:" + case["mode"], "flag:" + case["flag"], "public" if public else "draft"]
    if not public:
        if res.code != 0 and "conflict" not in res.text:
            raise Violation("P05:refused-draft", "no public commit is concerned but the request was refused\n" + context)
        if r.refs().get("refs/heads/master") != before["refs"]["refs/heads/master"]:
            raise Violation("P05:main-moved", "the main branch moved\n" + context)
        return {"nontrivial": False, "labels": labels}
    if res.code == 0:
        raise Violation("P05:rewritten", "a public commit would be rewritten but the command succeeded\n" + context)
    after = observe.full_state(r)
    if after != before or r.visible() != vis:
        raise Violation("P05:changed", "refused, but: %s\n%s" % (observe.diff_state(before, after), context))
    res = r.gb(*args, "--force-rewrite")
    context += "\nforced: %r" % res
    if "conflict" in res.text:
        return {"nontrivial": True, "labels": labels + ["forced:conflict"]}
    if res.code != 0:
        raise Violation("P05:force", "the forced request did not go ahead\n" + context)
    # The new main branch has the requested shape.
    main_tip = w.mains[-1].name
    if case["flag"] != "--fixup" and main_tip in closure:
        chain, x = [], main_tip
        while x is not None:
            chain.append(x)
            x = np[x]
        have, o = [], r.refs()["refs/heads/master"]
        while o is not None:
            c = r.commit(o)
            have.append(c.subject.split(" ")[0])
            o = c.parents[0] if c.parents else None
        if have != chain:
            raise Violation("P05:force-shape", "forced: main branch is %s, expected %s\n%s" % (have, chain, context))
    return {"nontrivial": True, "labels": labels + ["forced:ok"]}


OTHER = st.fixed_dictionaries({
    "scn": SCN,
    "cmd": st.sampled_from(["reword", "reword", "amend", "fix", "reword-fixup"]),
    "targets": st.lists(SEL, min_size=1, max_size=3),
})


def run_other(ctx, case):
    w = scenario.plan(case["scn"])
    cmd = case["cmd"]
    names = [c.name for c in w.commits]
    targets = sorted({pick(names, s) for s in case["targets"]})
    closure = set()
    for n in targets:
        closure |= w.descendants(n)
    if cmd == "amend":
        targets = [w.head[0]]
        closure = w.descendants(w.head[0])
    if cmd == "fix":
        targets = [t for t in targets if t != "m0"] or ["c0"]
        closure = set().union(*[w.descendants(t) for t in targets])
    public = {n for n in closure if w.by_name[n].main}
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    oids = [w.by_name[n].oid for n in targets]
    if cmd == "reword":
        args = ["reword", "-m", "changed"] + oids
    elif cmd == "reword-fixup":
        if len(targets) < 2:
            raise Skip("needs two")
        args = ["reword", "--fixup", oids[0], oids[1]]
        closure = w.descendants(targets[1])
        public = {n for n in closure if w.by_name[n].main}
        if targets[0] not in w.ancestors(targets[1]):
            raise Skip("fixup target must be an ancestor")
    elif cmd == "amend":
        r.put_file("a", "100644", b"amended\n")
        args = ["amend"]
    else:
        args = ["test", "fix", "-x", "echo fixed >>k", " + ".join(oids), "--no-cache", "--strategy", "working-copy"]
    before, vis = observe.full_state(r), r.visible()
    res = r.gb(*args)
    context = "%s\n%s %s; would rewrite public %s\n%r" % (graph(w), cmd, targets, sorted(public), res)
    labels = ["cmd:" + cmd, "public" if public else "draft"]
    if not public:
        if res.code != 0 and "conflict" not in res.text:
            raise Violation("P05:refused-draft", "no public commit is concerned but the request was refused\n" + context)
        return {"nontrivial": False, "labels": labels}
    if res.code == 0:
        raise Violation("P05:rewritten", "a public commit would be rewritten but the command succeeded\n" + context)
    after = observe.full_state(r)
    if after != before or r.visible() != vis:
        raise Violation("P05:changed", "refused, but: %s\n%s" % (observe.diff_state(before, after), context))
    return {"nontrivial": True, "labels": labels}


PARTS = [
    Part("move", MOVE, run_move, 3600, 60000),
    Part("other", OTHER, run_other, 1200, 25000),
]
