"""P18: reword changes only the messages of the selected commits."""
import os
import shlex

from hypothesis import strategies as st

from checks import p03
from engine import observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P18"
LEVEL = "exploration"
RULE = ("Random forests and selections of commits; messages given with -m (any number of times), --fixup, or through an editor (with and without --discard) that "
        "rewrites, empties, drops, repeats, reorders or misnames sections, or fails. Every resulting message is compared with `git stripspace` of the requested "
        "text; contents, authors, parents, branches and HEAD with the original graph; and a refused edit with the state before. "
        "Non-trivial: a selected commit has a descendant that is not selected, or several commits were edited at once, or the edit had to be refused.")
ASSUMPTIONS = ["`git stripspace` is right.", "Messages are valid UTF-8.",
               "A line that starts with `++ reword` is a section header, as in the text that the editor is given."]

LINES = ["word", "", "# comment", "second word", "  indented", "trailing  \t", "é中文 ünï", "; semicolon", "see ++ reword for details", " ++ reword", "#tag",
         "-- dashes", "a\tb", "Signed-off-by: A <a@b.c>"]
TEXT = st.lists(st.sampled_from(LINES), min_size=1, max_size=5).map("\n".join)
SECTION = st.one_of(st.tuples(st.just("text"), TEXT), st.tuples(st.just("text"), TEXT), st.tuples(st.just("text"), TEXT), st.tuples(st.just("keep"), TEXT), st.tuples(st.just("append"), TEXT),
                    st.tuples(st.sampled_from(["empty", "drop", "twice", "wrong", "comment"]), TEXT)).map(list)
SCN = scenario.scenario_strategy(max_commits=7, min_commits=2, merges=True, branches=3)
CASE = st.fixed_dictionaries({
    "scn": SCN,
    "targets": st.lists(SEL, min_size=0, max_size=4),
    "public": st.sampled_from([0, 0, 0, 0, 0, 1]),
    "mode": st.sampled_from(["m", "editor", "editor", "editor", "discard", "fixup"]),
    "messages": st.lists(TEXT, min_size=1, max_size=3),
    "fixup": SEL,
    "sections": st.lists(SECTION, min_size=1, max_size=4),
    "preface": st.sampled_from(["", "", "", "", "stray text", "# a comment"]),
    "order": st.integers(0, 5),
    "fail": st.sampled_from([0] * 9 + [1]),
    "noop": st.sampled_from([0] * 9 + [1]),
    "comment_char": st.sampled_from(["", "", ";"]),
})


def stripspace(r, text, comments):
    return r.run("git", "stripspace", *(["-s"] if comments else []), input=text.encode()).out


def edited_messages(r, text, shorts):
    """The message of each selected commit, or None if the edit is refused."""
    clean = stripspace(r, text, True)
    if not clean.strip():
        return None
    lines = clean.split("\n")
    if not any(l.startswith("++ reword") for l in lines) and len(shorts) == 1:
        return {list(shorts)[0]: clean}
    cur, secs, pre = None, [], []
    for l in lines:
        if l.startswith("++ reword"):
            cur = []
            secs.append((l[len("++ reword"):].strip(), cur))
        else:
            (pre if cur is None else cur).append(l)
    if "".join(pre).strip():
        return None
    names = [n for n, _ in secs]
    if sorted(names) != sorted(shorts):
        return None
    res = {n: stripspace(r, "\n".join(ls), True) for n, ls in secs}
    if not all(m.strip() for m in res.values()):
        return None
    return res


def make_edit(case, w, targets, shorts, discard):
    out = [case["preface"]] if case["preface"] else []
    order = list(targets)
    if case["order"] % 2:
        order.reverse()
    k = case["order"] % len(order)
    order = order[k:] + order[:k]
    single = len(order) == 1
    for i, n in enumerate(order):
        kind, text = case["sections"][i % len(case["sections"])]
        old = w.by_name[n].message.strip()
        body = {"text": text, "keep": old, "append": old + "\n\n" + text, "empty": "", "comment": "# only a comment\n; only", "twice": text, "wrong": text, "drop": ""}[kind]
        head = "++ reword %s\n" % shorts[n]
        if single and kind not in ("twice", "wrong") and case["order"] < 4:
            head = ""
        if kind == "drop" and not single:
            continue
        if kind == "wrong":
            head = "++ reword %s\n" % ("0123456789ab" if i % 2 else "abc")
        out.append(head + body)
        if kind == "twice":
            out.append(head + "again")
    return "\n\n".join(out) + "\n\n# trailing help text\n"


def run(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    if case["comment_char"]:
        r.git("config", "core.commentChar", case["comment_char"])
    drafts = [c.name for c in w.drafts]
    targets = sorted({pick(drafts, s) for s in case["targets"]}, key=lambda n: [c.name for c in w.commits].index(n))
    args = ["reword"]
    mode = case["mode"]
    public = False
    if not targets:
        targets = [w.head[0]]
        public = w.by_name[w.head[0]].main
        revs = ["HEAD"]
    else:
        if case["public"]:
            targets.append("m0")
            public = True
        revs = [w.by_name[n].oid for n in targets]
    shorts = {n: r.git("rev-parse", "--short", w.by_name[n].oid).out.strip() for n in targets}
    env, edit, seen = {}, None, os.path.join(ctx.arena.home, "seen")
    if os.path.exists(seen):
        os.unlink(seen)
    want = None
    if mode == "m":
        for m in case["messages"]:
            args += ["-m", m] if not m.startswith("-") else ["--message=" + m]
        full = "\n\n".join(case["messages"]).strip()
        clean = stripspace(r, full, False)
        if not full:
            raise Skip("empty -m opens the editor")
        want = {n: clean for n in targets} if clean.strip() else None
    elif mode == "fixup":
        anc = pick([c.name for c in w.commits], case["fixup"])
        args += ["--fixup", w.by_name[anc].oid]
        ok = all(anc in w.ancestors(n) for n in targets)
        subject = r.git("log", "-1", "--format=%s", w.by_name[anc].oid).out.strip("\n")
        if "\t" in subject or "  " in subject:
            raise Skip("unusual subject")
        want = {n: stripspace(r, "fixup! " + subject, False) for n in targets} if ok else None
    else:
        if mode == "discard":
            args += ["--discard"]
        edit = make_edit(case, w, targets, shorts, mode == "discard")
        path = os.path.join(ctx.arena.home, "edited")
        with open(path, "w") as f:
            f.write(edit)
        script = os.path.join(ctx.arena.home, "ed.sh")
        with open(script, "w") as f:
            f.write('#!/bin/sh\ncat "$1" > %s\n%s\n%s\n' % (shlex.quote(seen), "" if case["noop"] else 'cat %s > "$1"' % shlex.quote(path), "exit 1" if case["fail"] else "exit 0"))
        env["GIT_EDITOR"] = "sh " + script
        by_short = edited_messages(r, edit, list(shorts.values()))
        want = None if by_short is None else {n: by_short[shorts[n]] for n in targets}
        if case["noop"] or case["fail"]:
            want = None
    if public:
        want = None
    before = observe.full_state(r)
    vis_before = r.visible()
    res = r.gb(*args, *(["--"] + revs if revs else []), env=env)
    context = "graph: %s\nHEAD %s branches %s\nmode %s targets %s\n%r\n%s" % (
        "; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), w.head, w.branches, mode, [(n, shorts[n]) for n in targets], res,
        "edited text:\n%s" % edit if edit is not None else "")
    labels = ["mode:" + mode, "selected:%d" % min(len(targets), 4), "refused" if want is None else "done"]
    if want is None:
        after = observe.full_state(r)
        if after != before or r.visible() != vis_before:
            raise Violation("P18:refused-changed", "a reword that had to be refused changed something: %s\n%s" % (observe.diff_state(before, after), context))
        if res.code == 0:
            raise Violation("P18:refused-silently", "a reword that had to be refused reports success\n" + context)
        return {"nontrivial": True, "labels": labels + (["failing editor"] if case["fail"] and edit else [])}
    merges = [c.name for c in w.commits if len(c.parents) > 1]
    if any(m in w.descendants(n) for n in targets for m in merges):
        # Merge commits cannot be rebuilt in memory, and reword does nothing else.
        after = observe.full_state(r)
        if res.code != 0:
            if after != before or r.visible() != vis_before:
                raise Violation("P18:refused-changed", "a refused reword changed something: %s\n%s" % (observe.diff_state(before, after), context))
            return {"nontrivial": True, "labels": labels + ["refused: merge"]}
    if res.code != 0:
        raise Violation("P18:failed", context)
    if edit is not None:
        with open(seen) as f:
            shown = f.read()
        for n in targets:
            if mode == "editor" and w.by_name[n].message.strip() not in shown:
                raise Violation("P18:shown", "the editor was not given the message of %s:\n%s\n%s" % (n, shown, context))
    rewritten = set()
    for n in targets:
        rewritten |= w.descendants(n)
    new = {}
    vis = r.visible()
    for c in w.commits:
        if c.name not in rewritten:
            new[c.name] = c.oid
            continue
        old = r.commit(c.oid)
        msg = want[c.name].encode() if c.name in targets else old.message
        kids = [o for o in vis if r.commit(o).parents == [new[p] for p in c.parents]]
        cand = [o for o in kids if r.commit(o).tree == old.tree and r.commit(o).author == old.author and r.commit(o).message == msg]
        if len(cand) != 1:
            raise Violation("P18:version", "%s has %d new versions with message %r; commits at its place: %s\n%s" % (
                c.name, len(cand), msg, [(o, r.commit(o).message, r.commit(o).tree == old.tree) for o in kids], context))
        new[c.name] = cand[0]
    extra = [o for o in vis if o not in new.values()]
    if extra:
        raise Violation("P18:extra", "more commits are visible: %s\n%s" % ([(o, r.commit(o).message) for o in extra], context))
    p03.check_refs("P18", r, w, before, {n: new[n] for n in rewritten}, context)
    return {"nontrivial": bool(rewritten - set(targets)) or len(targets) > 1,
            "labels": labels + (["merges"] if any(len(w.by_name[n].parents) > 1 for n in rewritten) else []), "note": ""}


PARTS = [Part("reword", CASE, run, 2600, 80000)]
