"""Shared by the properties about `git move`."""
from hypothesis import strategies as st

from engine import model, moves, observe, scenario
from engine.runner import Skip, Violation


def case_strategy(max_commits=7, edits=None, dups=6, **kw):
    return st.fixed_dictionaries({
        "scn": scenario.scenario_strategy(max_commits=max_commits, min_commits=3, edits=edits, dups=dups, inverses=6, ghosts=True),
        "rq": moves.request_strategy(**kw),
    })


class MoveRun:
    """Runs the request of a case and gathers what the oracles look at."""

    def __init__(self, ctx, case, extra=(), need=None, prepare=None):
        self.w = scenario.plan(case["scn"])
        self.rq = moves.Request(self.w, case["rq"])
        self.refused = self.conflict = None
        self.np = self.explicit = self.out = None
        try:
            self.np, self.explicit = moves.new_parents(self.w, self.rq)
            self.out = moves.outcome(self.w, self.np, self.explicit)
        except moves.Refused as e:
            self.refused = str(e)
        except model.Conflict as e:
            self.conflict = e
        except model.Ambiguous as e:
            raise Skip(str(e))
        self.kind = "refused" if self.refused else "conflict" if self.conflict else "ok"
        if need is not None and self.kind not in need:
            raise Skip("outcome is " + self.kind)
        if need is not None and self.kind == "conflict" and self.rq.disk:
            raise Skip("on-disk conflict")
        self.r, _ = scenario.build(ctx.arena, case["scn"], self.w)
        if prepare:
            prepare(self.r, self.w)
        self.before = observe.full_state(self.r)
        self.visible_before = self.r.visible()
        self.res = self.r.gb(*self.rq.args(self.w, extra))
        self.labels = ["mode:" + self.rq.mode, "kind:" + self.kind] + (["insert"] if self.rq.insert else []) + (["on-disk"] if self.rq.disk else []) + (["hidden"] if self.w.ghosts else [])
        if self.out is not None:
            self.labels.append("rewritten:%d" % min(len(self.out.rewritten), 5))
            if self.out.dropped:
                self.labels.append("dropped")

    def context(self):
        w = self.w
        g = ["%s <- %s%s" % (c.name, ",".join(c.parents), " (main)" if c.main else "") for c in w.commits]
        g += ["%s <- %s (hidden)" % (c.name, ",".join(c.parents)) for c in w.ghosts]
        return "graph: %s\nHEAD %s branches %s\nrequest: %s\n%r" % (
            "; ".join(g), w.head, w.branches,
            "mode=%s src=%s dst=%s insert=%s disk=%s" % (self.rq.mode, self.rq.src, self.rq.dst, self.rq.insert, self.rq.disk), self.res)

    def require_success(self, prop):
        if self.res.code != 0:
            raise Violation(prop + ":failed", "a request whose changes apply cleanly did not succeed\n" + self.context())

    def versions(self, prop):
        """{name: oid} of the visible drafts afterwards (each exactly once)."""
        vis = self.r.visible()
        groups = observe.by_subject(self.r, vis)
        for name, oids in groups.items():
            if len(oids) != 1:
                raise Violation(prop + ":duplicate", "%s is visible %d times\n%s" % (name, len(oids), self.context()))
        return {n: o[0] for n, o in groups.items()}
