#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The properties are kept here as Python so
that they can be edited comfortably; the JSONL file is the deliverable."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for (n, m, w) in state],
            "mechanism": [dict(name=n, where=w) for (n, w) in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop(
    "P01", "Moving commits preserves each commit's own change and its metadata",
    """When `git move` (in memory or with `--on-disk`) rewrites commits, every rewritten commit
    carries exactly the file changes it made before (the three-way application of its own diff onto
    its new parent, including file additions, deletions, mode changes, symlinks and file/directory
    replacements), with its message, author name, author email and author date unchanged.
    A commit whose change is already contained in its new parent is dropped rather than kept as a
    wrong or empty commit. Nothing that no moved commit touched differs from the new parent.""",
    ["inputs", "histories", "configurations"],
    """Every commit graph, every assignment of edits (content, add, delete, mode, symlink,
    file<->directory, nested paths) to its commits, every selection (-s/-b/-x, --insert) and
    destination, both execution modes.""",
    """The tests rebase a handful of linear stacks with one new text file per commit; the content
    computation works on trees restricted to touched paths, so its correctness depends on the shape of
    the edits (directories emptied, modes, nesting), which the samples never vary.""",
    ["git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/tree.rs",
     "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-move/src/lib.rs"],
    [("restricted cherry-pick: dehydrate trees to touched paths, cherry-pick, hydrate", "git-branchless-lib/src/git/repo.rs cherry_pick_fast"),
     ("tree rebuild from path entries", "git-branchless-lib/src/git/tree.rs hydrate_tree"),
     ("touched path computation", "git-branchless-lib/src/git/tree.rs get_changed_paths_between_trees"),
     ("in-memory plan execution", "git-branchless-lib/src/core/rewrite/execute.rs rebase_in_memory"),
     ("on-disk plan execution through git rebase", "git-branchless-lib/src/core/rewrite/execute.rs rebase_on_disk")],
    observe=["git move", "resulting commit objects"])

prop(
    "P02", "git move produces exactly the requested commit graph",
    """After a successful `git move`, with `--source`/`--base` the selected subtree hangs off the
    destination with its internal shape kept; with `--exact` just the selected commits move (keeping
    their relative order) and their remaining children are reattached to the nearest ancestor left
    behind; `--insert` puts the moved commits between the destination and its former children; and
    `--fixup` squashes the moved commits into the destination commit. Every moved commit appears exactly once in the new
    visible graph, its old version is no longer visible, and every commit outside the moved set and
    its descendants keeps its identity.""",
    ["inputs", "histories"],
    """Every commit forest over a main branch (forks, deep stacks, several roots, shared prefixes),
    every source/base/exact selection and every destination for which the command reports success.""",
    """Tests pin about forty hand-drawn graphs; the planner is a constraint solver over arbitrary
    graphs and sets, so correctness is a statement over all graph shapes.""",
    ["git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-move/src/lib.rs",
     "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/dag.rs"],
    [("constraints of the requested moves and their closure over descendants", "git-branchless-lib/src/core/rewrite/plan.rs RebasePlanBuilder"),
     ("selection of components for exact moves and insertion", "git-branchless-move/src/lib.rs"),
     ("obsolescence of old versions", "git-branchless-hook post-rewrite handling / core/rewrite/rewrite_hooks.rs")],
    observe=["git move", "git query draft()", "parents of commits"])

prop(
    "P03", "Branches and HEAD follow rewritten commits and nothing else moves",
    """After any successful rewriting command (move, reword, amend, restack, sync), every local branch that
    pointed to a rewritten commit points to its new version, the checked-out commit or branch is
    still checked out at its new version. When a commit is dropped because its change is already contained in
    its new parent, its local branches are deleted (never the main branch) and HEAD goes to the commit that took its place. Every other
    branch, every tag and every remote-tracking branch are exactly as before, and index and working copy match the new HEAD.""",
    ["inputs", "histories", "configurations"],
    """All histories, all placements of branches (several per commit, on moved and unmoved commits),
    tags and HEAD (attached/detached), all rewriting commands, both execution modes.""",
    """Tests place at most one or two branches; reference updates are computed from a map of rewrites
    chained over commands, dropped commits and the checkout, so interplay over all placements is what matters.""",
    ["git-branchless-lib/src/core/rewrite/rewrite_hooks.rs", "git-branchless-lib/src/core/rewrite/execute.rs",
     "git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/core/repo_ext.rs"],
    [("branch movement after a rewrite", "git-branchless-lib/src/core/rewrite/execute.rs move_branches"),
     ("check out of the rewritten HEAD", "git-branchless-lib/src/core/rewrite/execute.rs check_out_updated_head"),
     ("post-rewrite processing for on-disk rebases", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs")],
    observe=["git for-each-ref", "HEAD"])

prop(
    "P04", "A rewrite that conflicts or is refused leaves the repository untouched",
    """When a move, restack, sync of one stack, reword or amend-restack cannot be completed without a
    merge conflict and `--merge` was not given, or is refused (cycle, unknown commit, bad revset),
    the command says so and every branch, tag, HEAD, the index, the working copy and the set of visible
    commits (for sync: of that stack) are exactly what they were. Whether it conflicts is decided by the changes alone: a rewrite whose
    changes apply cleanly is never reported as a conflict.""",
    ["inputs", "histories"],
    """All histories and all rewrite requests, with edits that overlap (same line, modify/delete,
    add/add, file/directory) at any depth of the moved subtree, including after several commits were
    already rewritten in memory.""",
    """Tests check a few two-commit conflicts; atomicity must hold whichever commit of whichever
    subtree is the one that conflicts and whatever was rewritten before it.""",
    ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-move/src/lib.rs",
     "git-branchless/src/commands/sync.rs", "git-branchless/src/commands/restack.rs"],
    [("conflict detection before any reference update", "git-branchless-lib/src/core/rewrite/execute.rs rebase_in_memory"),
     ("declaring failure", "git-branchless-lib/src/core/rewrite/execute.rs execute_rebase_plan")],
    observe=["refs, HEAD, index, work tree before/after", "exit code"])

prop(
    "P05", "Public commits are never rewritten without an explicit force",
    """No rewriting command (move, move --fixup/--exact/--insert, reword, amend, restack, sync) changes or
    replaces a commit reachable from the main branch unless `--force-rewrite` is given: it exits with a failure
    and leaves every reference as it was. With the flag the same request proceeds.""",
    ["inputs", "histories", "configurations"],
    """All histories, all requests whose rewritten set intersects the public commits in any position
    (source, ancestor of a draft, fixup destination, insertion point), all main-branch locations.""",
    """Only direct moves and rewords of a public commit are sampled; the protected set is derived from the closure
    of the requested moves, not from the arguments.""",
    ["git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-move/src/lib.rs",
     "git-branchless-reword/src/lib.rs", "git-branchless/src/commands/amend.rs"],
    [("permission check over the rewrite set", "git-branchless-lib/src/core/rewrite/plan.rs RebasePlanPermissions::verify_rewrite_set"),
     ("permission check over all constraint targets", "git-branchless-lib/src/core/rewrite/plan.rs check_permissions")],
    observe=["exit code and refs"])

prop(
    "P06", "Uncommitted work survives every command",
    """Whatever staged, unstaged or untracked changes are present, a move, restack, reword, amend, sync, switch, next,
    prev, hide, undo or test command (without a force flag) either refuses and leaves all of them in
    place, or completes with every changed byte still present: in the working copy, in the index,
    (amend, record) in the commit that was asked to take it, or (undo) in the snapshot that undo takes first. No untracked file is ever overwritten or removed.""",
    ["inputs", "histories"],
    """All combinations of dirty working-copy states (staged only, unstaged only, both in one file,
    deletions, additions, mode changes, symlinks, untracked files colliding with files of other commits) and commands.""",
    """Tests run commands on clean trees or with a single dirty file; data loss depends on the combination
    of dirty state, command and whether the checkout touches the file.""",
    ["git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/git/snapshot.rs",
     "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/git/repo.rs"],
    [("checkout through git checkout (which refuses to clobber)", "git-branchless-lib/src/core/check_out.rs"),
     ("dirty check before on-disk rebases and tests", "git-branchless-lib/src/git/repo.rs has_changed_files"),
     ("snapshot before checkout", "git-branchless-lib/src/core/check_out.rs create_snapshot")],
    observe=["work tree, index and commits before/after"])

prop(
    "P07", "git undo returns to the state before the last operation",
    """After any operation recorded by git-branchless (its own commands, or Git commands observed through
    the hooks or wrapped), `git undo` puts every branch, the checked-out commit and the set of visible commits back to
    what they were just before that operation. Undoing the undo brings back the state after the operation.""",
    ["histories", "inputs"],
    """All histories of operations (commit, amend, branch create/move/delete, move, restack, reword, hide,
    unhide, switch, record, rebase), undone after any prefix, single and repeated.""",
    """Undo tests cover one operation each from a fixed state; the inverse of an event depends on what the earlier
    history recorded about the same commits and references.""",
    ["git-branchless-undo/src/lib.rs", "git-branchless-lib/src/core/eventlog.rs", "git-branchless-hook/src/lib.rs"],
    [("inverse events", "git-branchless-undo/src/lib.rs inverse_event"),
     ("transactions as the unit of undo", "git-branchless-lib/src/core/eventlog.rs advance_cursor_by_transaction"),
     ("event recording", "git-branchless-hook/src/lib.rs")],
    observe=["git undo -y", "refs, HEAD, git query draft()"])

prop(
    "P08", "Visible commits survive garbage collection and hidden ones stay hidden",
    """Running Git's garbage collection with immediate pruning, at any point, any number of times, together with git-branchless' own, never
    removes a visible commit, its ancestors or their files, never changes any branch or HEAD, and leaves the smartlog the same.
    A commit that was obsoleted or hidden, and that no branch or visible commit descends from, does not
    become visible again because of it.""",
    ["histories"],
    """All histories of commits, rewrites, hides, unhides, branch deletions and checkouts, with garbage
    collection interleaved anywhere.""",
    """The gc tests run it once after one or two commits; reachability anchors are created and removed by many
    commands and hooks, so loss depends on their order.""",
    ["git-branchless-lib/src/core/gc.rs", "git-branchless-hook/src/lib.rs", "git-branchless-smartlog/src/lib.rs"],
    [("keep-alive references", "git-branchless-lib/src/core/gc.rs mark_commit_reachable"),
     ("dangling reference collection", "git-branchless-lib/src/core/gc.rs find_dangling_references")],
    observe=["git gc --prune=now", "git branchless gc", "git cat-file"])

prop(
    "P09", "hide and unhide change exactly the requested visibility",
    """`git hide X` removes exactly the selected commits (with `-r` also their visible descendants) from the
    visible set, apart from those kept visible by a branch, HEAD or a visible descendant, and deletes exactly the
    branches on them unless told not to; `git unhide X` makes exactly the selected commits (with `-r` their descendants)
    visible again. Commits, contents and unrelated references do not change.""",
    ["histories", "inputs"],
    """All forests, all selections, flag combinations, repeated and interleaved hide/unhide/branch operations.""",
    """Tests hide one commit of a three-commit stack; visibility is derived from the last event of each commit plus branch,
    HEAD and descendant reachability.""",
    ["git-branchless/src/commands/hide.rs", "git-branchless-lib/src/core/eventlog.rs", "git-branchless-lib/src/core/dag.rs"],
    [("obsolete/unobsolete events", "git-branchless/src/commands/hide.rs"),
     ("visibility closure", "git-branchless-lib/src/core/dag.rs query_visible_commits_slow"),
     ("activity status replay", "git-branchless-lib/src/core/eventlog.rs get_cursor_commit_activity_status")],
    observe=["git query draft()", "git for-each-ref"])

prop(
    "P10", "Every history made with plain Git is tracked faithfully",
    """For any sequence of ordinary Git commands (commit, amend, rebase, cherry-pick, merge, reset, checkout, branch creation,
    renaming and deletion) run with the hooks installed, the visible commits are exactly the commits that were
    created and not since replaced, plus what branches and HEAD keep alive, and their ancestors. A commit replaced by an amend or rebase whose
    children remain is reported as abandoned, and no created commit is silently dropped from view.""",
    ["histories"],
    """All interleavings of Git porcelain commands, from attached and detached HEAD, on any forest.""",
    """Each hook is tested with one invocation; the replayed state is a fold over every reference transaction, commit and rewrite
    event in order, with several events for the same commit.""",
    ["git-branchless-hook/src/lib.rs", "git-branchless-lib/src/core/eventlog.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs"],
    [("post-commit, post-rewrite, reference-transaction hooks", "git-branchless-hook/src/lib.rs"),
     ("event replay", "git-branchless-lib/src/core/eventlog.rs EventReplayer::process_event"),
     ("rewritten commits mapped to latest version", "git-branchless-lib/src/core/rewrite/evolve.rs")],
    observe=["git query draft()", "git smartlog"])

prop(
    "P11", "git restack reattaches every abandoned commit",
    """After commits were replaced (amended, reworded, rebased, possibly several times in a row) with children left behind, `git restack`
    moves each abandoned subtree onto the latest version of its original parent, preserving its commits' changes, shape and branches;
    when it succeeds no abandoned commits remain and running it again does nothing.""",
    ["histories"],
    """All forests and all sequences of plain-Git rewrites of any of their commits, including chains of rewrites of
    the same commit and rewrites at several levels at once.""",
    """Tests restack a three-commit stack after one amend; chained rewrites and nested abandonment are a statement over all rewrite histories.""",
    ["git-branchless/src/commands/restack.rs", "git-branchless-lib/src/core/rewrite/evolve.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
    [("chain of rewrites to the newest version", "git-branchless-lib/src/core/rewrite/evolve.rs find_rewrite_target"),
     ("abandoned children", "git-branchless-lib/src/core/rewrite/evolve.rs find_abandoned_children"),
     ("restack constraints", "git-branchless/src/commands/restack.rs")],
    observe=["git restack", "graph before/after"])

prop(
    "P12", "Revsets evaluate to their set-theoretic meaning on every graph",
    """For every revset expression and every repository, `git query` prints exactly the commits the documented
    definitions denote (set operators, ranges, ancestry, parents/children, roots/heads, stack, draft/public/main, branches, merges, message/author/path
    filters, counted ancestors and parents, aliases), each once, ancestors before descendants. Operator precedence and associativity and explicit parentheses determine
    the grouping, and ill-formed expressions are rejected with an error instead of being misread.""",
    ["inputs", "histories"],
    """All expressions of the grammar (nested, quoted names, all operators and functions) over all commit graphs with merges, several roots,
    branches, hidden commits.""",
    """Tests evaluate a few dozen expressions on one or two graphs; the language is recursive and its evaluator composes graph queries with visibility filtering.""",
    ["git-branchless-revset/src/grammar.lalrpop", "git-branchless-revset/src/eval.rs", "git-branchless-revset/src/builtins.rs",
     "git-branchless-revset/src/resolve.rs", "git-branchless-query/src/lib.rs", "git-branchless-lib/src/core/dag.rs"],
    [("grammar", "git-branchless-revset/src/grammar.lalrpop"), ("builtin functions", "git-branchless-revset/src/builtins.rs"),
     ("graph queries", "git-branchless-lib/src/core/dag.rs"), ("topological output order", "git-branchless-query/src/lib.rs")],
    observe=["git query -r"])

prop(
    "P13", "The smartlog shows exactly the visible commits, correctly connected",
    """For every repository state the smartlog lists every visible commit, HEAD and the main branch exactly once, no hidden commit, draws each commit
    below its nearest shown ancestor, labels each with its branches and marks exactly the checked-out commit; a gap is shown where intermediate commits
    are left out. `--reverse` is the same graph upside down, and a revset argument restricts the shown commits to the requested ones (plus main and HEAD).""",
    ["inputs", "histories"],
    """All forests of draft commits over main, with merges, branches, hidden commits, HEAD anywhere, and all revset arguments.""",
    """Snapshots pin some dozens of drawings; parent/child linking, root merging and ordering are functions of the whole graph.""",
    ["git-branchless-smartlog/src/lib.rs", "git-branchless-lib/src/core/dag.rs", "git-branchless-lib/src/core/node_descriptors.rs"],
    [("graph construction", "git-branchless-smartlog/src/lib.rs build_graph/walk_commits"),
     ("rendering", "git-branchless-smartlog/src/lib.rs get_child_output/get_output")],
    observe=["git smartlog output"])

prop(
    "P14", "Search finds the true boundary for every graph, strategy and result order",
    """For every acyclic graph and every monotone pass/fail labelling, the commit search terminates with exactly the maximal passing and minimal failing
    nodes, whatever strategy is used, however many results arrive concurrently and in whatever order, with indeterminate nodes skipped. It never proposes a node whose result is already known or
    implied, never repeats one, and reports contradictory results as an error instead of giving a wrong answer.""",
    ["inputs", "schedules"],
    """All DAGs, monotone labelings, strategies (linear, reverse, binary), orders of result delivery and speculation depth, indeterminate results.""",
    """One small randomized test exists for termination; result order, parallel speculation, indeterminate nodes and exact bounds are not sampled.""",
    ["scm-bisect/src/search.rs", "scm-bisect/src/basic.rs"],
    [("bounds maintenance", "scm-bisect/src/search.rs notify"), ("speculative search iterator", "scm-bisect/src/search.rs search"),
     ("midpoint strategies", "scm-bisect/src/basic.rs")],
    observe=["search API: success_bounds, failure_bounds, search, notify"])

prop(
    "P15", "git test reports the command's true result for each commit",
    """`git test run` executes the command on exactly the selected commits, each with exactly that commit's files checked out, and reports passed, failed or skipped as
    the command's exit code says, for any number of jobs, either execution strategy, with or without cached results; a cached result is only reused for the same command on the same contents; commits that cannot be checked out without overwriting untracked files are not tested. Afterwards the checked-out commit, branches and working
    copy are as before. With a search strategy it reports the true last passing and first failing commits; `git test fix` replaces each commit's contents by what the command left there
    and keeps the contents of the others.""",
    ["inputs", "histories", "schedules", "configurations"],
    """All stacks and forests, commands whose result is a function of the tree, repeated runs with changed commands and amended commits, job counts, strategies.""",
    """Tests use two- or three-commit stacks and one command per test; caching, parallel scheduling and search interact over run histories.""",
    ["git-branchless-test/src/lib.rs", "git-branchless-test/src/worker.rs", "git-branchless-lib/src/git/test.rs", "scm-bisect/src/search.rs"],
    [("result cache keyed by contents and command", "git-branchless-lib/src/git/test.rs / git-branchless-test/src/lib.rs"),
     ("work queue and workers", "git-branchless-test/src/worker.rs"), ("working copy restoration", "git-branchless-test/src/lib.rs set_abort_trap")],
    observe=["git test run / show / fix", "marker files written by the command"])

prop(
    "P16", "A working-copy snapshot restores exactly",
    """Creating a working-copy snapshot and restoring it later, from any other commit or working-copy state that is clean, gives back the same checked-out commit and branch, the
    same index entries and the same tracked working-copy files (contents, executable bits, symlinks, deletions), for staged, unstaged and mixed changes. Creating a snapshot records the state without needing the user's files afterwards.""",
    ["inputs", "histories"],
    """All working-copy states: every file in any combination of absent/present/modified/mode-changed/symlink in HEAD, index and working copy; branch or detached HEAD.""",
    """Tests snapshot one or two states; round-tripping is a statement over the product of per-file states.""",
    ["git-branchless-lib/src/git/snapshot.rs", "git-branchless-lib/src/git/status.rs", "git-branchless-lib/src/git/index.rs",
     "git-branchless-lib/src/core/check_out.rs", "git-branchless/src/commands/snapshot.rs"],
    [("snapshot commits", "git-branchless-lib/src/git/snapshot.rs WorkingCopySnapshot::create"),
     ("restore", "git-branchless-lib/src/core/check_out.rs restore_snapshot"), ("status parsing", "git-branchless-lib/src/git/status.rs")],
    observe=["git branchless snapshot create/restore", "git status, index, files"])

prop(
    "P17", "amend and record take exactly the chosen changes",
    """`git amend` folds exactly the staged changes (or, when nothing is staged, all changes to tracked files) into HEAD keeping its message and author, and leaves the rest uncommitted and unchanged;
    its descendants are rebased onto it (or, with `--reparent`, keep exactly their contents). `git record` creates one new commit with exactly the staged changes (or all tracked changes if none is staged) on top of HEAD, and with
    `--insert` places it between HEAD and its children, with `--stash` leaves HEAD where it was.""",
    ["inputs", "histories"],
    """All working-copy states and all stacks around HEAD, all flag combinations.""",
    """Tests amend one file of one commit; the resulting tree is assembled from status entries per path and state.""",
    ["git-branchless/src/commands/amend.rs", "git-branchless-record/src/lib.rs", "git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/status.rs"],
    [("amended tree from index or status entries", "git-branchless-lib/src/git/repo.rs amend_fast"), ("descendant restack", "git-branchless/src/commands/amend.rs"),
     ("commit and insertion", "git-branchless-record/src/lib.rs")],
    observe=["commit trees, index, work tree"])

prop(
    "P18", "reword changes only the messages of the selected commits",
    """`git reword` gives every selected commit exactly the requested message, keeps every other commit's message, and keeps every commit's contents, authorship and the shape of the graph; branches and HEAD
    follow. Messages survive the editor round trip byte for byte (apart from stripped comments and trailing blank space), for one or many commits edited at once, and an edit that is empty or names the wrong commits changes nothing.""",
    ["inputs", "histories"],
    """All stacks, all selections, all messages (multi-line, unicode, comment-like and marker-like lines), -m, --fixup, --discard and editor modes.""",
    """Tests use short single-line messages and simple stacks.""",
    ["git-branchless-reword/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
    [("message edit and parsing", "git-branchless-reword/src/lib.rs"), ("metadata-only replacement", "git-branchless-lib/src/core/rewrite/plan.rs replace_commit")],
    observe=["git reword", "commit messages and trees"])

prop(
    "P19", "next, prev and switch go exactly where the graph says",
    """`git next`/`git prev` with any count, `--all`, `--branch`, `--oldest`/`--newest` end on the commit reached by following visible children (or parents) that many times, attach to a branch there when there is one, and stop with an
    error and no change when the choice is ambiguous or there is nowhere to go; `git switch` ends on the single head the argument denotes. No navigation command changes any branch or commit.""",
    ["inputs", "histories"],
    """All forests, HEAD positions, counts and flags.""",
    """Tests walk one three-commit stack with one fork.""",
    ["git-branchless-navigation/src/lib.rs", "git-branchless-lib/src/core/check_out.rs"],
    [("traversal", "git-branchless-navigation/src/lib.rs advance"), ("checkout", "git-branchless-lib/src/core/check_out.rs")],
    observe=["HEAD after the command", "exit code"])

prop(
    "P20", "sync moves every stack onto the main branch, or leaves it alone",
    """After `git sync`, every selected stack whose changes apply cleanly is based on the tip of the main branch with its commits' changes and shape preserved, every stack that would conflict is exactly as before and reported, and stacks not selected are untouched;
    with `--pull` the local main branch is first brought up to date with its remote without losing local commits. Running it again changes nothing more.""",
    ["inputs", "histories"],
    """All sets of stacks and remote advances, with any subset conflicting.""",
    """Tests sync one or two stacks; independence of stacks and idempotence are statements over all sets of stacks.""",
    ["git-branchless/src/commands/sync.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
    [("per-stack plans", "git-branchless/src/commands/sync.rs execute_plans"), ("main branch update", "git-branchless/src/commands/sync.rs execute_main_branch_sync_plan")],
    observe=["git sync", "graph and refs"])

prop(
    "P21", "submit pushes exactly the selected branches and never clobbers others' work",
    """`git submit` makes the remote branch of the same name of each selected, already-submitted branch equal to the local one, creates remote branches for the others only with `--create`, and touches no other remote ref; with
    `--dry-run` it changes nothing on the remote. A remote branch is only overwritten after its state has been fetched, never when somebody moves it between that fetch and the push, and the reported categories match what happened.""",
    ["inputs", "histories", "schedules"],
    """All stacks and placements of branches, upstream configurations, remote states (missing, equal, behind, diverged, moved by others since the last fetch), selections and flags.""",
    """Tests submit two branches to one remote in a few states.""",
    ["git-branchless-submit/src/lib.rs", "git-branchless-submit/src/branch_forge.rs"],
    [("status query and categories", "git-branchless-submit/src/branch_forge.rs query_status"), ("push with lease", "git-branchless-submit/src/branch_forge.rs update")],
    observe=["remote refs before/after", "output"])

prop(
    "P22", "init is idempotent, keeps the user's hooks, and uninstall removes only itself",
    """`git branchless init` keeps every line of the user's existing hook scripts and configuration, makes them still run, and running it any number of times is the same as once; `--uninstall` takes out exactly what init added, in hooks
    and configuration (a section holding only comments may remain), and leaves the user's parts byte for byte. This is about executable UTF-8 hooks that do not exit early; repository-local aliases are not considered. After init the hooks work from any directory and from worktrees.""",
    ["inputs", "configurations"],
    """All contents of pre-existing hooks (any interpreter line, with/without trailing newline, marker-like lines, older installed sections), existing aliases and config, any sequence of init/uninstall.""",
    """Tests cover one pre-existing hook and one alias.""",
    ["git-branchless-init/src/lib.rs"],
    [("section between markers", "git-branchless-init/src/lib.rs update_between_lines"), ("isolated configuration file", "git-branchless-init/src/lib.rs create_isolated_config")],
    observe=[".git/hooks/*, .git/config before/after"])

prop(
    "P23", "An interruption at any point loses no commits and leaves a usable repository",
    """If a rewriting or checkout command is killed, or a Git process it starts fails, at any point, then every commit that was visible before is still visible or has its new version visible, every branch points to an
    existing commit that is either its old or its intended new target, uncommitted work is intact, and afterwards the commands work again: the smartlog renders, queries and status succeed, and rerunning or undoing the operation neither crashes nor loses anything.""",
    ["crash_points", "fault_sequences", "histories"],
    """All crash points at external-process and file-system boundaries of move, reword, amend, restack, sync, hide, undo, record, over all small histories.""",
    """No test injects a failure or kills the process in the middle of an operation.""",
    ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/core/eventlog.rs", "git-branchless-lib/src/git/run.rs"],
    [("order of object creation, event logging and reference updates", "git-branchless-lib/src/core/rewrite/execute.rs"),
     ("transactional event log", "git-branchless-lib/src/core/eventlog.rs add_events"), ("single reference transaction", "git-branchless-lib/src/core/rewrite/execute.rs move_branches")],
    observe=["refs, visible set, work tree after the fault", "later commands"])

prop(
    "P24", "The event log replays any prefix to exactly the state at that time",
    """For every sequence of recorded events and every earlier point, the state shown for that point (visible commits, branches, HEAD, main branch) is what it was
    when only the events up to that point had been recorded, and later events never change it. Stepping by operations moves over whole operations, never stopping inside one and never skipping one, and positions outside the log are clamped.""",
    ["histories", "inputs"],
    """All event sequences (commits, rewrites, hides, unhides, reference updates and deletions, snapshots) with any grouping into operations and any cursor movement.""",
    """Tests replay logs of three or four events and step a cursor once or twice.""",
    ["git-branchless-lib/src/core/eventlog.rs", "git-branchless-smartlog/src/lib.rs", "git-branchless-undo/src/lib.rs"],
    [("replay and per-commit histories", "git-branchless-lib/src/core/eventlog.rs process_event"), ("cursor arithmetic", "git-branchless-lib/src/core/eventlog.rs advance_cursor*"),
     ("reference snapshots", "git-branchless-lib/src/core/eventlog.rs get_references_snapshot")],
    observe=["replayer API", "git smartlog --event-id"])

with open(OUT, "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(PROPS), "properties")
