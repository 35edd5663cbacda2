From 431eeffabeaa6497ab5b58c6bab0280a3b688721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:34 +0000
Subject: [PATCH 01/35] fix: keep files when a directory of the same name goes
 away, and vice versa

When a commit which turned a directory into a file (or a file into a
directory) was rebased in memory, the removal of the entries on one side also
removed what had taken their place, so the rebased commit lost files.
---
 git-branchless-lib/src/git/tree.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/git/tree.rs b/git-branchless-lib/src/git/tree.rs
index 96865bf..5284193 100644
--- a/git-branchless-lib/src/git/tree.rs
+++ b/git-branchless-lib/src/git/tree.rs
@@ -410,7 +410,14 @@ pub fn hydrate_tree(
                         file_mode,
                     })?;
             }
-            None => remove_entry_if_exists(&mut builder, &file_name)?,
+            None => {
+                // There may be a directory of the same name instead, in which
+                // case there is no such file to remove. The contents of that
+                // directory have entries of their own.
+                if !is_tree_entry(&builder, &file_name)? {
+                    remove_entry_if_exists(&mut builder, &file_name)?
+                }
+            }
         }
     }
 
@@ -440,7 +447,10 @@ pub fn hydrate_tree(
             .map_err(Error::FindTree)?
             .ok_or(Error::FindHydratedTree(new_entry_oid))?;
         if new_entry_tree.is_empty() {
-            remove_entry_if_exists(&mut builder, &dir_name)?;
+            // There may be a file of the same name instead, which must be kept.
+            if existing_dir_entry.is_some() {
+                remove_entry_if_exists(&mut builder, &dir_name)?;
+            }
         } else {
             builder
                 .insert(&dir_name, new_entry_oid.inner, git2::FileMode::Tree.into())
@@ -463,6 +473,17 @@ pub fn make_empty_tree(repo: &Repo) -> Result<Tree> {
         .map_err(Error::FindTree)
 }
 
+/// Determine if the entry with the given name is a directory.
+fn is_tree_entry(builder: &git2::TreeBuilder, name: &Path) -> Result<bool> {
+    let entry = builder
+        .get(name)
+        .map_err(|err| Error::ReadTreeBuilderEntry {
+            source: err,
+            path: name.to_owned(),
+        })?;
+    Ok(entry.and_then(|entry| entry.kind()) == Some(git2::ObjectType::Tree))
+}
+
 /// `libgit2` raises an error if the entry isn't present, but that's often not
 /// an error condition here. We may be referring to a created or deleted path,
 /// which wouldn't exist in one of the pre-/post-patch trees.
-- 
2.43.0


From 5f0858b25e0a7827f5fa0f8ac14404959f90bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:26 +0000
Subject: [PATCH 02/35] fix: report file/directory conflicts when rebasing in
 memory

When a commit added a file below a directory for which the destination had a
file of that name, the in-memory rebase silently replaced that file, as it was
not one of the touched paths which are merged.
---
 git-branchless-lib/src/git/repo.rs | 49 +++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 387f5a2..ba25b9c 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1337,7 +1337,28 @@ impl Repo {
             .get_paths_touched_by_commit(patch_commit)?
             .into_iter()
             .collect_vec();
-        let changed_paths = changed_pathbufs.iter().map(PathBuf::borrow).collect_vec();
+        let changed_paths = {
+            let mut result: HashSet<&Path> = changed_pathbufs.iter().map(PathBuf::borrow).collect();
+
+            // If the target has a file in place of one of the directories
+            // leading to a changed path, then it has to take part in the merge
+            // as well, so that it's not silently replaced by that directory.
+            let target_tree = target_commit.get_tree()?;
+            for ancestor in changed_pathbufs
+                .iter()
+                .flat_map(|path| path.ancestors().skip(1))
+                .filter(|ancestor| !ancestor.as_os_str().is_empty())
+            {
+                match target_tree.get_path(ancestor) {
+                    Ok(Some(entry)) if entry.get_filemode() != FileMode::Tree => {
+                        result.insert(ancestor);
+                    }
+                    Ok(Some(_)) | Ok(None) => {}
+                    Err(err) => return Err(Error::ReadTree(err).into()),
+                }
+            }
+            result.into_iter().collect_vec()
+        };
 
         let dehydrated_patch_commit =
             self.dehydrate_commit(patch_commit, changed_paths.as_slice(), true)?;
@@ -1397,6 +1418,32 @@ impl Repo {
 
                 return Err(CreateCommitFastError::MergeConflict { conflicting_paths });
             }
+
+            // `libgit2` doesn't detect all file/directory conflicts, in which
+            // case there's an entry for both the file and the directory.
+            let rebased_paths: HashSet<PathBuf> = rebased_index
+                .inner
+                .iter()
+                .map(|entry| {
+                    entry
+                        .path
+                        .into_path_buf()
+                        .map_err(|err| CreateCommitFastError::DecodePath {
+                            source: err,
+                            item: "merged",
+                        })
+                })
+                .try_collect()?;
+            let conflicting_paths: HashSet<PathBuf> = rebased_paths
+                .iter()
+                .flat_map(|path| path.ancestors().skip(1))
+                .filter(|ancestor| rebased_paths.contains(*ancestor))
+                .map(|ancestor| ancestor.to_path_buf())
+                .collect();
+            if !conflicting_paths.is_empty() {
+                return Err(CreateCommitFastError::MergeConflict { conflicting_paths });
+            }
+
             let rebased_entries: HashMap<PathBuf, Option<(NonZeroOid, FileMode)>> =
                 changed_pathbufs
                     .into_iter()
-- 
2.43.0


From c62cd4d56e063c1cf655a00d3725f2860b09f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:57 +0000
Subject: [PATCH 03/35] fix: keep deletions when squashing a commit into
 another in memory

`git move --fixup` dropped the removal of a file which the squashed commit
deleted, so the file was still present in the resulting commit.
---
 git-branchless-lib/src/git/repo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index ba25b9c..e1a3005 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1652,7 +1652,8 @@ impl Repo {
                         Ok(Some(entry)) => {
                             Some((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
                         }
-                        Ok(None) | Err(_) => None,
+                        Ok(None) => Some((path.clone(), None)),
+                        Err(_) => None,
                     })
                     .collect::<HashMap<_, _>>()
             }
-- 
2.43.0


From 8956fc29014b8e4beafb4142c29952e29be96a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:47 +0000
Subject: [PATCH 04/35] fix: drop all squashed commits when the squashed result
 is empty

When squashing commits in memory left nothing, only the destination commit was
recorded as dropped, and the commits squashed into it stayed visible as
abandoned commits.
---
 git-branchless-lib/src/core/rewrite/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index 876a6dd..fc7f9ba 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -699,6 +699,10 @@ mod in_memory {
                     {
                         rewritten_oids.insert(*original_commit_oid, MaybeZeroOid::Zero);
                         maybe_set_skipped_head_new_oid(*original_commit_oid, current_oid);
+                        for commit_oid in commits_to_apply_oids {
+                            rewritten_oids.insert(*commit_oid, MaybeZeroOid::Zero);
+                            maybe_set_skipped_head_new_oid(*commit_oid, current_oid);
+                        }
 
                         writeln!(
                             effects.get_output_stream(),
-- 
2.43.0


From ec2e1764f219061894321942c8719790a28eb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:49 +0000
Subject: [PATCH 05/35] fix: rebase onto the right commit after squashing made
 its parent empty

When the commit below the destination of `git move --fixup` became empty and
was skipped, the squashed commit was placed on top of the old version of that
commit.
---
 git-branchless-lib/src/core/rewrite/execute.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index fc7f9ba..45c791a 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -519,6 +519,9 @@ mod in_memory {
             }
         };
 
+        // For each skipped commit, the commit which took its place.
+        let mut skipped_oids: HashMap<NonZeroOid, NonZeroOid> = HashMap::new();
+
         let mut i = 0;
         let num_picks = rebase_plan
             .commands
@@ -560,10 +563,13 @@ mod in_memory {
                             // HEAD has been rewritten.
                             *rewritten_oid
                         }
-                        Some(MaybeZeroOid::Zero) | None => {
-                            // Either HEAD was not rewritten, or it was but its
-                            // associated commit was skipped. Either way, just
-                            // use the current OID.
+                        Some(MaybeZeroOid::Zero) => {
+                            // HEAD was rewritten, but its associated commit was
+                            // skipped.
+                            *skipped_oids.get(commit_oid).unwrap_or(commit_oid)
+                        }
+                        None => {
+                            // HEAD was not rewritten. Just use the current OID.
                             *commit_oid
                         }
                     };
@@ -698,6 +704,7 @@ mod in_memory {
                         .is_empty()
                     {
                         rewritten_oids.insert(*original_commit_oid, MaybeZeroOid::Zero);
+                        skipped_oids.insert(*original_commit_oid, current_oid);
                         maybe_set_skipped_head_new_oid(*original_commit_oid, current_oid);
                         for commit_oid in commits_to_apply_oids {
                             rewritten_oids.insert(*commit_oid, MaybeZeroOid::Zero);
@@ -841,6 +848,7 @@ mod in_memory {
 
                     let commit = repo.find_commit_or_fail(*commit_oid)?;
                     rewritten_oids.insert(*commit_oid, MaybeZeroOid::Zero);
+                    skipped_oids.insert(*commit_oid, current_oid);
                     maybe_set_skipped_head_new_oid(*commit_oid, current_oid);
 
                     let commit_description = commit.friendly_describe(effects.get_glyphs())?;
-- 
2.43.0


From c8763a4c0f7fe30640e17823af1593211c802fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:55 +0000
Subject: [PATCH 06/35] fix: refuse to squash into a public commit without
 --force-rewrite

`git move --fixup` checked that the moved commits and the children of the
destination were not public, but not the destination, which is rewritten.
---
 git-branchless-move/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 86b081d..386791d 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -283,6 +283,12 @@ pub fn r#move(
             } else {
                 commits_to_move
             };
+            let commits_to_move = if fixup {
+                // The destination commit itself will be rewritten as well.
+                commits_to_move.union(&CommitSet::from(dest_oid))
+            } else {
+                commits_to_move
+            };
 
             match RebasePlanPermissions::verify_rewrite_set(&dag, build_options, &commits_to_move)?
             {
-- 
2.43.0


From 51762a8325d112a887dd67946a032badc8501d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:54 +0000
Subject: [PATCH 07/35] fix: record branch changes made by undo, so that
 undoing the undo restores them

---
 git-branchless-undo/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/git-branchless-undo/src/lib.rs b/git-branchless-undo/src/lib.rs
index 4dc39dc..181378b 100644
--- a/git-branchless-undo/src/lib.rs
+++ b/git-branchless-undo/src/lib.rs
@@ -882,6 +882,7 @@ fn undo_events(
             } => match repo.find_reference(ref_name)? {
                 Some(mut reference) => {
                     reference.delete().wrap_err("Applying `RefUpdateEvent`")?;
+                    event_log_db.add_events(vec![event.clone()])?;
                 }
                 None => {
                     writeln!(
@@ -909,6 +910,7 @@ fn undo_events(
             } => {
                 // Create or update the given reference.
                 repo.create_reference(ref_name, *new_oid, true, "branchless undo")?;
+                event_log_db.add_events(vec![event.clone()])?;
             }
 
             Event::WorkingCopySnapshot { .. } => {
-- 
2.43.0


From b68426573bb5d58ebb8f9758d8f417b067bfafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:50 +0000
Subject: [PATCH 08/35] fix: undo of a forced branch update moves the branch
 back instead of deleting it

---
 git-branchless-lib/src/core/eventlog.rs | 26 +++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/git-branchless-lib/src/core/eventlog.rs b/git-branchless-lib/src/core/eventlog.rs
index 6aa49df..077dc72 100644
--- a/git-branchless-lib/src/core/eventlog.rs
+++ b/git-branchless-lib/src/core/eventlog.rs
@@ -984,6 +984,32 @@ impl EventReplayer {
             _ => event,
         };
 
+        let event = match event {
+            // Git doesn't report the old value when a reference is updated
+            // forcibly (such as with `git branch -f`). Don't mistake that for
+            // the creation of the reference if it's known to exist.
+            Event::RefUpdateEvent {
+                timestamp,
+                event_tx_id,
+                ref_name,
+                old_oid: MaybeZeroOid::Zero,
+                new_oid: new_oid @ MaybeZeroOid::NonZero(_),
+                message,
+            } if ref_name.as_str() != "HEAD" => {
+                let old_oid: MaybeZeroOid = self.ref_locations.get(&ref_name).copied().into();
+                Event::RefUpdateEvent {
+                    timestamp,
+                    event_tx_id,
+                    ref_name,
+                    old_oid,
+                    new_oid,
+                    message,
+                }
+            }
+
+            _ => event,
+        };
+
         match (event, self.events.last()) {
             // Sometimes, Git v2.31 will issue multiple delete reference
             // transactions (one for the unpacked refs, and one for the packed
-- 
2.43.0


From 04a128f45879987ca7f1d1a0783b2dbf0dfcabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:27 +0000
Subject: [PATCH 09/35] fix: draw merge commits exactly once in the smartlog
 when a parent is left out

---
 git-branchless-smartlog/src/lib.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/git-branchless-smartlog/src/lib.rs b/git-branchless-smartlog/src/lib.rs
index e3b3bdc..90029eb 100644
--- a/git-branchless-smartlog/src/lib.rs
+++ b/git-branchless-smartlog/src/lib.rs
@@ -214,26 +214,22 @@ mod graph {
         for child_oid in non_main_node_oids {
             let parent_vertices = dag.query_parent_names(CommitVertex::from(*child_oid))?;
 
-            // Find immediate parent-child links.
-            match parent_vertices.as_slice() {
-                [] => {}
-                [first_parent_vertex, merge_parent_vertices @ ..] => {
-                    if dag.set_contains(&graph_vertices, first_parent_vertex.clone())? {
-                        let first_parent_oid = NonZeroOid::try_from(first_parent_vertex.clone())?;
-                        immediate_links.push((*child_oid, first_parent_oid, false));
-                    }
-                    for merge_parent_vertex in merge_parent_vertices {
-                        if dag.set_contains(&graph_vertices, merge_parent_vertex.clone())? {
-                            let merge_parent_oid =
-                                NonZeroOid::try_from(merge_parent_vertex.clone())?;
-                            immediate_links.push((*child_oid, merge_parent_oid, true));
-                        }
-                    }
+            // Find immediate parent-child links. The commit is drawn below its
+            // first parent in the graph; the others are only referred to.
+            let mut has_link = false;
+            for parent_vertex in parent_vertices.iter() {
+                if dag.set_contains(&graph_vertices, parent_vertex.clone())? {
+                    let parent_oid = NonZeroOid::try_from(parent_vertex.clone())?;
+                    immediate_links.push((*child_oid, parent_oid, has_link));
+                    has_link = true;
                 }
             }
 
             // Find non-immediate ancestor links.
             for excluded_parent_vertex in parent_vertices {
+                if has_link {
+                    break;
+                }
                 if dag.set_contains(&graph_vertices, excluded_parent_vertex.clone())? {
                     continue;
                 }
@@ -252,8 +248,9 @@ mod graph {
                     dag.query_heads_ancestors(path_to_main_branch.intersection(&graph_vertices))?;
 
                 let ancestor_oids = dag.commit_set_to_vec(&nearest_branch_ancestor)?;
-                for ancestor_oid in ancestor_oids.iter() {
+                if let Some(ancestor_oid) = ancestor_oids.first() {
                     non_immediate_links.push((*ancestor_oid, *child_oid, false));
+                    has_link = true;
                 }
             }
         }
-- 
2.43.0


From 3f7df8e5395463a4a41097e9c637d53863d29adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 10/35] fix: explain hidden commits as of the requested event
 in smartlog --event-id

The explanations ("rewritten as", "manually hidden") were taken from the
present state of the event log even when a past state was shown.
---
 git-branchless-smartlog/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/git-branchless-smartlog/src/lib.rs b/git-branchless-smartlog/src/lib.rs
index 90029eb..b103588 100644
--- a/git-branchless-smartlog/src/lib.rs
+++ b/git-branchless-smartlog/src/lib.rs
@@ -831,10 +831,7 @@ pub fn smartlog(
         &mut [
             &mut CommitOidDescriptor::new(true)?,
             &mut RelativeTimeDescriptor::new(&repo, SystemTime::now())?,
-            &mut ObsolescenceExplanationDescriptor::new(
-                &event_replayer,
-                event_replayer.make_default_cursor(),
-            )?,
+            &mut ObsolescenceExplanationDescriptor::new(&event_replayer, event_cursor)?,
             &mut BranchesDescriptor::new(
                 &repo,
                 &head_info,
-- 
2.43.0


From 5ca5fcb5c556c9947b403d1413da25847d402adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 11/35] fix: evaluate @ in a revset as of the graph it is
 evaluated against

smartlog --event-id shows a past state, but included the commit that is
checked out now instead of the one that was checked out then.
---
 git-branchless-revset/src/eval.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/git-branchless-revset/src/eval.rs b/git-branchless-revset/src/eval.rs
index 7cd88c3..e08fb34 100644
--- a/git-branchless-revset/src/eval.rs
+++ b/git-branchless-revset/src/eval.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use lib::core::dag::{CommitSet, Dag};
 use lib::core::formatting::Pluralize;
-use lib::git::{ConfigRead, Repo, RepoError, ResolvedReferenceInfo};
+use lib::git::{ConfigRead, Repo, RepoError};
 use tracing::instrument;
 
 use super::builtins::FUNCTIONS;
@@ -138,17 +138,7 @@ fn eval_inner(ctx: &mut Context, expr: &Expr) -> EvalResult {
 #[instrument]
 pub(super) fn eval_name(ctx: &mut Context, name: &str) -> EvalResult {
     if name == "." || name == "@" {
-        let head_info = ctx.repo.get_head_info()?;
-        return match head_info {
-            ResolvedReferenceInfo {
-                oid: Some(oid),
-                reference_name: _,
-            } => Ok(oid.into()),
-            ResolvedReferenceInfo {
-                oid: None,
-                reference_name: _,
-            } => Ok(CommitSet::empty()),
-        };
+        return Ok(ctx.dag.head_commit.clone());
     }
 
     let commit = ctx.repo.revparse_single_commit(name);
-- 
2.43.0


From b7662d7af07e62d632d0ad4894399b7cc123645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 12/35] fix: abort rewording when a section of a bulk edit is
 empty

The edited file says that an empty message aborts rewording, but emptying
the message of one of several commits produced a commit with no message.
---
 git-branchless-reword/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/git-branchless-reword/src/lib.rs b/git-branchless-reword/src/lib.rs
index ef53ad4..c10a90c 100644
--- a/git-branchless-reword/src/lib.rs
+++ b/git-branchless-reword/src/lib.rs
@@ -552,6 +552,14 @@ fn prepare_messages(
         });
     }
 
+    if parsed_messages
+        .messages
+        .values()
+        .any(|message| message.trim().is_empty())
+    {
+        return Ok(PrepareMessagesResult::EmptyMessage);
+    }
+
     Ok(PrepareMessagesResult::Succeeded {
         messages: parsed_messages.messages,
     })
-- 
2.43.0


From ace84e350e1f0875494999b67477ecb12e43cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 13/35] fix: recognize reword section markers only at the start
 of a line

A commit message mentioning the marker text in the middle of a line was
cut off there, or reported as an unexpected commit.
---
 git-branchless-reword/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/git-branchless-reword/src/lib.rs b/git-branchless-reword/src/lib.rs
index c10a90c..e5edfea 100644
--- a/git-branchless-reword/src/lib.rs
+++ b/git-branchless-reword/src/lib.rs
@@ -592,15 +592,17 @@ fn parse_bulk_edit_message(
 
     let message = match commits {
         // For single commits, add the marker line, but only if the user hasn't already done so.
-        [only_commit] if !message.contains("++ reword") => {
+        [only_commit] if !message.lines().any(|line| line.starts_with("++ reword")) => {
             format!("++ reword {}\n{}", only_commit.get_short_oid()?, message)
         }
         _ => message,
     };
 
-    // split the bulk message into (hash, msg) tuples
+    // split the bulk message into (hash, msg) tuples; only lines starting with
+    // the marker begin a new message
+    let message = format!("\n{message}");
     let msgs = message
-        .split("++ reword")
+        .split("\n++ reword")
         .filter_map(|msg| msg.split_once('\n'))
         .map(|(hash, msg)| (hash.trim(), msg));
 
-- 
2.43.0


From d7b42e653d9b9b48a5ed9f371b7f8a7cf1ccabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 14/35] fix: stop rewording when the editor fails

The exit code of the editor was ignored, so that leaving the editor with
an error (such as :cq in vi) still rewrote the commits.
---
 git-branchless-reword/src/dialoguer_edit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/git-branchless-reword/src/dialoguer_edit.rs b/git-branchless-reword/src/dialoguer_edit.rs
index 660969e..eb4aac5 100644
--- a/git-branchless-reword/src/dialoguer_edit.rs
+++ b/git-branchless-reword/src/dialoguer_edit.rs
@@ -142,7 +142,14 @@ impl Editor {
             .spawn()?
             .wait()?;
 
-        if rv.success() && self.require_save && ts >= fs::metadata(f.path())?.modified()? {
+        if !rv.success() {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                format!("the editor failed: {rv}"),
+            ));
+        }
+
+        if self.require_save && ts >= fs::metadata(f.path())?.modified()? {
             return Ok(None);
         }
 
-- 
2.43.0


From 06966f5391311e4428b02de560d0b249b7e041b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 15/35] fix: store the target of a symlink in snapshots and
 amended commits

The contents of the file that the symlink points to were stored instead.
---
 git-branchless-lib/src/git/repo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index e1a3005..6ca6223 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1232,7 +1232,12 @@ impl Repo {
                 path: path.to_path_buf(),
             })?
             .join(path);
-        let contents = match std::fs::read(&path) {
+        let contents = match std::fs::read_link(&path) {
+            // The contents of a symlink are its target.
+            Ok(target) => Ok(Vec::from_path_lossy(&target).into_owned()),
+            Err(_) => std::fs::read(&path),
+        };
+        let contents = match contents {
             Ok(contents) => contents,
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
             Err(err) => {
-- 
2.43.0


From 2895a7da12c857340f43e33a877732d8699aeb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 16/35] fix: handle changes of the file type in the working
 copy

Git reports them as T, which was taken for an untracked file, so that amend
and the snapshots left the change out.
---
 git-branchless-lib/src/git/status.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 72ba336..6b70ffa 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -45,7 +45,8 @@ impl From<u8> for FileStatus {
     fn from(status: u8) -> Self {
         match status {
             b'.' => FileStatus::Unmodified,
-            b'M' => FileStatus::Modified,
+            // `T` is a change of the type, such as from file to symlink.
+            b'M' | b'T' => FileStatus::Modified,
             b'A' => FileStatus::Added,
             b'D' => FileStatus::Deleted,
             b'R' => FileStatus::Renamed,
-- 
2.43.0


From 93a6ee565f9c42270d18b32c1b8feaf790c29806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 17/35] fix: restore snapshots in which a file was replaced
 with a directory

The directory's tree was written into the index under the name of the
file, which resulted in bogus entries.
---
 git-branchless-lib/src/core/check_out.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index 546a098..cf97652 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -12,8 +12,8 @@ use tracing::instrument;
 
 use crate::core::config::get_auto_switch_branches;
 use crate::git::{
-    update_index, CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, ReferenceName,
-    Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
+    update_index, CategorizedReferenceName, FileMode, GitRunInfo, MaybeZeroOid, NonZeroOid,
+    ReferenceName, Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
 };
 use crate::try_exit_code;
 use crate::util::EyreExitOr;
@@ -299,7 +299,11 @@ pub fn restore_snapshot(
             let changed_paths = repo.get_paths_touched_by_commit(commit)?;
             for path in changed_paths {
                 let tree = commit.get_tree()?;
-                let tree_entry = tree.get_path(&path)?;
+                // If there is a directory at that path, then the file was
+                // deleted; the files in the directory are handled on their own.
+                let tree_entry = tree
+                    .get_path(&path)?
+                    .filter(|tree_entry| tree_entry.get_filemode() != FileMode::Tree);
 
                 let is_deleted = tree_entry.is_none();
                 if is_deleted {
-- 
2.43.0


From fe805a986f460c68dfe8df3e94bea06df553ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 18/35] fix: do not read the original path of a renamed file
 for snapshots

That path is not tracked anymore. If its directory had become a file, no
snapshot could be created at all.
---
 git-branchless-lib/src/git/snapshot.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/git/snapshot.rs b/git-branchless-lib/src/git/snapshot.rs
index ca958e5..936d6fc 100644
--- a/git-branchless-lib/src/git/snapshot.rs
+++ b/git-branchless-lib/src/git/snapshot.rs
@@ -322,10 +322,17 @@ branchless: automated working copy snapshot
                 entry.working_copy_status.is_changed() || entry.index_status.is_changed()
             })
             .flat_map(|entry| {
-                entry
-                    .paths()
-                    .into_iter()
-                    .map(|path| (path, entry.working_copy_file_mode))
+                let is_renamed = entry.index_status == FileStatus::Renamed
+                    || entry.working_copy_status == FileStatus::Renamed;
+                entry.paths().into_iter().map(move |path| {
+                    if is_renamed && path != entry.path {
+                        // The original path of a renamed file isn't tracked
+                        // anymore, regardless of what's there on disk.
+                        (path, FileMode::Unreadable)
+                    } else {
+                        (path, entry.working_copy_file_mode)
+                    }
+                })
             })
             .collect();
         let num_changes = changed_paths.len();
-- 
2.43.0


From 368571e5d7919ab277593c60746d3d29cd848821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 19/35] fix: switch back to the previous commit after record
 --stash on a detached HEAD

The new commit itself was checked out.
---
 git-branchless-record/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 166f653..21b464e 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -214,7 +214,10 @@ fn record(
             ResolvedReferenceInfo {
                 oid: Some(oid),
                 reference_name: _,
-            } => Some(CheckoutTarget::Oid(oid)),
+            } => repo
+                .find_commit_or_fail(oid)?
+                .get_only_parent_oid()
+                .map(CheckoutTarget::Oid),
             _ => None,
         };
         if stash && checkout_target.is_some() {
-- 
2.43.0


From 35df31d52c36212c418510ad47ba314915fc2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 20/35] fix: insert the new commit before leaving it in record
 --stash --insert

The siblings of the previous commit were moved instead of those of the new one.
---
 git-branchless-record/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 21b464e..ddcba1b 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -168,6 +168,16 @@ fn record(
         try_exit_code!(git_run_info.run_direct_no_wrapping(Some(event_tx_id), &args)?);
     }
 
+    // Do this while the new commit is still checked out.
+    if insert {
+        try_exit_code!(insert_before_siblings(
+            effects,
+            git_run_info,
+            now,
+            event_tx_id
+        )?);
+    }
+
     if detach || stash {
         let head_info = repo.get_head_info()?;
         if let ResolvedReferenceInfo {
@@ -237,15 +247,6 @@ fn record(
         }
     }
 
-    if insert {
-        try_exit_code!(insert_before_siblings(
-            effects,
-            git_run_info,
-            now,
-            event_tx_id
-        )?);
-    }
-
     Ok(Ok(()))
 }
 
-- 
2.43.0


From 0864564ddb3d58a7b68a7ae35f758333e0cdc439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:21 +0000
Subject: [PATCH 21/35] fix: keep the main branch when its commit was rewritten
 to nothing

Without an upstream branch the main branch was deleted, after which no
other command works.
---
 git-branchless-lib/src/core/rewrite/execute.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index 45c791a..7e78a21 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -99,15 +99,8 @@ pub fn move_branches<'a>(
                                 }
                                 MaybeZeroOid::NonZero(target_oid)
                             }
-                            None => {
-                                let mut main_branch_reference =
-                                    repo.get_main_branch()?.into_reference();
-                                if let Err(err) = main_branch_reference.delete() {
-                                    branch_move_err = Some(eyre::eyre!(err));
-                                    break 'outer;
-                                }
-                                MaybeZeroOid::Zero
-                            }
+                            // There's no other commit it should point to.
+                            None => continue,
                         };
                         branch_moves.push((*old_oid, target_oid, reference_name));
                     } else {
-- 
2.43.0


From f4563bd95feeab37b14f3192cf6271be86244cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:54 +0000
Subject: [PATCH 22/35] fix: sync --pull does not rewrite main commits that are
 already on top of the upstream branch

---
 git-branchless/src/commands/sync.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/git-branchless/src/commands/sync.rs b/git-branchless/src/commands/sync.rs
index 5106c18..fc9bf32 100644
--- a/git-branchless/src/commands/sync.rs
+++ b/git-branchless/src/commands/sync.rs
@@ -271,6 +271,11 @@ fn execute_main_branch_sync_plan(
         Ok(root_oid) => root_oid,
         Err(_) => return Ok(Ok(())),
     };
+    let root_commit = repo.find_commit_or_fail(root_commit_oid)?;
+    if root_commit.get_parent_oids() == [upstream_main_branch_oid] {
+        // The local commits are already based on the upstream branch.
+        return Ok(Ok(()));
+    }
     builder.move_subtree(root_commit_oid, vec![upstream_main_branch_oid])?;
     let rebase_plan = match builder.build(effects, thread_pool, repo_pool)? {
         Ok(rebase_plan) => rebase_plan,
-- 
2.43.0


From 5a8117a0135cf18186be0d1f28a40a76a6fe7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:54 +0000
Subject: [PATCH 23/35] fix: restack does not bring back replaced commits below
 a moved one

---
 git-branchless-lib/src/core/rewrite/plan.rs | 42 +++++++++++++++++++--
 git-branchless/src/commands/restack.rs      |  7 ++++
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index e4a652f..20c88e7 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -361,7 +361,14 @@ impl<'a> ConstraintGraph<'a> {
     /// of a referred-to commit. This adds enough information to the constraint
     /// graph that it now represents the actual end-state commit graph that we
     /// want to create, not just a list of constraints.
-    fn add_descendant_constraints(&mut self, effects: &Effects) -> eyre::Result<()> {
+    ///
+    /// Descendant commits in `superseded_commits` are left where they are if
+    /// none of their children need them.
+    fn add_descendant_constraints(
+        &mut self,
+        effects: &Effects,
+        superseded_commits: &CommitSet,
+    ) -> eyre::Result<()> {
         let (effects, _progress) = effects.start_operation(OperationType::ConstrainCommits);
         let _effects = effects;
 
@@ -375,7 +382,23 @@ impl<'a> ConstraintGraph<'a> {
                 .collect();
             let descendants = self.dag.query_descendants(commits_to_move.clone())?;
             let descendants = descendants.difference(&commits_to_move);
-            let descendants = self.dag.filter_visible_commits(descendants)?;
+            let mut descendants = self.dag.filter_visible_commits(descendants)?;
+            loop {
+                let superseded_descendants = descendants.intersection(superseded_commits);
+                let mut unneeded_commits = Vec::new();
+                for oid in self.dag.commit_set_to_vec(&superseded_descendants)? {
+                    let children = self.dag.query_children(CommitSet::from(oid))?;
+                    let children = children.intersection(&descendants);
+                    if self.dag.set_is_empty(&children)? {
+                        unneeded_commits.push(oid);
+                    }
+                }
+                if unneeded_commits.is_empty() {
+                    break;
+                }
+                let unneeded_commits: CommitSet = unneeded_commits.into_iter().collect();
+                descendants = descendants.difference(&unneeded_commits);
+            }
             let descendant_oids = self.dag.commit_set_to_vec(&descendants)?;
             for descendant_oid in descendant_oids {
                 let parents = self.dag.query_parent_names(descendant_oid)?;
@@ -567,6 +590,10 @@ pub struct RebasePlanBuilder<'a> {
     /// with.
     replacement_commits: HashMap<NonZeroOid, NonZeroOid>,
 
+    /// Commits which have been superseded by a newer version, and thus don't
+    /// need to be moved along with their ancestors.
+    superseded_commits: CommitSet,
+
     /// Cache mapping from commit OID to the paths changed in the diff for that
     /// commit. The value is `None` if the commit doesn't have an associated
     /// diff (i.e. is a merge commit).
@@ -730,6 +757,7 @@ impl<'a> RebasePlanBuilder<'a> {
             permissions,
             initial_constraints: Default::default(),
             replacement_commits: Default::default(),
+            superseded_commits: CommitSet::empty(),
             touched_paths_cache: Default::default(),
         }
     }
@@ -1077,6 +1105,12 @@ impl<'a> RebasePlanBuilder<'a> {
         Ok(())
     }
 
+    /// Don't move the given commits merely because one of their ancestors is
+    /// being moved, unless they have descendants which have to be moved.
+    pub fn leave_superseded_commits(&mut self, commits: CommitSet) {
+        self.superseded_commits = self.superseded_commits.union(&commits);
+    }
+
     /// Instruct the rebase planner to replace the commit at `original_oid` with the commit at
     /// `replacement_oid`.
     pub fn replace_commit(
@@ -1126,7 +1160,9 @@ impl<'a> RebasePlanBuilder<'a> {
                 state.constraints.get_constraints_sorted_for_debug(),
             );
         }
-        state.constraints.add_descendant_constraints(&effects)?;
+        state
+            .constraints
+            .add_descendant_constraints(&effects, &self.superseded_commits)?;
         if *dump_rebase_constraints {
             // For test: don't print to `effects.get_output_stream()`, as it will
             // be suppressed.
diff --git a/git-branchless/src/commands/restack.rs b/git-branchless/src/commands/restack.rs
index 0b6c728..8f3102e 100644
--- a/git-branchless/src/commands/restack.rs
+++ b/git-branchless/src/commands/restack.rs
@@ -105,6 +105,7 @@ fn restack_commits(
     let commits = dag.commit_set_to_vec(&commit_set)?;
 
     struct RebaseInfo {
+        original_commit_oid: NonZeroOid,
         dest_oid: NonZeroOid,
         abandoned_child_oids: Vec<NonZeroOid>,
     }
@@ -115,6 +116,7 @@ fn restack_commits(
                 find_abandoned_children(dag, event_replayer, event_cursor, original_commit_oid)?;
             if let Some((rewritten_oid, abandoned_child_oids)) = abandoned_children {
                 result.push(RebaseInfo {
+                    original_commit_oid,
                     dest_oid: rewritten_oid,
                     abandoned_child_oids,
                 });
@@ -131,6 +133,7 @@ fn restack_commits(
                 .iter()
                 .flat_map(
                     |RebaseInfo {
+                         original_commit_oid: _,
                          dest_oid: _,
                          abandoned_child_oids,
                      }| abandoned_child_oids.iter().copied(),
@@ -145,10 +148,14 @@ fn restack_commits(
         };
         let mut builder = RebasePlanBuilder::new(dag, permissions);
         for RebaseInfo {
+            original_commit_oid,
             dest_oid,
             abandoned_child_oids,
         } in rebases
         {
+            if dest_oid != original_commit_oid {
+                builder.leave_superseded_commits(CommitSet::from(original_commit_oid));
+            }
             for child_oid in abandoned_child_oids {
                 builder.move_subtree(child_oid, vec![dest_oid])?;
             }
-- 
2.43.0


From e014b7186a15c98207d8de58294b31cf92fed637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:32 +0000
Subject: [PATCH 24/35] fix: restack updates the working copy when it moves the
 checked-out branch

---
 git-branchless-lib/src/core/rewrite/mod.rs |  4 +--
 git-branchless/src/commands/restack.rs     | 36 ++++++++++++++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/mod.rs b/git-branchless-lib/src/core/rewrite/mod.rs
index 5b573b2..c3e4e2a 100644
--- a/git-branchless-lib/src/core/rewrite/mod.rs
+++ b/git-branchless-lib/src/core/rewrite/mod.rs
@@ -9,8 +9,8 @@ use std::sync::Mutex;
 
 pub use evolve::{find_abandoned_children, find_rewrite_target};
 pub use execute::{
-    execute_rebase_plan, move_branches, ExecuteRebasePlanOptions, ExecuteRebasePlanResult,
-    FailedMergeInfo, MergeConflictRemediation,
+    check_out_updated_head, execute_rebase_plan, move_branches, ExecuteRebasePlanOptions,
+    ExecuteRebasePlanResult, FailedMergeInfo, MergeConflictRemediation,
 };
 pub use plan::{
     BuildRebasePlanError, BuildRebasePlanOptions, OidOrLabel, RebaseCommand, RebasePlan,
diff --git a/git-branchless/src/commands/restack.rs b/git-branchless/src/commands/restack.rs
index 8f3102e..e256b71 100644
--- a/git-branchless/src/commands/restack.rs
+++ b/git-branchless/src/commands/restack.rs
@@ -74,11 +74,11 @@ use lib::core::dag::{union_all, CommitSet, Dag};
 use lib::core::effects::Effects;
 use lib::core::eventlog::{EventCursor, EventLogDb, EventReplayer};
 use lib::core::rewrite::{
-    execute_rebase_plan, find_abandoned_children, find_rewrite_target, move_branches,
-    BuildRebasePlanOptions, ExecuteRebasePlanOptions, ExecuteRebasePlanResult,
+    check_out_updated_head, execute_rebase_plan, find_abandoned_children, find_rewrite_target,
+    move_branches, BuildRebasePlanOptions, ExecuteRebasePlanOptions, ExecuteRebasePlanResult,
     MergeConflictRemediation, RebasePlanBuilder, RebasePlanPermissions, RepoPool, RepoResource,
 };
-use lib::git::{GitRunInfo, NonZeroOid, Repo};
+use lib::git::{GitRunInfo, MaybeZeroOid, NonZeroOid, Repo};
 
 #[instrument(skip(commits))]
 fn restack_commits(
@@ -252,6 +252,23 @@ fn restack_branches(
             "No abandoned branches to restack."
         )?;
     } else {
+        let head_info = repo.get_head_info()?;
+        let needs_checkout = match (&head_info.reference_name, head_info.oid) {
+            (Some(_), Some(head_oid)) => match rewritten_oids.get(&head_oid) {
+                Some(MaybeZeroOid::NonZero(new_oid)) => {
+                    repo.find_commit_or_fail(head_oid)?.get_tree_oid()
+                        != repo.find_commit_or_fail(*new_oid)?.get_tree_oid()
+                }
+                Some(MaybeZeroOid::Zero) => true,
+                None => false,
+            },
+            _ => false,
+        };
+        if needs_checkout {
+            // Avoid moving the branch which HEAD points to, or else the index will show
+            // a lot of changes in the working copy.
+            repo.detach_head(&head_info)?;
+        }
         move_branches(
             effects,
             git_run_info,
@@ -259,6 +276,19 @@ fn restack_branches(
             options.event_tx_id,
             &rewritten_oids,
         )?;
+        if needs_checkout {
+            try_exit_code!(check_out_updated_head(
+                effects,
+                git_run_info,
+                repo,
+                event_log_db,
+                options.event_tx_id,
+                &rewritten_oids,
+                &head_info,
+                None,
+                &options.check_out_commit_options,
+            )?);
+        }
         writeln!(effects.get_output_stream(), "Finished restacking branches.")?;
     }
     Ok(Ok(()))
-- 
2.43.0


From e464b71091e2b2159299678c4dafb052db2a003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:32 +0000
Subject: [PATCH 25/35] fix: commits amended in the course of a rebase do not
 stay visible afterwards

---
 .../src/core/rewrite/rewrite_hooks.rs         | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs b/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
index 9566930..0115814 100644
--- a/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
+++ b/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
@@ -58,6 +58,32 @@ fn read_deferred_commits(repo: &Repo) -> eyre::Result<Vec<NonZeroOid>> {
     Ok(commit_oids)
 }
 
+/// Forget about the given deferred commits, as they were amended before the
+/// rebase completed.
+fn remove_deferred_commits(
+    repo: &Repo,
+    amended_commits: &[(NonZeroOid, MaybeZeroOid)],
+) -> eyre::Result<()> {
+    let deferred_commit_oids = read_deferred_commits(repo)?;
+    let remaining_commit_oids = deferred_commit_oids
+        .iter()
+        .filter(|oid| {
+            !amended_commits
+                .iter()
+                .any(|(old_oid, new_oid)| old_oid == *oid && *new_oid != (**oid).into())
+        })
+        .collect_vec();
+    if remaining_commit_oids.len() != deferred_commit_oids.len() {
+        let contents: Vec<String> = remaining_commit_oids
+            .into_iter()
+            .map(|oid| format!("{oid}\n"))
+            .collect();
+        fs::write(get_deferred_commits_path(repo), contents.concat())
+            .wrap_err("Writing deferred commits")?;
+    }
+    Ok(())
+}
+
 #[instrument(skip(stream))]
 fn read_rewritten_list_entries(
     stream: &mut impl Read,
@@ -141,6 +167,8 @@ pub fn hook_post_rewrite(
     let repo = Repo::from_current_dir()?;
     let is_spurious_event = rewrite_type == "amend" && repo.is_rebase_underway()?;
     if is_spurious_event {
+        let amended_commits = read_rewritten_list_entries(&mut stdin().lock())?;
+        remove_deferred_commits(&repo, &amended_commits)?;
         return Ok(());
     }
 
-- 
2.43.0


From 383e77b491fe16545545cb04aea315ecbc657cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:45 +0000
Subject: [PATCH 26/35] fix: commits made visible again by unhide or undo are
 kept by garbage collection

---
 git-branchless-undo/src/lib.rs      | 18 +++++++++++++++++-
 git-branchless/src/commands/hide.rs |  5 +++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/git-branchless-undo/src/lib.rs b/git-branchless-undo/src/lib.rs
index 181378b..2ce857b 100644
--- a/git-branchless-undo/src/lib.rs
+++ b/git-branchless-undo/src/lib.rs
@@ -40,6 +40,7 @@ use lib::core::dag::{CommitSet, Dag};
 use lib::core::effects::Effects;
 use lib::core::eventlog::{Event, EventCursor, EventLogDb, EventReplayer, EventTransactionId};
 use lib::core::formatting::{Glyphs, Pluralize, StyledStringBuilder};
+use lib::core::gc::mark_commit_reachable;
 use lib::core::node_descriptors::{
     BranchesDescriptor, CommitMessageDescriptor, CommitOidDescriptor,
     DifferentialRevisionDescriptor, ObsolescenceExplanationDescriptor, Redactor,
@@ -917,9 +918,24 @@ fn undo_events(
                 // Should be handled as the checkout target already.
             }
 
+            Event::UnobsoleteEvent {
+                timestamp: _,
+                event_tx_id: _,
+                commit_oid,
+            }
+            | Event::RewriteEvent {
+                timestamp: _,
+                event_tx_id: _,
+                old_commit_oid: _,
+                new_commit_oid: MaybeZeroOid::NonZero(commit_oid),
+            } => {
+                // The commit may have been collected by branchless already.
+                mark_commit_reachable(repo, *commit_oid)?;
+                event_log_db.add_events(vec![event.clone()])?;
+            }
+
             Event::CommitEvent { .. }
             | Event::ObsoleteEvent { .. }
-            | Event::UnobsoleteEvent { .. }
             | Event::RewriteEvent { .. } => {
                 event_log_db.add_events(vec![event.clone()])?;
             }
diff --git a/git-branchless/src/commands/hide.rs b/git-branchless/src/commands/hide.rs
index 32a20df..f9c3111 100644
--- a/git-branchless/src/commands/hide.rs
+++ b/git-branchless/src/commands/hide.rs
@@ -11,6 +11,7 @@ use lib::core::effects::Effects;
 use lib::core::eventlog::{CommitActivityStatus, Event};
 use lib::core::eventlog::{EventLogDb, EventReplayer};
 use lib::core::formatting::{Glyphs, Pluralize};
+use lib::core::gc::mark_commit_reachable;
 use lib::core::repo_ext::RepoExt;
 use lib::core::rewrite::move_branches;
 use lib::git::{CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, Repo};
@@ -228,6 +229,10 @@ pub fn unhide(
         .map(|commit_oid| repo.find_commit_or_fail(commit_oid))
         .collect::<Result<Vec<_>, _>>()?;
 
+    for commit in &commits {
+        mark_commit_reachable(&repo, commit.get_oid())?;
+    }
+
     let timestamp = now.duration_since(SystemTime::UNIX_EPOCH)?.as_secs_f64();
     let event_tx_id = event_log_db.make_transaction_id(now, "unhide")?;
     let events = commits
-- 
2.43.0


From 340ebcc26ef54b81ca2b103edf861d28762201d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:37 +0000
Subject: [PATCH 27/35] fix: unhide -r skips commits that were
 garbage-collected

---
 git-branchless/src/commands/hide.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless/src/commands/hide.rs b/git-branchless/src/commands/hide.rs
index f9c3111..dd2fa0b 100644
--- a/git-branchless/src/commands/hide.rs
+++ b/git-branchless/src/commands/hide.rs
@@ -226,7 +226,8 @@ pub fn unhide(
     let commits = dag.sort(&commits)?;
     let commits = commits
         .into_iter()
-        .map(|commit_oid| repo.find_commit_or_fail(commit_oid))
+        // Hidden descendants may have been garbage-collected already.
+        .filter_map(|commit_oid| repo.find_commit(commit_oid).transpose())
         .collect::<Result<Vec<_>, _>>()?;
 
     for commit in &commits {
-- 
2.43.0


From 838efba89b324fd96cda05061f642ed8738237d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:31 +0000
Subject: [PATCH 28/35] fix: submit --create updates existing branches when
 there is nothing to create and no default remote

---
 git-branchless-submit/src/branch_forge.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/git-branchless-submit/src/branch_forge.rs b/git-branchless-submit/src/branch_forge.rs
index 5484de5..b42b2b1 100644
--- a/git-branchless-submit/src/branch_forge.rs
+++ b/git-branchless-submit/src/branch_forge.rs
@@ -205,6 +205,9 @@ impl Forge for BranchForge<'_> {
             })
             .sorted()
             .collect_vec();
+        if unsubmitted_branch_names.is_empty() {
+            return Ok(Ok(Default::default()));
+        }
 
         // FIXME: in principle, it's possible for a branch to have been assigned
         // a remote without having been pushed and having created a
-- 
2.43.0


From 993b4cea3fba98eb3917b24c15ad98a1c97b41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:40 +0000
Subject: [PATCH 29/35] fix: init keeps carriage returns in the user's hooks

---
 git-branchless-init/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/git-branchless-init/src/lib.rs b/git-branchless-init/src/lib.rs
index 5097e68..e0360c4 100644
--- a/git-branchless-init/src/lib.rs
+++ b/git-branchless-init/src/lib.rs
@@ -152,12 +152,15 @@ fn update_between_lines(lines: &str, updated_lines: &str) -> String {
     let mut new_lines = String::new();
     let mut found_marker = false;
     let mut is_ignoring_lines = false;
-    for line in lines.lines() {
-        if line == UPDATE_MARKER_START {
+    // Don't use `str::lines` here, as it would also remove carriage returns from
+    // the user's lines.
+    for line in lines.split_terminator('\n') {
+        let marker = line.strip_suffix('\r').unwrap_or(line);
+        if marker == UPDATE_MARKER_START {
             found_marker = true;
             is_ignoring_lines = true;
             append_hook(&mut new_lines, updated_lines);
-        } else if line == UPDATE_MARKER_END {
+        } else if marker == UPDATE_MARKER_END {
             is_ignoring_lines = false;
         } else if !is_ignoring_lines {
             new_lines.push_str(line);
-- 
2.43.0


From df332e9a2203ce1cc9a9d3d794fc097bc1835f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:46 +0000
Subject: [PATCH 30/35] fix: a relative core.hooksPath is resolved against the
 root of the working copy

---
 git-branchless-init/src/lib.rs        |  4 ++++
 git-branchless-lib/src/core/config.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/git-branchless-init/src/lib.rs b/git-branchless-init/src/lib.rs
index e0360c4..702299c 100644
--- a/git-branchless-init/src/lib.rs
+++ b/git-branchless-init/src/lib.rs
@@ -261,6 +261,10 @@ fn install_hooks(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo) -> e
 
     let default_hooks_dir = get_default_hooks_dir(repo)?;
     if hooks_dir != default_hooks_dir {
+        let hooks_dir = match repo.get_working_copy_path() {
+            Some(path) => hooks_dir.strip_prefix(path).unwrap_or(&hooks_dir),
+            None => &hooks_dir,
+        };
         writeln!(
             effects.get_output_stream(),
             "\
diff --git a/git-branchless-lib/src/core/config.rs b/git-branchless-lib/src/core/config.rs
index 248525a..1fb8a13 100644
--- a/git-branchless-lib/src/core/config.rs
+++ b/git-branchless-lib/src/core/config.rs
@@ -54,7 +54,15 @@ pub fn get_main_worktree_hooks_dir(
     let hooks_path = if result.exit_code.is_success() {
         let path = String::from_utf8(result.stdout)
             .context("Decoding git config output for hooks path")?;
-        PathBuf::from(path.strip_suffix('\n').unwrap_or(&path))
+        let path = PathBuf::from(path.strip_suffix('\n').unwrap_or(&path));
+        // Git resolves a relative path with respect to the root of the working
+        // copy, regardless of the current directory.
+        let parent_repo = repo.open_worktree_parent_repo()?;
+        let repo = parent_repo.as_ref().unwrap_or(repo);
+        match repo.get_working_copy_path() {
+            Some(working_copy_path) => working_copy_path.join(path),
+            None => path,
+        }
     } else {
         get_default_hooks_dir(repo)?
     };
-- 
2.43.0


From 66507a5b9c86f6fbcc6b2d908dc20277d462519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:14 +0000
Subject: [PATCH 31/35] fix: test results of different commands are not mixed
 up

The directory for the cached results was named after the command with
slashes, spaces and newlines all replaced by "__", so `git test run -x
'./run a/b'` reported the cached result of './run a b'. Commands longer
than a file name can be failed altogether. Add a hash to the name in these
cases.
---
 git-branchless-lib/src/git/test.rs | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/git/test.rs b/git-branchless-lib/src/git/test.rs
index eb9aa1a..c3ad571 100644
--- a/git-branchless-lib/src/git/test.rs
+++ b/git-branchless-lib/src/git/test.rs
@@ -5,7 +5,12 @@
 //! Regrettably, this adds `serde` as a new dependency to `git-branchless-lib`,
 //! which will increase build times.
 
-use std::{fmt::Display, path::PathBuf};
+use std::{
+    collections::hash_map::DefaultHasher,
+    fmt::Display,
+    hash::{Hash, Hasher},
+    path::PathBuf,
+};
 
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 
@@ -41,9 +46,32 @@ pub const TEST_INDETERMINATE_EXIT_CODE: i32 = 125;
 /// shouldn't be too confusing in practice.
 pub const TEST_ABORT_EXIT_CODE: i32 = 127;
 
+/// The longest command slug to use as a filename (without the hash).
+const MAX_TEST_COMMAND_SLUG_LEN: usize = 128;
+
+fn hash_command(command: &str) -> u64 {
+    let mut hasher = DefaultHasher::new();
+    command.hash(&mut hasher);
+    hasher.finish()
+}
+
 /// Convert a command string into a string that's safe to use as a filename.
+/// Different commands are converted to different strings.
 pub fn make_test_command_slug(command: String) -> String {
-    command.replace(['/', ' ', '\n'], "__")
+    let slug = command.replace(['/', ' ', '\n'], "__");
+    let is_ambiguous = command.contains(['/', '\n', '_']);
+    if !is_ambiguous && slug.len() <= MAX_TEST_COMMAND_SLUG_LEN {
+        return slug;
+    }
+
+    // Other commands could have the same slug, or the file system might not
+    // support names of this length.
+    let hash = hash_command(&command);
+    let mut prefix_len = slug.len().min(MAX_TEST_COMMAND_SLUG_LEN);
+    while !slug.is_char_boundary(prefix_len) {
+        prefix_len -= 1;
+    }
+    format!("{}__{hash:016x}", &slug[..prefix_len])
 }
 
 /// A version of `NonZeroOid` that can be serialized and deserialized.
-- 
2.43.0


From 6c51ef61ced0633e76de31007020150ed8ed8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:03 +0000
Subject: [PATCH 32/35] fix: commits that redo a change of the merge base are
 not dropped as duplicates

When moving commits, those with the same patch as a commit between the
merge base and the destination are skipped. The merge base itself counted
as one of these, so in a stack that reverts the commit it is based on, and
then applies it again, the latter commit was dropped and the change was
lost.
---
 git-branchless-lib/src/core/rewrite/plan.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index 20c88e7..b8cbe6f 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -1329,7 +1329,7 @@ impl<'a> RebasePlanBuilder<'a> {
             let (effects, _progress) = effects.start_operation(OperationType::WalkCommits);
             let _effects = effects;
             self.dag
-                .query_range(merge_base_oids, dest_oids.iter().copied().collect())
+                .query_range(merge_base_oids.clone(), dest_oids.iter().copied().collect())
                 .wrap_err("Calculating upstream commits")?
         };
 
@@ -1349,9 +1349,12 @@ impl<'a> RebasePlanBuilder<'a> {
         let (effects, progress) = effects.start_operation(OperationType::GetUpstreamPatchIds);
         progress.notify_progress(0, path.len());
         let result: HashSet<PatchId> = {
+            // The merge-bases are already ancestors of the current commit.
+            let merge_base_oids = self.dag.commit_set_to_vec(&merge_base_oids)?;
             let path_oids = path
                 .into_iter()
                 .map(|commit| commit.get_oid())
+                .filter(|commit_oid| !merge_base_oids.contains(commit_oid))
                 .collect_vec();
 
             pool.install(|| {
-- 
2.43.0


From dee2fef6d81b3bc39ff1e868e88faaef3ff517cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:55 +0000
Subject: [PATCH 33/35] fix: move --insert and --fixup leave hidden descendants
 behind

The descendants of the moved commits which had been hidden were folded
into the destination by --fixup, and --insert put the children of the
destination on top of the hidden descendant instead of on top of the
moved commits, which then dropped them.
---
 git-branchless-move/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 386791d..be6b7f1 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -304,7 +304,10 @@ pub fn r#move(
         let source_roots = dag.query_roots(source_oids.clone())?;
         for source_root in dag.commit_set_to_vec(&source_roots)? {
             if fixup {
-                let commits = dag.query_descendants(CommitSet::from(source_root))?;
+                // Leave behind any descendants which were hidden.
+                let commits = dag
+                    .filter_visible_commits(dag.query_descendants(CommitSet::from(source_root))?)?
+                    .union(&CommitSet::from(source_root));
                 let commits = dag.commit_set_to_vec(&commits)?;
                 for commit in commits.iter() {
                     builder.fixup_commit(*commit, dest_oid)?;
@@ -445,9 +448,12 @@ pub fn r#move(
                         .clone();
                     dag.query_heads(head_component)?
                 };
-                let source_heads: CommitSet = dag
-                    .query_heads(dag.query_descendants(source_oids.clone())?)?
-                    .union(&exact_head);
+                // Any descendants which were hidden aren't moved.
+                let moved_descendants = dag
+                    .filter_visible_commits(dag.query_descendants(source_oids.clone())?)?
+                    .union(&source_oids);
+                let source_heads: CommitSet =
+                    dag.query_heads(moved_descendants)?.union(&exact_head);
                 match dag.commit_set_to_vec(&source_heads)?.as_slice() {
                     [oid] => *oid,
                     _ => {
-- 
2.43.0


From a1968d51f277c8a3108469302a1a767d5239bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:36 +0000
Subject: [PATCH 34/35] fix: move --fixup applies folded commits after their
 ancestors

When several commits were folded into one, the order by commit time
could put a commit before its ancestor if an unrelated commit was
folded as well, so that the combined contents were wrong.
---
 git-branchless-lib/src/core/rewrite/plan.rs | 31 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index b8cbe6f..b5b8ef7 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -749,6 +749,26 @@ This is a bug. Please report it.",
     }
 }
 
+/// Reorder the commits so that each one comes after all of its ancestors, even
+/// if their order with regard to unrelated commits is contradictory. (The
+/// commits are otherwise kept in order.)
+fn sort_ancestors_first(
+    dag: &Dag,
+    mut commit_oids: Vec<NonZeroOid>,
+) -> eyre::Result<Vec<NonZeroOid>> {
+    let mut result = Vec::new();
+    while !commit_oids.is_empty() {
+        let mut next = 0;
+        for i in 1..commit_oids.len() {
+            if dag.query_is_ancestor(commit_oids[i], commit_oids[next])? {
+                next = i;
+            }
+        }
+        result.push(commit_oids.remove(next));
+    }
+    Ok(result)
+}
+
 impl<'a> RebasePlanBuilder<'a> {
     /// Constructor.
     pub fn new(dag: &'a Dag, permissions: RebasePlanPermissions) -> Self {
@@ -952,10 +972,13 @@ impl<'a> RebasePlanBuilder<'a> {
                                 let commits_to_apply =
                                     sorted_commit_set(repo, state.constraints.dag, &commit_set)?;
 
-                                commits_to_apply
-                                    .iter()
-                                    .map(|commit| commit.get_oid())
-                                    .collect()
+                                sort_ancestors_first(
+                                    state.constraints.dag,
+                                    commits_to_apply
+                                        .iter()
+                                        .map(|commit| commit.get_oid())
+                                        .collect(),
+                                )?
                             }
                         };
                         acc.push(RebaseCommand::Pick {
-- 
2.43.0


From ad6c2891fb2e80f97671a8ab52a36b888ba21356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:58 +0000
Subject: [PATCH 35/35] fix: the status of a worktree is queried in that
 worktree

A test command run with the worktree strategy had its changes looked for
in the main working copy: fixes were not picked up, and uncommitted
changes there made the test fail with an error.
---
 git-branchless-lib/src/git/repo.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 6ca6223..379de03 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -992,6 +992,16 @@ impl Repo {
         let (effects, _progress) = effects.start_operation(OperationType::QueryWorkingCopy);
         let _effects = effects;
 
+        // Query the status of this worktree, even if the command was invoked
+        // from the main working copy.
+        let working_directory = match self.get_working_copy_path() {
+            Some(working_copy_path) if self.inner.is_worktree() => working_copy_path,
+            Some(_) | None => git_run_info.working_directory.clone(),
+        };
+        let git_run_info = GitRunInfo {
+            working_directory,
+            ..git_run_info.clone()
+        };
         let output = git_run_info
             .run_silent(
                 self,
-- 
2.43.0

