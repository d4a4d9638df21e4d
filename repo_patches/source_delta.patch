From ecbab32b950f495533d409a576ecb398251aec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:38 +0000
Subject: [PATCH 01/25] fix: keep unhidden commits reachable

Garbage collection drops the reference of a hidden commit.
Unhiding the commit did not put it back, so that Git could later collect a visible commit.
---
 git-branchless/src/commands/hide.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/git-branchless/src/commands/hide.rs b/git-branchless/src/commands/hide.rs
index 32a20df..fc9a6fc 100644
--- a/git-branchless/src/commands/hide.rs
+++ b/git-branchless/src/commands/hide.rs
@@ -11,6 +11,7 @@ use lib::core::effects::Effects;
 use lib::core::eventlog::{CommitActivityStatus, Event};
 use lib::core::eventlog::{EventLogDb, EventReplayer};
 use lib::core::formatting::{Glyphs, Pluralize};
+use lib::core::gc::mark_commit_reachable;
 use lib::core::repo_ext::RepoExt;
 use lib::core::rewrite::move_branches;
 use lib::git::{CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, Repo};
@@ -228,6 +229,12 @@ pub fn unhide(
         .map(|commit_oid| repo.find_commit_or_fail(commit_oid))
         .collect::<Result<Vec<_>, _>>()?;
 
+    // The references to these commits may have been garbage-collected while
+    // they were hidden.
+    for commit in commits.iter() {
+        mark_commit_reachable(&repo, commit.get_oid())?;
+    }
+
     let timestamp = now.duration_since(SystemTime::UNIX_EPOCH)?.as_secs_f64();
     let event_tx_id = event_log_db.make_transaction_id(now, "unhide")?;
     let events = commits
-- 
2.43.0


From 15a92c31e14b742fd8b98c9bdd30d95d85879b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:12 +0000
Subject: [PATCH 02/25] fix: report an error instead of crashing when rewriting
 a root commit

---
 git-branchless-lib/src/core/rewrite/plan.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index e4a652f..b29bcc2 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -1022,7 +1022,9 @@ impl<'a> RebasePlanBuilder<'a> {
         source_oid: NonZeroOid,
         dest_oids: Vec<NonZeroOid>,
     ) -> eyre::Result<()> {
-        assert!(!dest_oids.is_empty());
+        if dest_oids.is_empty() {
+            eyre::bail!("Rewriting the root commit {source_oid} is not supported.");
+        }
         self.initial_constraints.push(Constraint::MoveSubtree {
             parent_oids: dest_oids,
             child_oid: source_oid,
@@ -1170,7 +1172,10 @@ impl<'a> RebasePlanBuilder<'a> {
                 } => eyre::bail!("BUG: Invalid constraint encountered while preparing rebase plan.\nThis should be unreachable."),
             };
 
-            let first_parent_oid = *parent_oids.first().unwrap();
+            let first_parent_oid = match parent_oids.first() {
+                Some(first_parent_oid) => *first_parent_oid,
+                None => eyre::bail!("Rewriting the root commit {child_oid} is not supported."),
+            };
             first_dest_oid.get_or_insert(first_parent_oid);
             acc.push(RebaseCommand::Reset {
                 target: OidOrLabel::Oid(first_parent_oid),
-- 
2.43.0


From 23ee1696779239f23fd9f261753e21e2831e8ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:14 +0000
Subject: [PATCH 03/25] fix: check the target of a fixup before rewriting it

`git move --fixup` amends the destination commit, but only the moved
commits and the children of the destination were checked. Squashing a
commit into the tip of the main branch rewrote a public commit without
`--force-rewrite`.
---
 git-branchless-lib/src/core/rewrite/plan.rs | 6 +++++-
 git-branchless-move/src/lib.rs              | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index b29bcc2..161f54f 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -433,7 +433,11 @@ impl<'a> ConstraintGraph<'a> {
             build_options: _,
             allowed_commits,
         } = &self.permissions;
-        let commits_to_move: CommitSet = self.commits_to_move().into_iter().collect();
+        let commits_to_move: CommitSet = self
+            .commits_to_move()
+            .union(&self.commits_to_fixup())
+            .copied()
+            .collect();
         let illegal_commits_to_move = commits_to_move.difference(allowed_commits);
         if !self.dag.set_is_empty(&illegal_commits_to_move)? {
             Ok(Err(BuildRebasePlanError::MoveIllegalCommits {
diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 86b081d..8a78ed4 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -278,7 +278,10 @@ pub fn r#move(
             let commits_to_move = commits_to_move.union(&union_all(
                 &exact_components.values().cloned().collect::<Vec<_>>(),
             ));
-            let commits_to_move = if insert || fixup {
+            let commits_to_move = if fixup {
+                // The destination commit itself will be rewritten.
+                commits_to_move.union(&CommitSet::from(dest_oid))
+            } else if insert {
                 commits_to_move.union(&dag.query_children(CommitSet::from(dest_oid))?)
             } else {
                 commits_to_move
-- 
2.43.0


From 910aa656e1c2376110d2ed6ead54c385e1cb3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:45 +0000
Subject: [PATCH 04/25] fix: ignore hidden commits when inserting moved commits

`git move --insert` put the children of the destination on top of a
hidden descendant of the moved commits, or refused because of it.
---
 git-branchless-move/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 8a78ed4..2f91689 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -442,9 +442,10 @@ pub fn r#move(
                         .clone();
                     dag.query_heads(head_component)?
                 };
-                let source_heads: CommitSet = dag
-                    .query_heads(dag.query_descendants(source_oids.clone())?)?
-                    .union(&exact_head);
+                let source_descendants = dag.query_descendants(source_oids.clone())?;
+                let source_descendants = dag.filter_visible_commits(source_descendants)?;
+                let source_heads: CommitSet =
+                    dag.query_heads(source_descendants)?.union(&exact_head);
                 match dag.commit_set_to_vec(&source_heads)?.as_slice() {
                     [oid] => *oid,
                     _ => {
-- 
2.43.0


From 6f397e7b77c975c948f291c4e9a216e517a42b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:45 +0000
Subject: [PATCH 05/25] fix: do not squash hidden commits into the destination
 of a fixup

`git move --fixup --source` also applied the hidden descendants of the
source commit.
---
 git-branchless-move/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 2f91689..53e058d 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -302,6 +302,7 @@ pub fn r#move(
         for source_root in dag.commit_set_to_vec(&source_roots)? {
             if fixup {
                 let commits = dag.query_descendants(CommitSet::from(source_root))?;
+                let commits = dag.filter_visible_commits(commits)?;
                 let commits = dag.commit_set_to_vec(&commits)?;
                 for commit in commits.iter() {
                     builder.fixup_commit(*commit, dest_oid)?;
-- 
2.43.0


From cd97d8626245bf88941ab200f9d023f09b332770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:45 +0000
Subject: [PATCH 06/25] fix: keep file removals when squashing a commit into
 another one

---
 git-branchless-lib/src/git/repo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 387f5a2..2d8a578 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1605,7 +1605,8 @@ impl Repo {
                         Ok(Some(entry)) => {
                             Some((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
                         }
-                        Ok(None) | Err(_) => None,
+                        Ok(None) => Some((path.clone(), None)),
+                        Err(_) => None,
                     })
                     .collect::<HashMap<_, _>>()
             }
-- 
2.43.0


From 5361bfed4f528a49febaad7295face0fd1135d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:45 +0000
Subject: [PATCH 07/25] fix: keep a file that replaces a directory when
 rewriting a tree

---
 git-branchless-lib/src/git/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/tree.rs b/git-branchless-lib/src/git/tree.rs
index 96865bf..0ae259c 100644
--- a/git-branchless-lib/src/git/tree.rs
+++ b/git-branchless-lib/src/git/tree.rs
@@ -440,7 +440,10 @@ pub fn hydrate_tree(
             .map_err(Error::FindTree)?
             .ok_or(Error::FindHydratedTree(new_entry_oid))?;
         if new_entry_tree.is_empty() {
-            remove_entry_if_exists(&mut builder, &dir_name)?;
+            // The directory may have been replaced with a file.
+            if existing_dir_entry.is_some() {
+                remove_entry_if_exists(&mut builder, &dir_name)?;
+            }
         } else {
             builder
                 .insert(&dir_name, new_entry_oid.inner, git2::FileMode::Tree.into())
-- 
2.43.0


From 1985a3ec798f1cefee07b7e17c0fead6a2d86fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:45 +0000
Subject: [PATCH 08/25] fix: refuse to squash a commit into itself

`git move --fixup` with the destination among the squashed commits
removed that commit from below its descendants and kept its changes
nowhere.
---
 git-branchless-lib/src/core/rewrite/plan.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index 161f54f..1817abc 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -1076,6 +1076,9 @@ impl<'a> RebasePlanBuilder<'a> {
         source_oid: NonZeroOid,
         dest_oid: NonZeroOid,
     ) -> eyre::Result<()> {
+        if source_oid == dest_oid {
+            eyre::bail!("Squashing the commit {source_oid} into itself is not supported.");
+        }
         self.initial_constraints.push(Constraint::FixUpCommit {
             commit_to_fixup_oid: dest_oid,
             fixup_commit_oid: source_oid,
-- 
2.43.0


From 23aa0fb25be1b22b874792c182c15db8d1b65754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:23 +0000
Subject: [PATCH 09/25] fix: store the target of a symbolic link when recording
 working copy changes

Amending a commit with a changed symbolic link, or taking a snapshot of it,
recorded the contents of the file which it points to, or dropped the link if
it pointed nowhere.
---
 git-branchless-lib/src/git/repo.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 2d8a578..f9930e1 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1232,7 +1232,17 @@ impl Repo {
                 path: path.to_path_buf(),
             })?
             .join(path);
-        let contents = match std::fs::read(&path) {
+        let contents = std::fs::symlink_metadata(&path).and_then(|metadata| {
+            if metadata.file_type().is_symlink() {
+                // Git stores the target of a symbolic link, rather than the
+                // contents of the file which it points to.
+                let target = std::fs::read_link(&path)?;
+                Ok(target.as_os_str().as_encoded_bytes().to_vec())
+            } else {
+                std::fs::read(&path)
+            }
+        });
+        let contents = match contents {
             Ok(contents) => contents,
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
             Err(err) => {
-- 
2.43.0


From cdc74617446d0728853cbe4cc071dcf0b915ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:18 +0000
Subject: [PATCH 10/25] fix: amend with the removal of a file replaced by a
 directory

---
 git-branchless-lib/src/git/repo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index f9930e1..756365a 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1570,6 +1570,11 @@ impl Repo {
                     entry.paths().into_iter().map(
                         move |path| -> Result<(PathBuf, Option<(NonZeroOid, FileMode)>)> {
                             let file_path = repo_path.join(&path);
+                            if entry.working_copy_file_mode == FileMode::Unreadable {
+                                // The file was deleted, even if there's now
+                                // something else at this path (such as a directory).
+                                return Ok((path, None));
+                            }
                             // Try to create a new blob OID based on the current on-disk
                             // contents of the file in the working copy.
                             let entry = self
-- 
2.43.0


From 487ff5670394d5b867d8599763306ccda8f40ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:53 +0000
Subject: [PATCH 11/25] fix: return to the previous commit after stashing on a
 detached HEAD

git record --stash left the new commit checked out when no branch was.
---
 git-branchless-record/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 166f653..f70d7d0 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -214,7 +214,13 @@ fn record(
             ResolvedReferenceInfo {
                 oid: Some(oid),
                 reference_name: _,
-            } => Some(CheckoutTarget::Oid(oid)),
+            } => {
+                // `HEAD` is now detached at the new commit; switch back to the
+                // commit which was checked out before.
+                let head_commit = repo.find_commit_or_fail(oid)?;
+                let parent_commit = head_commit.get_parents().into_iter().next();
+                parent_commit.map(|parent_commit| CheckoutTarget::Oid(parent_commit.get_oid()))
+            }
             _ => None,
         };
         if stash && checkout_target.is_some() {
-- 
2.43.0


From 94565f465e2d25af0a7e39fbe937a9ae97ef0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:32 +0000
Subject: [PATCH 12/25] fix: insert the recorded commit rather than the one
 checked out

git record --insert --stash moved the siblings of the commit that was checked
out before onto that commit.
---
 git-branchless-record/src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index f70d7d0..ec752be 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -168,6 +168,7 @@ fn record(
         try_exit_code!(git_run_info.run_direct_no_wrapping(Some(event_tx_id), &args)?);
     }
 
+    let recorded_oid = repo.get_head_info()?.oid;
     if detach || stash {
         let head_info = repo.get_head_info()?;
         if let ResolvedReferenceInfo {
@@ -245,7 +246,8 @@ fn record(
             effects,
             git_run_info,
             now,
-            event_tx_id
+            event_tx_id,
+            recorded_oid,
         )?);
     }
 
@@ -427,6 +429,7 @@ fn insert_before_siblings(
     git_run_info: &GitRunInfo,
     now: SystemTime,
     event_tx_id: EventTransactionId,
+    recorded_oid: Option<NonZeroOid>,
 ) -> EyreExitOr<()> {
     // Reopen the repository since references may have changed.
     let repo = Repo::from_dir(&git_run_info.working_directory)?;
@@ -435,16 +438,10 @@ fn insert_before_siblings(
     let references_snapshot = repo.get_references_snapshot()?;
     let event_replayer = EventReplayer::from_event_log_db(effects, &repo, &event_log_db)?;
     let event_cursor = event_replayer.make_default_cursor();
-    let head_info = repo.get_head_info()?;
-    let head_oid = match head_info {
-        ResolvedReferenceInfo {
-            oid: Some(head_oid),
-            reference_name: _,
-        } => head_oid,
-        ResolvedReferenceInfo {
-            oid: None,
-            reference_name: _,
-        } => {
+    // The new commit might not be checked out anymore.
+    let head_oid = match recorded_oid {
+        Some(recorded_oid) => recorded_oid,
+        None => {
             return Ok(Ok(()));
         }
     };
-- 
2.43.0


From cbcb090a9afaff5ebc36dd437da9a1a8c9290f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:16 +0000
Subject: [PATCH 13/25] fix: update the working copy when restacking the
 checked-out branch

The branch was moved underneath HEAD, so that the differences between the old
and the new commit appeared as staged changes.
---
 git-branchless/src/commands/restack.rs | 39 ++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/git-branchless/src/commands/restack.rs b/git-branchless/src/commands/restack.rs
index 0b6c728..9dd167a 100644
--- a/git-branchless/src/commands/restack.rs
+++ b/git-branchless/src/commands/restack.rs
@@ -59,7 +59,7 @@ use std::collections::{HashMap, HashSet};
 use std::fmt::Write;
 use std::time::SystemTime;
 
-use lib::core::check_out::CheckOutCommitOptions;
+use lib::core::check_out::{check_out_commit, CheckOutCommitOptions, CheckoutTarget};
 use lib::core::repo_ext::RepoExt;
 use lib::try_exit_code;
 use lib::util::{ExitCode, EyreExitOr};
@@ -78,7 +78,7 @@ use lib::core::rewrite::{
     BuildRebasePlanOptions, ExecuteRebasePlanOptions, ExecuteRebasePlanResult,
     MergeConflictRemediation, RebasePlanBuilder, RebasePlanPermissions, RepoPool, RepoResource,
 };
-use lib::git::{GitRunInfo, NonZeroOid, Repo};
+use lib::git::{GitRunInfo, MaybeZeroOid, NonZeroOid, Repo, ResolvedReferenceInfo};
 
 #[instrument(skip(commits))]
 fn restack_commits(
@@ -245,6 +245,28 @@ fn restack_branches(
             "No abandoned branches to restack."
         )?;
     } else {
+        // If the currently checked-out branch is about to move, then detach
+        // `HEAD` first, and check out the branch again afterwards, so that the
+        // working copy is updated as well.
+        let head_info = repo.get_head_info()?;
+        let head_branch_name = match &head_info {
+            ResolvedReferenceInfo {
+                oid: Some(head_oid),
+                reference_name: Some(reference_name),
+            } => match rewritten_oids.get(head_oid) {
+                Some(MaybeZeroOid::NonZero(new_oid)) => {
+                    let old_tree_oid = repo.find_commit_or_fail(*head_oid)?.get_tree_oid();
+                    let new_tree_oid = repo.find_commit_or_fail(*new_oid)?.get_tree_oid();
+                    (old_tree_oid != new_tree_oid).then(|| reference_name.clone())
+                }
+                Some(MaybeZeroOid::Zero) => Some(reference_name.clone()),
+                None => None,
+            },
+            _ => None,
+        };
+        if head_branch_name.is_some() {
+            repo.detach_head(&head_info)?;
+        }
         move_branches(
             effects,
             git_run_info,
@@ -252,6 +274,19 @@ fn restack_branches(
             options.event_tx_id,
             &rewritten_oids,
         )?;
+        if let Some(head_branch_name) = head_branch_name {
+            if repo.find_reference(&head_branch_name)?.is_some() {
+                try_exit_code!(check_out_commit(
+                    effects,
+                    git_run_info,
+                    repo,
+                    event_log_db,
+                    options.event_tx_id,
+                    Some(CheckoutTarget::Reference(head_branch_name)),
+                    &options.check_out_commit_options,
+                )?);
+            }
+        }
         writeln!(effects.get_output_stream(), "Finished restacking branches.")?;
     }
     Ok(Ok(()))
-- 
2.43.0


From 334f3dacc04578fa34ef73a539fb6c66dfeefe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:55 +0000
Subject: [PATCH 14/25] fix: Run Git in the worktree when operating on a
 worktree

The workaround for symlinked .git directories made Git commands for a
linked worktree run in the caller's working copy instead, so that for
example 'git test fix' never saw the changes made by the test command.
---
 git-branchless-lib/src/git/run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/run.rs b/git-branchless-lib/src/git/run.rs
index b484690..8d5ced3 100644
--- a/git-branchless-lib/src/git/run.rs
+++ b/git-branchless-lib/src/git/run.rs
@@ -271,9 +271,12 @@ impl GitRunInfo {
             // This workaround may result in slightly incorrect hook behavior,
             // as the current working directory may be a subdirectory of the
             // root of the working tree.
+            //
+            // The working copy of a worktree is looked up differently, and may
+            // legitimately be elsewhere (such as when testing in a worktree).
             .map(|working_copy| {
                 // Both paths are already "canonicalized".
-                if !self.working_directory.starts_with(&working_copy) {
+                if !repo.inner.is_worktree() && !self.working_directory.starts_with(&working_copy) {
                     self.working_directory.clone()
                 } else {
                     working_copy
-- 
2.43.0


From 519a85bd0e893bdfee4fddeb9d8202824d12e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:26 +0000
Subject: [PATCH 15/25] fix: Count staged changes when checking for changed
 files

An on-disk rebase was started with staged changes in the index, and
failed halfway with the rebase still under way.
---
 git-branchless-lib/src/git/repo.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 756365a..1839c62 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -34,7 +34,7 @@ use crate::git::config::{Config, ConfigRead};
 use crate::git::object::Blob;
 use crate::git::oid::{make_non_zero_oid, MaybeZeroOid, NonZeroOid};
 use crate::git::reference::ReferenceNameError;
-use crate::git::run::GitRunInfo;
+use crate::git::run::{GitRunInfo, GitRunOpts};
 use crate::git::tree::{dehydrate_tree, get_changed_paths_between_trees, hydrate_tree, Tree};
 use crate::git::{Branch, BranchType, Commit, Reference, ReferenceName};
 
@@ -975,9 +975,24 @@ impl Repo {
             )
             .map_err(Error::ExecGit)?
         {
-            Ok(()) => Ok(false),
-            Err(_exit_code) => Ok(true),
+            Ok(()) => {}
+            Err(_exit_code) => return Ok(true),
         }
+
+        // Changes may also have been staged, without any further changes to the
+        // staged files.
+        let staged_result = git_run_info
+            .run_silent(
+                self,
+                None,
+                &["diff", "--cached", "--quiet"],
+                GitRunOpts {
+                    treat_git_failure_as_error: false,
+                    stdin: None,
+                },
+            )
+            .map_err(Error::ExecGit)?;
+        Ok(!staged_result.exit_code.is_success())
     }
 
     /// Returns the current status of the repo index and working copy.
-- 
2.43.0


From f29685c0235f6dd35116623ab8aa5aaddf3004f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:35 +0000
Subject: [PATCH 16/25] fix: Recognize type changes in the output of git status

A tracked file which was replaced with a symlink was taken to be
untracked, and so was left out of snapshots and amended commits.
---
 git-branchless-lib/src/git/status.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 72ba336..e6f6744 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -45,7 +45,8 @@ impl From<u8> for FileStatus {
     fn from(status: u8) -> Self {
         match status {
             b'.' => FileStatus::Unmodified,
-            b'M' => FileStatus::Modified,
+            // `T` is for a changed file type, such as a file which is now a symlink.
+            b'M' | b'T' => FileStatus::Modified,
             b'A' => FileStatus::Added,
             b'D' => FileStatus::Deleted,
             b'R' => FileStatus::Renamed,
-- 
2.43.0


From 3c226cb9fbd6c62e0c6571b2a8bc0f1243a2aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:54 +0000
Subject: [PATCH 17/25] fix: Don't ignore all test results if one of them is
 unreadable

The tests.passed() and similar revset functions found no results at all
for a commit for which one test command had no complete result.
---
 git-branchless-revset/src/builtins.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/git-branchless-revset/src/builtins.rs b/git-branchless-revset/src/builtins.rs
index ec865e6..1e15971 100644
--- a/git-branchless-revset/src/builtins.rs
+++ b/git-branchless-revset/src/builtins.rs
@@ -567,9 +567,14 @@ fn read_all_test_results(repo: &Repo, commit: &Commit) -> Option<Vec<SerializedT
         let dir = dir.ok()?;
         if dir.file_type().ok()?.is_dir() {
             let result_path = dir.path().join("result");
-            let result_contents = std::fs::read_to_string(result_path).ok()?;
-            let result: SerializedTestResult = serde_json::from_str(&result_contents).ok()?;
-            all_results.push(result);
+            // The result of one command may be missing or incomplete (such as
+            // after an interrupted test); that doesn't affect the others.
+            let result = std::fs::read_to_string(result_path)
+                .ok()
+                .and_then(|contents| serde_json::from_str::<SerializedTestResult>(&contents).ok());
+            if let Some(result) = result {
+                all_results.push(result);
+            }
         }
     }
     Some(all_results)
-- 
2.43.0


From 5c9ddef849f4f0316ff8bb8f9f5d39af5900df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:32 +0000
Subject: [PATCH 18/25] fix: Let current() name commits which aren't in the
 commit graph yet

The argument was only added to a temporary copy of the commit graph, so
that looking up the result afterwards failed.
---
 git-branchless-revset/src/builtins.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/git-branchless-revset/src/builtins.rs b/git-branchless-revset/src/builtins.rs
index 1e15971..a4f14c3 100644
--- a/git-branchless-revset/src/builtins.rs
+++ b/git-branchless-revset/src/builtins.rs
@@ -504,8 +504,8 @@ fn fn_exactly(ctx: &mut Context, name: &str, args: &[Expr]) -> EvalResult {
 
 #[instrument]
 fn fn_current(ctx: &mut Context, name: &str, args: &[Expr]) -> EvalResult {
-    let mut dag = ctx
-        .dag
+    let original_dag = &mut *ctx.dag;
+    let mut dag = original_dag
         .clear_obsolete_commits(ctx.repo)
         .map_err(EvalError::OtherError)?;
     let mut ctx = Context {
@@ -528,6 +528,12 @@ fn fn_current(ctx: &mut Context, name: &str, args: &[Expr]) -> EvalResult {
         .dag
         .commit_set_to_vec(&expr)
         .map_err(EvalError::OtherError)?;
+
+    // The arguments may have named commits which the original DAG doesn't have.
+    original_dag
+        .sync_from_oids(ctx.effects, ctx.repo, CommitSet::empty(), expr)
+        .map_err(EvalError::OtherError)?;
+
     let mut result = Vec::new();
     for commit_oid in commit_oids {
         match find_rewrite_target(&event_replayer, event_cursor, commit_oid) {
-- 
2.43.0


From 48fa2c29d4c191430dd489b253c734e014ed4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:48 +0000
Subject: [PATCH 19/25] fix: Don't calculate a patch for merge commits

A merge commit was compared with the empty tree, and so was dropped as
already applied if another commit without changes was upstream.
---
 git-branchless-lib/src/git/repo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 1839c62..b345b4d 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -804,6 +804,11 @@ impl Repo {
     /// If the commit has more than one parent, returns `None`.
     #[instrument]
     pub fn get_patch_for_commit(&self, effects: &Effects, commit: &Commit) -> Result<Option<Diff>> {
+        if commit.get_parent_count() > 1 {
+            // The dehydrated commit wouldn't have these parents.
+            return Ok(None);
+        }
+
         let changed_paths = self.get_paths_touched_by_commit(commit)?;
         let dehydrated_commit = self.dehydrate_commit(
             commit,
-- 
2.43.0


From 3e5dedcbb391714b1c4b3a77940e23509830213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:03 +0000
Subject: [PATCH 20/25] fix: Resolve a relative core.hooksPath against the top
 of the working copy

---
 git-branchless-init/src/lib.rs        | 5 ++++-
 git-branchless-lib/src/core/config.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/git-branchless-init/src/lib.rs b/git-branchless-init/src/lib.rs
index 5097e68..8280421 100644
--- a/git-branchless-init/src/lib.rs
+++ b/git-branchless-init/src/lib.rs
@@ -265,7 +265,10 @@ fn install_hooks(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo) -> e
 which is not the expected default value of: {}
 The Git hooks above may have been installed to an unexpected global location.",
             style("Warning").yellow().bold(),
-            hooks_dir.to_string_lossy(),
+            repo.get_working_copy_path()
+                .and_then(|working_copy_path| hooks_dir.strip_prefix(working_copy_path).ok())
+                .unwrap_or(&hooks_dir)
+                .to_string_lossy(),
             default_hooks_dir.to_string_lossy()
         )?;
     }
diff --git a/git-branchless-lib/src/core/config.rs b/git-branchless-lib/src/core/config.rs
index 248525a..436d8ea 100644
--- a/git-branchless-lib/src/core/config.rs
+++ b/git-branchless-lib/src/core/config.rs
@@ -54,7 +54,13 @@ pub fn get_main_worktree_hooks_dir(
     let hooks_path = if result.exit_code.is_success() {
         let path = String::from_utf8(result.stdout)
             .context("Decoding git config output for hooks path")?;
-        PathBuf::from(path.strip_suffix('\n').unwrap_or(&path))
+        // A relative path is relative to the top of the working copy, not to the
+        // current directory.
+        let parent_repo = repo.open_worktree_parent_repo()?;
+        let repo = parent_repo.as_ref().unwrap_or(repo);
+        repo.get_working_copy_path()
+            .unwrap_or_else(|| repo.get_path().to_path_buf())
+            .join(path.strip_suffix('\n').unwrap_or(&path))
     } else {
         get_default_hooks_dir(repo)?
     };
-- 
2.43.0


From 8e1cf64c94f2306308a5bc5cd1b3d987f052c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:38 +0000
Subject: [PATCH 21/25] fix: Don't loop forever if the output of git status has
 a header

---
 git-branchless-lib/src/git/repo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index b345b4d..a1136e9 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1052,7 +1052,13 @@ impl Repo {
                     line
                 }
                 // Skip header lines
-                b'#' => continue,
+                b'#' => {
+                    status_bytes
+                        .by_ref()
+                        .take_while(not_null_terminator)
+                        .for_each(drop);
+                    continue;
+                }
                 _ => {
                     return Err(Error::UnknownStatusLinePrefix {
                         prefix: *line_prefix,
-- 
2.43.0


From 8c9ee25c2bbfc3e38becfbebe968ea37ea269672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:07 +0000
Subject: [PATCH 22/25] fix: Restore the index of a snapshot with a file
 replaced by a directory

---
 git-branchless-lib/src/core/check_out.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index 546a098..b79e5b3 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -12,8 +12,8 @@ use tracing::instrument;
 
 use crate::core::config::get_auto_switch_branches;
 use crate::git::{
-    update_index, CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, ReferenceName,
-    Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
+    update_index, CategorizedReferenceName, FileMode, GitRunInfo, MaybeZeroOid, NonZeroOid,
+    ReferenceName, Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
 };
 use crate::try_exit_code;
 use crate::util::EyreExitOr;
@@ -299,7 +299,10 @@ pub fn restore_snapshot(
             let changed_paths = repo.get_paths_touched_by_commit(commit)?;
             for path in changed_paths {
                 let tree = commit.get_tree()?;
-                let tree_entry = tree.get_path(&path)?;
+                // The entry for a file replaced by a directory is not for the file.
+                let tree_entry = tree
+                    .get_path(&path)?
+                    .filter(|tree_entry| tree_entry.get_filemode() != FileMode::Tree);
 
                 let is_deleted = tree_entry.is_none();
                 if is_deleted {
-- 
2.43.0


From 6a26958273f2aae6ce3349f217e89e1f918acaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:17 +0000
Subject: [PATCH 23/25] fix: Restore all stages of a conflicted file from a
 snapshot

---
 git-branchless-lib/src/core/check_out.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index b79e5b3..8798f9a 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -1,5 +1,6 @@
 //! Handle checking out commits on disk.
 
+use std::collections::HashSet;
 use std::ffi::{OsStr, OsString};
 use std::fmt::Write;
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -289,6 +290,17 @@ pub fn restore_snapshot(
 
     // Check out the staged changes.
     let update_index_script = {
+        // A conflicted file can be the same as in `HEAD` in some of its stages, so
+        // consider all of the higher stages if it changed in any of them.
+        let mut conflicted_paths = HashSet::new();
+        for commit in [
+            &snapshot.commit_stage1,
+            &snapshot.commit_stage2,
+            &snapshot.commit_stage3,
+        ] {
+            conflicted_paths.extend(repo.get_paths_touched_by_commit(commit)?);
+        }
+
         let mut commands = Vec::new();
         for (stage, commit) in [
             (Stage::Stage0, &snapshot.commit_stage0),
@@ -296,7 +308,10 @@ pub fn restore_snapshot(
             (Stage::Stage2, &snapshot.commit_stage2),
             (Stage::Stage3, &snapshot.commit_stage3),
         ] {
-            let changed_paths = repo.get_paths_touched_by_commit(commit)?;
+            let changed_paths = match stage {
+                Stage::Stage0 => repo.get_paths_touched_by_commit(commit)?,
+                Stage::Stage1 | Stage::Stage2 | Stage::Stage3 => conflicted_paths.clone(),
+            };
             for path in changed_paths {
                 let tree = commit.get_tree()?;
                 // The entry for a file replaced by a directory is not for the file.
@@ -304,8 +319,9 @@ pub fn restore_snapshot(
                     .get_path(&path)?
                     .filter(|tree_entry| tree_entry.get_filemode() != FileMode::Tree);
 
+                // Deleting a path deletes it in all stages.
                 let is_deleted = tree_entry.is_none();
-                if is_deleted {
+                if is_deleted && matches!(stage, Stage::Stage0) {
                     commands.push(UpdateIndexCommand::Delete { path: path.clone() })
                 }
 
-- 
2.43.0


From 144e241e1ed67b98b12402d39340861ea3595b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:23 +0000
Subject: [PATCH 24/25] fix: Keep the contents of conflicted files in a
 snapshot

---
 git-branchless-lib/src/git/snapshot.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/git/snapshot.rs b/git-branchless-lib/src/git/snapshot.rs
index ca958e5..e87d243 100644
--- a/git-branchless-lib/src/git/snapshot.rs
+++ b/git-branchless-lib/src/git/snapshot.rs
@@ -302,6 +302,7 @@ branchless: automated working copy snapshot
         head_commit: Option<&Commit>,
         status_entries: &[StatusEntry],
     ) -> eyre::Result<NonZeroOid> {
+        let head_tree = head_commit.map(|commit| commit.get_tree()).transpose()?;
         let changed_paths: Vec<_> = status_entries
             .iter()
             .filter(|entry| {
@@ -319,7 +320,17 @@ branchless: automated working copy snapshot
                 // the blobs for those files and hydrate the tree object. If it
                 // wasn't actually changed, then no harm will be done and that
                 // entry in the tree will also be unchanged.
-                entry.working_copy_status.is_changed() || entry.index_status.is_changed()
+                entry.working_copy_status.is_changed()
+                    || entry.index_status.is_changed()
+                    // The contents of a file changed on both sides of a
+                    // conflict are only on disk.
+                    || (entry.index_status == FileStatus::Unmerged
+                        && match &head_tree {
+                            Some(head_tree) => {
+                                matches!(head_tree.get_path(&entry.path), Ok(Some(_)))
+                            }
+                            None => false,
+                        })
             })
             .flat_map(|entry| {
                 entry
@@ -330,7 +341,6 @@ branchless: automated working copy snapshot
             .collect();
         let num_changes = changed_paths.len();
 
-        let head_tree = head_commit.map(|commit| commit.get_tree()).transpose()?;
         let hydrate_entries = {
             let mut result = HashMap::new();
             for (path, file_mode) in changed_paths {
-- 
2.43.0


From c87569aa096665bf2a3b9cc01e1cf63f7622fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:40:44 +0000
Subject: [PATCH 25/25] fix: Rewrite a merge commit onto the parents that were
 asked for

A merge commit that was moved together with new parents, such as the merge
of an amended commit with another one, kept its original parents.
---
 git-branchless-lib/src/core/rewrite/plan.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index 1817abc..88ca54a 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -787,8 +787,25 @@ impl<'a> RebasePlanBuilder<'a> {
                 // applying this commit. Note that parent commits may or may not
                 // be part of the set of commits to rebase (i.e. may or may not
                 // be mentioned in the constraints).
-                let commits_to_merge: Option<Vec<OidOrLabel>> = current_commit
-                    .get_parent_oids()
+                //
+                // If the caller asked for other parents for this commit, then
+                // use those in place of the original ones.
+                let parent_oids = self
+                    .initial_constraints
+                    .iter()
+                    .find_map(|constraint| match constraint {
+                        Constraint::MoveSubtree {
+                            parent_oids,
+                            child_oid,
+                        } if *child_oid == current_commit.get_oid()
+                            && parent_oids.len() == current_commit.get_parent_count() =>
+                        {
+                            Some(parent_oids.clone())
+                        }
+                        _ => None,
+                    })
+                    .unwrap_or_else(|| current_commit.get_parent_oids());
+                let commits_to_merge: Option<Vec<OidOrLabel>> = parent_oids
                     .into_iter()
                     .map(|parent_oid| -> Option<OidOrLabel> {
                         let does_parent_commit_need_rebase =
-- 
2.43.0

