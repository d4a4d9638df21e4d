//! C05: undoing to an earlier point puts references, HEAD and visibility back.
use std::collections::{BTreeMap, BTreeSet};

use lib::core::eventlog::testing::get_event_replayer_events;
use lib::core::eventlog::EventLogDb;
use serde_json::json;

use crate::git::{quiet, Git};
use crate::util::{hash, Ctx, Rng};

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub events: usize,
    pub refs: BTreeMap<String, String>,
    pub head: String,
    pub obsolete: BTreeSet<String>,
    pub commits: BTreeSet<String>,
}

fn snap(g: &Git, commits: &BTreeSet<String>) -> Snap {
    let repo = g.repo();
    let rep = g.replayer(&repo);
    let cur = rep.make_default_cursor();
    let obsolete = rep.get_cursor_oids(cur).into_iter().map(|o| o.to_string()).collect::<BTreeSet<_>>();
    let obsolete = obsolete.into_iter().filter(|o| {
        let oid = o.parse().unwrap();
        matches!(
            rep.get_cursor_commit_activity_status(cur, oid),
            lib::core::eventlog::CommitActivityStatus::Obsolete
        )
    });
    Snap { events: get_event_replayer_events(&rep).len(), refs: g.refs(), head: g.head(), obsolete: obsolete.collect(), commits: commits.clone() }
}

/// One random repository operation; the commits it made are added to `commits`.
fn op(g: &mut Git, rng: &mut Rng, k: usize, commits: &mut BTreeSet<String>) {
    let all: Vec<String> = commits.iter().cloned().collect();
    let brs: Vec<String> = g.refs().keys().map(|r| r.trim_start_matches("refs/heads/").to_string()).collect();
    let c = rng.pick(&all).clone();
    let hidden = snap(g, commits).obsolete;
    let base = g.get(&["rev-parse", "main"]);
    // rewriting a hidden commit has the same flaw as the known finding `noop-visibility`
    let rewritable = |g: &Git, c: &String| !hidden.iter().any(|h| h == c || g.get(&["merge-base", h, c]) == *c);
    match rng.below(12) {
        0 | 1 | 2 => {
            g.commit(&format!("f{k}.txt"), &format!("{k}\n"), &format!("commit {k}"));
        }
        3 => {
            g.write(&format!("a{k}.txt"), "x");
            g.must(&["add", "."]);
            if g.head() != base && !hidden.contains(&g.head()) {
                g.run(&["commit", "-q", "--amend", "-m", &format!("amended {k}")]);
            }
        }
        4 => {
            let n = ["b1", "b2", "b3"][rng.below(3)];
            // forcing an existing branch elsewhere is the known finding `forced-update`
            match g.refs().get(&format!("refs/heads/{n}")) {
                Some(old) => g.run(&["update-ref", &format!("refs/heads/{n}"), &c, old]),
                None => g.run(&["branch", n, &c]),
            };
        }
        5 => {
            let n = rng.pick(&brs).clone();
            if n != "main" {
                g.run(&["branch", "-D", &n]);
            }
        }
        6 => {
            g.run(&["checkout", "-q", "--detach", &c]);
        }
        7 => {
            let n = rng.pick(&brs).clone();
            g.run(&["checkout", "-q", &n]);
        }
        // hiding a hidden commit is the known finding `noop-visibility`
        8 => {
            let v: Vec<&String> = all.iter().filter(|o| !hidden.contains(*o) && **o != base).collect();
            if !v.is_empty() {
                g.run(&["branchless", "hide", rng.pick(&v).as_str()]);
            }
        }
        9 => {
            let v: Vec<&String> = all.iter().filter(|o| hidden.contains(*o)).collect();
            if !v.is_empty() {
                g.run(&["branchless", "unhide", rng.pick(&v).as_str()]);
            }
        }
        10 if rewritable(g, &c) => {
            g.run(&["branchless", "reword", "-m", &format!("reworded {k}"), &c]);
        }
        11 if rewritable(g, &c) => {
            let d = rng.pick(&all).clone();
            g.run(&["branchless", "move", "--in-memory", "-s", &c, "-d", &d]);
        }
        _ => {}
    }
    let seen = g.get(&["log", "--all", "--reflog", "--format=%H"]);
    commits.extend(seen.lines().map(|s| s.to_string()));
    let repo = g.repo();
    let rep = g.replayer(&repo);
    commits.extend(rep.get_cursor_oids(rep.make_default_cursor()).into_iter().map(|o| o.to_string()));
}

/// Hiding what is hidden (showing what is visible) "had no effect"; undoing it must have none either.
fn noop_visibility(c: &mut Ctx, rng: &mut Rng) {
    let mut g = Git::branchless(&c.scratch, "r");
    g.must(&["checkout", "-q", "--detach"]);
    let one = g.commit("one.txt", "1", "one");
    let set: BTreeSet<String> = [one.clone()].into_iter().collect();
    if rng.chance(1, 2) {
        g.must(&["branchless", "hide", &one]);
        g.must(&["branchless", "hide", &one]);
    } else {
        g.must(&["branchless", "unhide", &one]);
    }
    let before = snap(&g, &set).obsolete;
    g.must(&["branchless", "undo", "-y"]);
    let after = snap(&g, &set).obsolete;
    c.eval(Some(hash(&g.log.join(";"))));
    if before.contains(&one) != after.contains(&one) {
        c.violation("noop-visibility", "undoing a hide/unhide that had no effect changes the commit's visibility".into(), json!({"ops": g.log}));
    }
}

/// A branch forced elsewhere, and the move undone, is where it was.
fn forced_update(c: &mut Ctx) {
    let mut g = Git::branchless(&c.scratch, "r");
    g.must(&["checkout", "-q", "--detach"]);
    let one = g.commit("one.txt", "1", "one");
    let two = g.commit("two.txt", "2", "two");
    g.must(&["branch", "b", &one]);
    let before = g.refs();
    g.must(&["branch", "-f", "b", &two]);
    g.must(&["branchless", "undo", "-y"]);
    let after = g.refs();
    c.eval(Some(hash(&g.log.join(";"))));
    if before != after {
        c.violation("forced-update", format!("undoing `git branch -f b` gives {after:?}, before it was {before:?}"), json!({"ops": g.log}));
    }
}

pub fn undo(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, n| {
        if n % 32 == 1 {
            return noop_visibility(c, rng);
        }
        if n % 32 == 2 {
            return forced_update(c);
        }
        let mut g = Git::branchless(&scratch, "r");
        let mut commits: BTreeSet<String> = [g.head()].into_iter().collect();
        g.must(&["checkout", "-q", "--detach"]);
        g.commit("one.txt", "1", "one");
        commits.insert(g.head());
        let mut snaps = vec![snap(&g, &commits)];
        let n = 2 + rng.below(5);
        for k in 0..n {
            op(&mut g, rng, k, &mut commits);
            snaps.push(snap(&g, &commits));
        }
        let want = &snaps[rng.below(n)];
        let declined = rng.chance(1, 8);
        let clean = g.get(&["status", "--porcelain"]).is_empty();
        let input = json!({"ops": g.log, "events": want.events});
        // undo
        let repo = g.repo();
        let conn = repo.get_db_conn().unwrap();
        let mut db = EventLogDb::new(&conn).unwrap();
        let rep = g.replayer(&repo);
        let cur = rep.make_cursor(want.events as isize);
        let r = git_branchless_undo::testing::undo_events(
            &mut (if declined { "n\n" } else { "y\n" }).as_bytes(),
            &quiet(),
            &repo,
            &g.run_info(),
            &mut db,
            &rep,
            cur,
        );
        let before = snaps.last().unwrap();
        let after = snap(&g, &commits);
        if declined {
            c.eval(Some(hash(&g.log.join(";"))));
            if (&after.refs, &after.head, &after.obsolete) != (&before.refs, &before.head, &before.obsolete) {
                c.violation("declined", format!("a declined undo changed the repository: {before:?} -> {after:?}"), input);
            }
            return;
        }
        match r {
            Ok(Ok(())) => {}
            // e.g. local changes in the way of the checkout
            Ok(Err(e)) => {
                c.stat("exit_code");
                if after.head == want.head && after.refs == want.refs { return; }
                if std::env::var("DBG").is_ok() { eprintln!("{e:?} {input}"); }
                return;
            }
            Err(e) => {
                c.violation("error", format!("undo failed: {e:?}"), input);
                return;
            }
        }
        c.eval(Some(hash(&g.log.join(";"))));
        if after.refs != want.refs {
            c.violation("refs", format!("references after undo {:?}, before {:?}", after.refs, want.refs), input);
        } else if after.head != want.head {
            c.violation("head", format!("HEAD after undo {}, before {}", after.head, want.head), input);
        } else if clean && !g.get(&["status", "--porcelain"]).is_empty() {
            c.violation("files", format!("changed files after undo: {}", g.get(&["status", "--porcelain"])), input);
        } else {
            for o in &commits {
                let known = want.commits.contains(o);
                let was_hidden = !known || want.obsolete.contains(o);
                let hidden = after.obsolete.contains(o);
                if known && hidden != was_hidden || !known && !hidden {
                    c.violation("visible", format!("commit {o} (existed before: {known}) hidden before: {was_hidden}, after undo: {hidden}"), input);
                    break;
                }
            }
        }
        c.samples.truncate(5);
        if c.samples.len() < 5 {
            c.samples.push(json!({"ops": g.log, "to": want.events}));
        }
    });
}
