//! C06: what the hooks record is what happened. C07: what is kept from collection.
use std::collections::{BTreeMap, BTreeSet};

use lib::core::eventlog::testing::get_event_replayer_events;
use lib::core::eventlog::{CommitActivityStatus, Event};
use lib::git::MaybeZeroOid;
use serde_json::json;

use crate::git::Git;
use crate::util::{hash, Ctx, Rng};

fn events(g: &Git) -> Vec<Event> {
    let repo = g.repo();
    let rep = g.replayer(&repo);
    get_event_replayer_events(&rep).clone()
}

fn oid(s: &str) -> MaybeZeroOid {
    s.parse().unwrap()
}

/// What one operation did, as the user sees it.
#[derive(Default, Debug)]
struct Did {
    /// commits HEAD was put on by committing
    made: Vec<String>,
    /// commits replaced by another one
    replaced: Vec<(String, String)>,
}

fn stack(g: &Git, from: &str, to: &str) -> Vec<String> {
    g.get(&["rev-list", "--reverse", "--no-merges", &format!("{from}..{to}")]).lines().map(|s| s.into()).collect()
}

fn subject(g: &Git, c: &str) -> String {
    g.get(&["log", "-1", "--format=%s", c])
}

fn op(g: &mut Git, rng: &mut Rng, k: usize) -> Did {
    let mut did = Did::default();
    let before = g.head();
    let branches: Vec<String> = g.refs().keys().map(|r| r.trim_start_matches("refs/heads/").to_string()).collect();
    let all: Vec<String> = g.get(&["log", "--all", "--format=%H"]).lines().map(|s| s.to_string()).collect();
    let c = rng.pick(&all).clone();
    let name = ["b1", "b2", "topic/x", "ünï"][rng.below(4)];
    match rng.below(16) {
        0 | 1 | 2 => did.made.push(g.commit(&format!("f{k}.txt"), &format!("{k}\n"), &format!("commit {k}"))),
        3 | 4 => {
            g.write(&format!("a{k}.txt"), "x");
            g.must(&["add", "."]);
            if g.run(&["commit", "-q", "--amend", "-m", &format!("amended {k}")]).ok {
                did.made.push(g.head());
                did.replaced.push((before.clone(), g.head()));
            }
        }
        5 => drop(g.run(&["branch", name, &c])),
        6 => {
            let n = rng.pick(&branches).clone();
            if n != "main" {
                g.run(&["branch", "-D", &n]);
            }
        }
        7 => drop(g.run(&["checkout", "-q", "--detach", &c])),
        8 => drop(g.run(&["checkout", "-q", rng.pick(&branches).clone().as_str()])),
        9 => drop(g.run(&["pack-refs", "--all"])),
        10 => drop(g.run(&["checkout", "-q", "-b", name, &c])),
        11 => {
            // rebase the current stack elsewhere; every commit of it is replaced
            let base = g.get(&["merge-base", &before, &c]);
            let old = stack(g, &base, &before);
            g.run(&["checkout", "-q", "--detach", &before]);
            if !base.is_empty() && g.run(&["rebase", "-q", "--no-ff", "--onto", &c, &base]).ok {
                let new = stack(g, &c, &g.head());
                for o in &old {
                    for n in &new {
                        let s = subject(g, o);
                        let once = |v: &[String]| v.iter().filter(|x| subject(g, x) == s).count() == 1;
                        if s == subject(g, n) && o != n && once(&old) && once(&new) {
                            did.replaced.push((o.clone(), n.clone()));
                        }
                    }
                }
                did.made = new;
            } else {
                g.run(&["rebase", "--abort"]);
            }
        }
        12 => {
            if g.run(&["merge", "-q", "--no-edit", &c]).ok {
                // also called for a fast-forward
                if g.head() != before {
                    did.made.push(g.head());
                }
            } else {
                g.run(&["merge", "--abort"]);
            }
        }
        13 => {
            if g.run(&["cherry-pick", "--allow-empty", "--keep-redundant-commits", &c]).ok {
                did.made.push(g.head());
            } else {
                g.run(&["cherry-pick", "--abort"]);
            }
        }
        14 => drop(g.run(&["reset", "-q", "--hard", &c])),
        _ => {
            // one transaction of several updates
            let mut t = String::from("start\n");
            for n in ["t1", "t2"] {
                let r = format!("refs/heads/{n}");
                match g.refs().get(&r) {
                    None => t += &format!("create {r} {c}\n"),
                    Some(old) if rng.chance(1, 2) => t += &format!("update {r} {c} {old}\n"),
                    Some(old) => t += &format!("delete {r} {old}\n"),
                }
            }
            t += if rng.chance(1, 4) { "abort\n" } else { "commit\n" };
            g.run_env(&["update-ref", "--stdin"], &[], Some(t.as_bytes()));
        }
    }
    did
}

/// The state of the references according to the log.
fn logged(g: &Git) -> (Option<String>, BTreeMap<String, String>) {
    let repo = g.repo();
    let rep = g.replayer(&repo);
    let s = rep.get_references_snapshot(&repo, rep.make_default_cursor()).unwrap();
    let mut m = BTreeMap::new();
    for (o, names) in &s.branch_oid_to_names {
        for n in names {
            m.insert(n.as_str().to_string(), o.to_string());
        }
    }
    (s.head_oid.map(|o| o.to_string()), m)
}

pub fn record(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, n| {
        if n % 2 == 0 {
            return fed(c, rng);
        }
        let mut g = Git::branchless(&scratch, "r");
        if rng.chance(1, 2) {
            g.must(&["checkout", "-q", "--detach"]);
        }
        g.commit("one.txt", "1", "one");
        for k in 0..1 + rng.below(5) {
            let from = events(&g).len();
            let did = op(&mut g, rng, k);
            let new = events(&g)[from..].to_vec();
            let input = json!({"ops": g.log});
            c.eval(Some(hash(&g.log.join(";"))));
            let (head, refs) = logged(&g);
            let mut want = g.refs();
            // a branch nobody touched since `init` is not in the log
            want.retain(|r, _| r != "refs/heads/main" || refs.contains_key(r));
            if head != Some(g.head()) {
                return c.violation("head", format!("HEAD is at {}, recorded as {head:?}", g.head()), input);
            }
            if refs != want {
                return c.violation("refs", format!("references are {want:?}, recorded as {refs:?}"), input);
            }
            for m in &did.made {
                if !new.iter().any(|e| matches!(e, Event::CommitEvent { commit_oid, .. } if commit_oid.to_string() == *m)) {
                    return c.violation("commit", format!("commit {m} was made but not recorded by {:?}", g.log.last()), input);
                }
                if g.get(&["rev-parse", "-q", "--verify", &format!("refs/branchless/{m}")]) != *m {
                    return c.violation("kept", format!("commit {m} was made but is not kept from collection"), input);
                }
            }
            for (o, n) in &did.replaced {
                let is = |e: &Event| matches!(e, Event::RewriteEvent { old_commit_oid, new_commit_oid, .. } if *old_commit_oid == oid(o) && *new_commit_oid == oid(n));
                if new.iter().filter(|e| is(e)).count() != 1 {
                    return c.violation("rewrite", format!("{o} was rewritten as {n}, recorded {} times", new.iter().filter(|e| is(e)).count()), input);
                }
            }
            for e in &new {
                if let Event::RewriteEvent { old_commit_oid, .. } = e {
                    if !did.replaced.iter().any(|(o, _)| oid(o) == *old_commit_oid) && !g.log.last().unwrap().contains("rebase") {
                        return c.violation("rewrite", format!("recorded {e:?}, but that commit was not rewritten"), input);
                    }
                }
                if let Event::CommitEvent { commit_oid, .. } = e {
                    if did.made.is_empty() && !g.log.last().unwrap().contains("rebase") {
                        return c.violation("commit", format!("recorded commit {commit_oid}, but none was made"), input);
                    }
                }
            }
        }
        if c.samples.len() < 5 {
            c.samples.push(json!({"ops": g.log}));
        }
    });
}

/// Feed the reference-transaction hook directly; the events must be those the contract names.
fn fed(c: &mut Ctx, rng: &mut Rng) {
    let mut g = Git::branchless(&c.scratch, "r");
    let base = g.head();
    let oids = ["0".repeat(40), "1".repeat(40), "2".repeat(40), base.clone(), "a1b2c3d4e5".repeat(4)];
    let names = [
        "refs/heads/x", "refs/heads/y", "HEAD", "ORIG_HEAD", "FETCH_HEAD", "CHERRY_PICK_HEAD", "REBASE_HEAD", "AUTO_MERGE", "CHERRY_PICK",
        "refs/branchless/1111111111111111111111111111111111111111", "refs/branchlessx/1", "refs/tags/v1", "refs/remotes/origin/main", "refs/heads/ORIG_HEAD",
        "refs/stash", "refs/heads/é",
    ];
    // packed references the repository could have
    let mut packed: BTreeMap<String, String> = BTreeMap::new();
    for n in ["refs/heads/x", "refs/heads/y", "refs/tags/v1"] {
        if rng.chance(1, 2) {
            packed.insert(n.into(), oids[1 + rng.below(4)].clone());
        }
    }
    let mut text = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    for (n, o) in &packed {
        text += &format!("{o} {n}\n");
        if n.contains("tags") {
            text += &format!("^{}\n", oids[1]);
        }
    }
    let file = g.dir.join(".git/packed-refs");
    let mut input: Vec<u8> = vec![];
    let mut want: Vec<(String, String, String)> = vec![];
    for _ in 0..rng.below(6) {
        match rng.below(9) {
            0 => {
                // not a line the hook understands: skipped
                let l: &[u8] = *rng.pick(&[&b"garbage"[..], b"a b", b"\xff\xfe x y", b"zz 11 refs/heads/x", b"1 2 3 4"]);
                input.extend(l);
                input.push(b'\n');
            }
            k => {
                let n = *rng.pick(&names);
                let (mut old, mut new) = (rng.pick(&oids).clone(), rng.pick(&oids).clone());
                if packed.contains_key(n) && rng.chance(1, 2) {
                    (old, new) = if rng.chance(1, 2) { (oids[0].clone(), packed[n].clone()) } else { (packed[n].clone(), oids[0].clone()) };
                }
                let sym = k == 1;
                let shown = if sym { "ref:refs/heads/main".to_string() } else { new.clone() };
                if sym {
                    new = base.clone();
                }
                input.extend(format!("{old} {shown} {n}\n").bytes());
                let ignored = ["ORIG_HEAD", "CHERRY_PICK", "REBASE_HEAD", "CHERRY_PICK_HEAD", "AUTO_MERGE", "FETCH_HEAD"].contains(&n) || n.starts_with("refs/branchless/");
                if ignored {
                    continue;
                }
                let z = &oids[0];
                if !sym && old == *z && packed.get(n) == Some(&new) {
                    want.push((n.into(), new.clone(), new));
                } else if new == *z && packed.get(n) == Some(&old) {
                    want.push((n.into(), old.clone(), old));
                } else {
                    want.push((n.into(), old, new));
                }
            }
        }
    }
    let state = if rng.chance(1, 5) { *rng.pick(&["prepared", "aborted"]) } else { "committed" };
    if state != "committed" {
        want.clear();
    }
    let repo = g.repo();
    let read = || {
        // unprocessed events
        let conn = repo.get_db_conn().unwrap();
        lib::core::eventlog::EventLogDb::new(&conn).unwrap().get_events().unwrap()
    };
    let from = read().len();
    std::fs::write(&file, &text).unwrap();
    let o = g.run_env(&["branchless", "hook", "reference-transaction", state], &[], Some(&input));
    let got: Vec<(String, String, String)> = read()[from..]
        .iter()
        .filter_map(|e| match e {
            Event::RefUpdateEvent { ref_name, old_oid, new_oid, .. } => Some((ref_name.as_str().to_string(), old_oid.to_string(), new_oid.to_string())),
            _ => None,
        })
        .collect();
    c.eval(Some(hash(&format!("{input:?}{text}"))));
    if got != want || !o.ok {
        c.violation(
            "fed",
            format!("reference-transaction {state} recorded {got:?}, not {want:?} {}", if o.ok { "" } else { &o.err }),
            json!({"stdin": String::from_utf8_lossy(&input), "packed-refs": text}),
        );
    }
}

/// C07
/// Undoing a hide, after a collection, makes the commit visible again: it must be kept again.
fn undone_hide(c: &mut Ctx) {
    let mut g = Git::branchless(&c.scratch.clone(), "r");
    g.must(&["checkout", "-q", "--detach"]);
    let o = g.commit("one.txt", "1", "one");
    g.must(&["checkout", "-q", "main"]);
    g.must(&["branchless", "hide", &o]);
    g.must(&["branchless", "gc"]);
    g.must(&["branchless", "undo", "-y"]);
    if g.get(&["rev-parse", "-q", "--verify", &format!("refs/branchless/{o}")]).is_empty() {
        c.violation("undo-after-gc", "a hide undone after a collection leaves the commit visible but not kept".into(), json!({"ops": g.log}));
    }
}

pub fn gc(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, n| {
        if c.worker == 0 && n == 0 {
            return undone_hide(c);
        }
        let mut g = Git::branchless(&scratch, "r");
        g.must(&["checkout", "-q", "--detach"]);
        g.commit("one.txt", "1", "one");
        for k in 0..1 + rng.below(6) {
            if !g.refs().contains_key("refs/heads/main") {
                return;
            }
            let repo = g.repo();
            let rep = g.replayer(&repo);
            let seen: Vec<String> = rep.get_cursor_oids(rep.make_default_cursor()).into_iter().map(|o| o.to_string()).filter(|o| g.get(&["cat-file", "-t", o]) == "commit").collect();
            let hideable: Vec<&String> = seen.iter().filter(|o| **o != g.get(&["rev-parse", "main"])).collect();
            let from = events(&g).len();
            match rng.below(7) {
                0 if !hideable.is_empty() => drop(g.run(&["branchless", "hide", rng.pick(&hideable).as_str()])),
                1 => drop(g.run(&["branchless", "unhide", rng.pick(&seen).as_str()])),
                2 => {
                    let merges: Vec<&String> = seen.iter().filter(|o| g.get(&["rev-list", "--parents", "-1", o]).split(' ').count() > 2).collect();
                    let o = if !merges.is_empty() && rng.chance(2, 3) { (*rng.pick(&merges)).clone() } else { rng.pick(&seen).clone() };
                    g.run(&["branchless", "reword", "-m", &format!("reworded {k}"), &o]);
                }
                4 => {
                    if !g.run(&["merge", "-q", "--no-ff", "--no-edit", rng.pick(&seen).as_str()]).ok {
                        g.run(&["merge", "--abort"]);
                    }
                }
                3 => drop(g.run(&["branchless", "move", "-f", "--in-memory", "-s", rng.pick(&seen).as_str(), "-d", rng.pick(&seen).as_str()])),
                _ => drop(op(&mut g, rng, k)),
            }
            // what a command makes is kept
            let ours = g.log.last().unwrap().contains("branchless");
            for e in &events(&g)[from..] {
                if let (Event::RewriteEvent { new_commit_oid: MaybeZeroOid::NonZero(o), .. }, true) = (e, ours) {
                    let o = o.to_string();
                    if g.get(&["rev-parse", "-q", "--verify", &format!("refs/branchless/{o}")]) != o {
                        return c.violation("kept", format!("commit {o} was made but is not kept from collection"), json!({"ops": g.log}));
                    }
                }
            }
            if rng.chance(1, 6) {
                g.run(&["branchless", "gc"]);
            }
        }
        if !g.refs().contains_key("refs/heads/main") {
            return;
        }
        // not an event-log commit at all: kept (the user may want it)
        let stray = {
            let tree = g.get(&["rev-parse", "HEAD^{tree}"]);
            g.must(&["commit-tree", "-m", "stray", &tree])
        };
        g.must(&["update-ref", &format!("refs/branchless/{stray}"), &stray]);
        // the hook has just recorded nothing about it, because such references are ignored
        let repo = g.repo();
        let rep = g.replayer(&repo);
        let cur = rep.make_default_cursor();
        let status: BTreeMap<String, bool> = rep
            .get_cursor_oids(cur)
            .into_iter()
            .filter(|o| g.get(&["cat-file", "-t", &o.to_string()]) == "commit")
            .map(|o| (o.to_string(), matches!(rep.get_cursor_commit_activity_status(cur, o), CommitActivityStatus::Obsolete)))
            .collect();
        let refs = |g: &Git| -> BTreeSet<String> { g.get(&["for-each-ref", "--format=%(refname) %(objectname)"]).lines().map(|s| s.into()).collect() };
        let before = refs(&g);
        g.must(&["branchless", "gc"]);
        let after = refs(&g);
        let input = json!({"ops": g.log});
        c.eval(Some(hash(&g.log.join(";"))));
        let want: BTreeSet<String> =
            before.iter().filter(|l| !(l.starts_with("refs/branchless/") && status.get(l.rsplit_once(' ').unwrap().1) == Some(&true))).cloned().collect();
        if after != want {
            let gone: Vec<_> = want.difference(&after).collect();
            let extra: Vec<_> = after.difference(&want).collect();
            return c.violation("gc", format!("gc deleted {gone:?} which it should keep, kept {extra:?} which it should delete"), input);
        }
        // now really collect
        g.must(&["reflog", "expire", "--expire=now", "--expire-unreachable=now", "--all"]);
        g.must(&["prune", "--expire=now"]);
        for (o, obsolete) in &status {
            if !obsolete && g.get(&["cat-file", "-t", o]) != "commit" {
                return c.violation("lost", format!("visible commit {o} was lost to garbage collection"), input);
            }
        }
        if g.get(&["cat-file", "-t", &stray]) != "commit" {
            return c.violation("stray", format!("commit {stray}, which no event concerns, was lost"), input);
        }
    });
}
