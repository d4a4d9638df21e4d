//! C20: working copy snapshots.
use std::collections::BTreeMap;

use serde_json::json;

use crate::git::Git;
use crate::graph::{Graph, Opts};
use crate::rewrite::{apply, edit, state, working_copy};
use crate::util::{hash, Ctx, Rng};

/// All there is to know about the files git tracks.
#[derive(PartialEq, Clone, Debug)]
struct Copy {
    head: String,
    head_ref: String,
    branch: String,
    index: String,
    tracked: BTreeMap<String, String>,
    untracked: BTreeMap<String, String>,
    status: String,
    /// The old names of renamed files, as long as git status reports them as such.
    old_names: Vec<String>,
    /// Conflicted files which HEAD doesn't have.
    not_in_head: Vec<String>,
}

fn look(gr: &Graph) -> Copy {
    let g: &Git = &gr.g;
    let all = working_copy(gr);
    let index = g.get(&["ls-files", "-s", "-z"]).replace('\0', "\n");
    let known: std::collections::BTreeSet<&str> = index.lines().filter_map(|l| l.split_once('\t')).map(|x| x.1).collect();
    let (tracked, untracked) = all.into_iter().partition(|(p, _)| known.contains(p.as_str()));
    let head_ref = g.get(&["symbolic-ref", "-q", "HEAD"]);
    Copy {
        head: g.head(),
        branch: if head_ref.is_empty() { String::new() } else { g.get(&["rev-parse", &head_ref]) },
        head_ref,
        status: g.get(&["status", "--porcelain", "-uall", "--no-renames"]),
        old_names: {
            let out = g.get(&["status", "--porcelain=v2", "-z"]);
            let mut parts = out.split('\0');
            let mut old = vec![];
            while let Some(l) = parts.next() {
                if l.starts_with("2 ") {
                    old.push(parts.next().unwrap_or_default().to_string());
                }
            }
            old
        },
        not_in_head: {
            let head = g.get(&["ls-tree", "-r", "-z", "--name-only", "HEAD"]);
            let is = |p: &str| head.split('\0').any(|q| q == p);
            index.lines().filter(|l| l.split_whitespace().nth(2) != Some("0")).filter_map(|l| l.split_once('\t')).filter(|x| !is(x.1)).map(|x| x.1.to_string()).collect()
        },
        tracked,
        untracked,
        index,
    }
}

fn differ(a: &Copy, b: &Copy) -> Option<(&'static str, String)> {
    if a.head != b.head {
        return Some(("head", format!("HEAD was {} and is {}", a.head, b.head)));
    }
    if a.head_ref != b.head_ref || a.branch != b.branch {
        return Some(("branch", format!("HEAD was on {} and is on {}", a.head_ref, b.head_ref)));
    }
    let lines = |x: &str, y: &str| x.lines().filter(|l| !y.lines().any(|m| m == *l)).map(|l| l.to_string()).collect::<Vec<_>>();
    if a.index != b.index {
        let (lost, gained) = (lines(&a.index, &b.index), lines(&b.index, &a.index));
        let known = lost.is_empty() && gained.iter().all(|l| a.old_names.iter().any(|p| l.split_once('\t').map(|x| x.1) == Some(p)));
        return Some((if known { "renamed" } else { "index" }, format!("the index lost {lost:?} and gained {gained:?}")));
    }
    if a.tracked != b.tracked {
        let d: Vec<_> = a.tracked.keys().chain(b.tracked.keys()).filter(|p| a.tracked.get(*p) != b.tracked.get(*p)).map(|p| (p, a.tracked.get(p), b.tracked.get(p))).collect();
        let known = d.iter().all(|x| x.2.is_none() && a.not_in_head.contains(x.0));
        return Some((if known { "not in HEAD" } else { "files" }, format!("files changed: {d:?}")));
    }
    if a.untracked != b.untracked {
        return Some(("untracked", format!("untracked files went from {:?} to {:?}", a.untracked, b.untracked)));
    }
    if a.status != b.status {
        return Some(("status", format!("the status lost {:?} and gained {:?}", lines(&a.status, &b.status), lines(&b.status, &a.status))));
    }
    None
}

/// Keeps what can be done to the files there are now.
fn suit(gr: &Graph, ch: &mut BTreeMap<String, Option<(String, String)>>) {
    let file = |p: &std::path::Path| gr.g.dir.join(p).symlink_metadata().map_or(false, |m| !m.is_dir());
    ch.retain(|p, x| x.is_some() || file(p.as_ref()));
    let gone: Vec<std::path::PathBuf> = ch.iter().filter(|x| x.1.is_none()).map(|x| x.0.into()).collect();
    let below = |p: &str| -> bool { std::fs::read_dir(gr.g.dir.join(p)).map_or(true, |d| d.flatten().count() > 0) && std::fs::read_dir(gr.g.dir.join(p)).map_or(true, |d| d.flatten().all(|e| gone.iter().any(|q| gr.g.dir.join(q) == e.path()))) };
    let above = |p: &str| std::path::Path::new(p).ancestors().skip(1).filter(|a| !a.as_os_str().is_empty()).all(|a| !file(a) || gone.iter().any(|q| q == a));
    ch.retain(|p, x| x.is_none() || file(p.as_ref()) || below(p) && above(p));
}

/// Puts the working copy into some state; false: not this time.
fn mess(gr: &mut Graph, rng: &mut Rng, conflicts: bool, what: &mut Vec<String>) -> bool {
    let quiet = "core.hooksPath=/dev/null";
    if rng.chance(if conflicts { 5 } else { 2 }, 6) {
        // a merge that stops
        let past = gr.ancestors(&[gr.head].into());
        let mut others: Vec<usize> = (0..gr.n()).filter(|k| *k != gr.head).collect();
        if others.iter().any(|k| !past.contains(k)) && rng.chance(3, 4) {
            others.retain(|k| !past.contains(k));
        }
        if others.is_empty() {
            return false;
        }
        let k = *rng.pick(&others);
        let oid = gr.oids[k].clone();
        let how = if rng.chance(1, 2) { vec!["-c", quiet, "merge", "--no-commit", "--no-ff", &oid] } else { vec!["-c", quiet, "cherry-pick", "-n", "-m1", &oid] };
        let how: Vec<&str> = how.into_iter().filter(|a| *a != "-m1" || gr.parents[k].len() > 1).collect();
        gr.g.run(&how);
        what.push(how[2..].join(" "));
        // in the middle of resolving a conflict
        let u = gr.g.get(&["diff", "--name-only", "--diff-filter=U", "-z"]);
        for p in u.split('\0').filter(|p| !p.is_empty()) {
            let f = gr.g.dir.join(p);
            if rng.chance(1, 2) && f.symlink_metadata().map_or(false, |m| m.is_file()) {
                std::fs::write(&f, "half resolved\n").unwrap();
                what.push(format!("wrote {p}"));
            }
        }
        if rng.chance(1, 2) {
            return true;
        }
    }
    let n = rng.below(4);
    let mut staged = edit(gr, rng, n, true, "s");
    suit(gr, &mut staged);
    apply(gr, &staged);
    let add: Vec<String> = staged.keys().cloned().collect();
    for p in &add {
        gr.g.run(&["-c", quiet, "add", "-A", "--", p]);
    }
    what.push(format!("staged {staged:?}"));
    if rng.chance(1, 4) {
        // renamed
        let l = gr.g.get(&["ls-files"]);
        let names: Vec<&str> = l.lines().filter(|p| !p.starts_with('"')).collect();
        if !names.is_empty() {
            let p = rng.pick(&names).to_string();
            gr.g.run(&["-c", quiet, "mv", &p, "moved here"]);
            what.push(format!("renamed {p}"));
        }
    }
    if rng.chance(1, 4) {
        let l = gr.g.get(&["ls-files"]);
        let names: Vec<&str> = l.lines().filter(|p| !p.starts_with('"')).collect();
        if !names.is_empty() {
            let p = rng.pick(&names).to_string();
            gr.g.run(&["-c", quiet, "rm", "-q", "--cached", &p]);
            // still there, but no longer tracked
            if rng.chance(1, 2) {
                let _ = std::fs::remove_file(gr.g.dir.join(&p));
                what.push(format!("removed {p}"));
            } else {
                what.push(format!("untracked {p}"));
            }
        }
    }
    let n = rng.below(4);
    let mut rest = edit(gr, rng, n, false, "u");
    suit(gr, &mut rest);
    apply(gr, &rest);
    what.push(format!("unstaged {rest:?}"));
    true
}

fn one(c: &mut Ctx, rng: &mut Rng) {
    let conflicts = rng.chance(1, 2);
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 6, merges: false, checkout: true, edits: !conflicts, conflicts, ..Default::default() });
    let mut what = vec![];
    if rng.chance(1, 4) {
        // something that was put aside
        let f = gr.g.get(&["ls-files"]).lines().find(|p| !p.starts_with('"')).map(|p| p.to_string());
        if let Some(f) = f {
            let _ = std::fs::remove_file(gr.g.dir.join(f));
            gr.g.must(&["stash", "-q"]);
            what.push("stash".into());
        }
    }
    if rng.chance(1, 2) {
        let (k, v) = *rng.pick(&[("status.showStash", "true"), ("status.branch", "true"), ("status.renames", "copies"), ("status.renames", "false"), ("status.relativePaths", "false"), ("status.short", "true"), ("status.showUntrackedFiles", "all"), ("core.quotePath", "true")]);
        gr.g.must(&["config", k, v]);
        what.push(format!("{k} {v}"));
    }
    if !mess(&mut gr, rng, conflicts, &mut what) {
        return;
    }
    gr.g.write("not tracked", "u\n");
    gr.g.write("below/not tracked", "u\n");
    let below = rng.chance(1, 3);
    let from = |a: &[&'static str], b: &str| -> Vec<String> { if below { vec!["-C", "below"] } else { vec![] }.iter().chain(a).map(|x| x.to_string()).chain((!b.is_empty()).then(|| b.to_string())).collect() };
    let before = look(&gr);
    let old = state(&gr);
    // a file that lies where a directory is tracked and the like
    let odd = before.untracked.keys().any(|p| !p.ends_with("not tracked"));
    let a = from(&["branchless", "snapshot", "create"], "");
    let r = gr.g.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    c.eval(Some(hash(&format!("{}{what:?}", gr.describe()))));
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": gr.describe(), "working copy": what, "status": before.status});
    if !r.ok {
        return c.violation("failed", format!("no snapshot was made: {said}"), input);
    }
    let id = r.out.trim().lines().last().unwrap_or_default().to_string();
    let at = look(&gr);
    if at.head != before.head || at.head_ref != before.head_ref || gr.g.refs() != old.refs {
        return c.violation("moved", format!("making a snapshot moved HEAD or a branch: {said}"), input);
    }
    if at.status.lines().any(|l| !l.starts_with("??")) {
        return c.violation("left", format!("changes were left: {}", at.status), input);
    }
    if odd {
        // files no longer tracked may be in the way of others
        return c.stat("odd");
    }
    // elsewhere meanwhile
    let away = rng.below(4);
    let mut meanwhile = vec![];
    match away {
        0 => {}
        1 => {
            let k = rng.below(gr.n());
            gr.g.must(&["checkout", "-q", "--detach", &gr.oids[k].clone()]);
            meanwhile.push(format!("checked out {k}"));
        }
        2 => {
            gr.g.must(&["commit", "-q", "--allow-empty", "-m", "x"]);
            meanwhile.push("committed".into());
        }
        _ => {
            let mut ch = edit(&gr, rng, 2, true, "m");
            suit(&gr, &mut ch);
            apply(&gr, &ch);
            gr.g.must(&["add", "-A", "--", "."]);
            gr.g.must(&["rm", "-q", "--cached", "--", "not tracked", "below/not tracked"]);
            meanwhile.push(format!("staged {ch:?}"));
        }
    }
    let a = from(&["branchless", "snapshot", "restore"], &id);
    let r = gr.g.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": gr.describe(), "working copy": what, "status": before.status, "meanwhile": meanwhile});
    if !r.ok {
        return c.violation("not restored", format!("not restored: {said}"), input);
    }
    c.stat(if before.index.lines().any(|l| l.split_whitespace().nth(2) != Some("0")) { "conflicted" } else { "restored" });
    if let Some((k, e)) = differ(&before, &look(&gr)) {
        return c.violation(k, format!("{e}; {said}"), input);
    }
}

pub fn snapshot(c: &mut Ctx) {
    c.run(|c, rng, _| one(c, rng));
}
