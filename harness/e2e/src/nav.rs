//! C18: moving between commits with next, prev and switch.
use std::collections::BTreeMap;

use serde_json::json;

use crate::graph::{files, Graph, Opts, Set};
use crate::rewrite::{rewritten, state, unchanged, working_copy};
use crate::util::{hash, Ctx, Rng};

fn minimal(gr: &Graph, s: &Set) -> Set {
    s.iter().copied().filter(|k| !s.iter().any(|j| j != k && gr.ancestors(&[*k].into()).contains(j))).collect()
}
fn maximal(gr: &Graph, s: &Set) -> Set {
    s.iter().copied().filter(|k| !s.iter().any(|j| j != k && gr.ancestors(&[*j].into()).contains(k))).collect()
}
fn children(gr: &Graph, k: usize) -> Set {
    (0..gr.n()).filter(|c| gr.parents[*c].contains(&k)).collect()
}

#[derive(Debug, PartialEq)]
enum Go {
    To(usize),
    Stay,
    Refused,
}

/// Where one ends up, by definition.
fn target(gr: &Graph, next: bool, amount: Option<usize>, by_branch: bool, towards: &str) -> Go {
    let visible = gr.visible();
    let public = gr.public();
    let tips: Set = gr.branches.values().copied().collect();
    let mut at = gr.head;
    let mut i = 0;
    loop {
        if amount == Some(i) {
            break;
        }
        let near: Set = if next { children(gr, at).intersection(&visible).copied().collect() } else { gr.parents[at].iter().copied().collect() };
        let mut to = match (next, by_branch) {
            (_, false) => near,
            (true, true) => minimal(gr, &gr.descendants(&near).intersection(&tips).copied().collect()),
            (false, true) => maximal(gr, &gr.ancestors(&near).intersection(&tips).copied().collect()),
        };
        if !next && amount.is_none() {
            to = to.difference(&public).copied().collect();
        }
        let pick = match (to.len(), towards) {
            (0, _) if amount.is_none() || i > 0 => break,
            (0, _) => return Go::Refused,
            (1, _) | (_, "-o") => *to.first().unwrap(),
            (_, "-n") => *to.last().unwrap(),
            _ => return Go::Refused,
        };
        at = pick;
        i += 1;
    }
    if i == 0 {
        Go::Stay
    } else {
        Go::To(at)
    }
}

/// A change of the user's to a file that is checked out; the file.
fn dirty(gr: &Graph, rng: &mut Rng) -> Option<String> {
    if !rng.chance(1, 3) {
        return None;
    }
    let here = files(&gr.ancestors(&[gr.head].into()), &gr.own);
    let mut names: Vec<&String> = here.iter().filter(|(_, (m, _))| m != "120000").map(|(p, _)| p).collect();
    if rng.chance(1, 2) {
        let some: Vec<&String> = names.iter().copied().filter(|p| gr.own.iter().filter(|o| o.contains_key(*p)).count() > 1).collect();
        if !some.is_empty() {
            names = some;
        }
    }
    let p = rng.pick(&names).to_string();
    gr.g.write(&p, "mine\n");
    Some(p)
}

/// The commit is checked out, and only that happened.
fn arrived(gr: &Graph, b: &crate::rewrite::State, k: usize, attached: Option<Option<String>>, extra: &BTreeMap<String, String>, mine: &Option<String>, force: bool) -> Result<(), (&'static str, String)> {
    let a = state(gr);
    if a.head != gr.oids[k] {
        return Err(("head", format!("HEAD is at {:?}, not {k}", gr.index(&a.head))));
    }
    if let Some(want) = attached {
        let want = want.map(|b| format!("refs/heads/{b}")).unwrap_or_default();
        if a.head_ref != want {
            return Err(("branch", format!("HEAD is on {:?}, not {want:?}", a.head_ref)));
        }
    }
    let mut refs = b.refs.clone();
    refs.extend(extra.clone());
    if a.refs != refs {
        return Err(("refs", format!("branches went from {:?} to {:?}", b.refs, a.refs)));
    }
    let (m, _) = rewritten(gr, b.events);
    if !m.is_empty() {
        return Err(("events", format!("commits {:?} were recorded as rewritten", m.keys())));
    }
    let mut want: BTreeMap<String, String> = files(&gr.ancestors(&[k].into()), &gr.own)
        .into_iter()
        .map(|(p, (m, t))| (p, if m == "120000" { format!("-> {t}") } else { format!("{} {t}", m == "100755") }))
        .collect();
    if let Some(p) = mine.as_ref().filter(|_| !force) {
        let x = want[p].split(' ').next().unwrap().to_string();
        want.insert(p.clone(), format!("{x} mine\n"));
    }
    want.insert("untracked".into(), "false u\n".into());
    let got = working_copy(gr);
    if got != want {
        let diff: Vec<&String> = got.keys().chain(want.keys()).filter(|p| got.get(*p) != want.get(*p)).collect();
        return Err(("files", format!("the files {diff:?} are not those of {k}")));
    }
    let status = gr.g.get(&["status", "--porcelain", "-uall"]);
    let lines: Vec<&str> = status.lines().filter(|l| !l.ends_with(" untracked")).collect();
    if lines.len() > mine.is_some() as usize || lines.iter().any(|l| !l.trim_start().starts_with("M ")) {
        return Err(("index", format!("the status is {status}")));
    }
    Ok(())
}

fn only_branch(gr: &Graph, k: usize) -> Option<String> {
    let at: Vec<&String> = gr.branches.iter().filter(|(_, c)| **c == k).map(|(b, _)| b).collect();
    match at.as_slice() {
        [b] => Some(b.to_string()),
        _ => None,
    }
}

fn traverse(c: &mut Ctx, rng: &mut Rng) {
    let edits = rng.chance(1, 3);
    let o = Opts { commits: 10, checkout: true, edits, merges: !edits, ..Default::default() };
    let mut gr = Graph::random(&c.scratch.clone(), rng, &o);
    gr.g.write("untracked", "u\n");
    let next = rng.chance(1, 2);
    let amount = match rng.below(5) {
        0 => None,
        1 | 2 => Some(1),
        k => Some(k - 1),
    };
    let by_branch = rng.chance(1, 3);
    let towards = *rng.pick(&["", "-o", "-n"]);
    let force = rng.chance(1, 4);
    let auto = !rng.chance(1, 4);
    if !auto {
        gr.g.must(&["config", "branchless.navigation.autoSwitchBranches", "false"]);
    }
    let mine = dirty(&gr, rng);
    let before = state(&gr);
    let w = working_copy(&gr);
    let n = amount.map(|a| a.to_string()).unwrap_or("-a".into());
    let mut args = vec!["branchless", if next { "next" } else { "prev" }];
    if amount != Some(1) || rng.chance(1, 2) {
        args.push(&n);
    }
    if by_branch {
        args.push("-b");
    }
    if !towards.is_empty() {
        args.push(towards);
    }
    if force {
        args.push("-f");
    }
    let want = target(&gr, next, amount, by_branch, towards);
    let r = gr.g.run(&args);
    c.eval(Some(hash(&format!("{}{args:?}", gr.describe()))));
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": gr.describe(), "args": args, "changed file": mine, "automatic": auto});
    let in_the_way = |k: usize| {
        !force
            && mine.as_ref().map_or(false, |p| {
                let f = |k: usize| files(&gr.ancestors(&[k].into()), &gr.own).get(p).cloned();
                f(gr.head) != f(k)
            })
    };
    match want {
        Go::Refused => {
            c.stat("refused");
            if r.ok {
                return c.violation("allowed", format!("went somewhere: {said}"), input);
            }
            if let Err(e) = unchanged(&gr, &before) {
                return c.violation("changed", format!("nowhere to go, yet {e}: {said}"), input);
            }
        }
        Go::Stay => {
            c.stat("stay");
            let at = if by_branch && only_branch(&gr, gr.head).is_some() { Some(only_branch(&gr, gr.head)) } else { None };
            if !r.ok {
                return c.violation("failed", format!("failed: {said}"), input);
            }
            if let Err((k, e)) = arrived(&gr, &before, gr.head, at, &Default::default(), &mine, force) {
                return c.violation(k, format!("{e}: {said}"), input);
            }
        }
        Go::To(k) if in_the_way(k) => {
            c.stat("in the way");
            if r.ok || working_copy(&gr) != w {
                return c.violation("in the way", format!("went over local changes: {said}"), input);
            }
            if let Err(e) = unchanged(&gr, &before) {
                return c.violation("changed", format!("local changes are in the way, yet {e}: {said}"), input);
            }
        }
        Go::To(k) => {
            c.stat("went");
            if !r.ok {
                return c.violation("failed", format!("failed, not gone to {k}: {said}"), input);
            }
            let branch = only_branch(&gr, k).filter(|_| auto || by_branch);
            if let Err((key, e)) = arrived(&gr, &before, k, Some(branch), &Default::default(), &mine, force) {
                return c.violation(key, format!("{e}: {said}"), input);
            }
        }
    }
}

fn switch(c: &mut Ctx, rng: &mut Rng) {
    let edits = rng.chance(1, 3);
    let o = Opts { commits: 10, checkout: true, edits, merges: !edits, ..Default::default() };
    let mut gr = Graph::random(&c.scratch.clone(), rng, &o);
    gr.g.write("untracked", "u\n");
    let visible: Vec<usize> = gr.visible().into_iter().collect();
    let names: Vec<String> = gr.branches.keys().cloned().collect();
    let force = rng.chance(1, 4);
    let mine = dirty(&gr, rng);
    let before = state(&gr);
    let w = working_copy(&gr);
    let mut args: Vec<String> = vec!["branchless".into(), "switch".into()];
    // where to, and on which branch
    let (want, mut at): (Option<usize>, Option<String>) = match rng.below(5) {
        0 => (Some(gr.head), only_branch(&gr, gr.head).or(gr.head_branch.clone())),
        1 => {
            let b = rng.pick(&names).clone();
            args.push(b.clone());
            (Some(gr.branches[&b]), Some(b))
        }
        2 => {
            let k = *rng.pick(&visible);
            args.push(gr.oids[k].clone());
            (Some(k), None)
        }
        _ => {
            let k = *rng.pick(&visible);
            let x = &gr.oids[k];
            let vis: Set = visible.iter().copied().collect();
            let (t, s): (String, Set) = match rng.below(4) {
                0 => (format!("children({x})"), children(&gr, k)),
                1 => (format!("parents({x})"), gr.parents[k].iter().copied().collect()),
                2 => (format!("draft() & ::{x}"), gr.draft().intersection(&gr.ancestors(&[k].into())).copied().collect()),
                _ => (format!("{x}::"), gr.descendants(&[k].into())),
            };
            let s: Set = s.intersection(&vis).copied().collect();
            args.push(t);
            let tops = maximal(&gr, &s);
            let direct: Set = s.iter().copied().filter(|a| !s.iter().any(|b| gr.parents[*b].contains(a))).collect();
            if tops != direct {
                return;
            }
            (if tops.len() == 1 { tops.first().copied() } else { None }, None)
        }
    };
    let mut extra = BTreeMap::new();
    if args.len() == 3 && rng.chance(1, 5) {
        args.insert(2, "-c".into());
        args.insert(3, "brand-new".into());
        if let Some(k) = want {
            extra.insert("refs/heads/brand-new".to_string(), gr.oids[k].clone());
        }
        at = Some("brand-new".into());
    } else if args.len() == 3 && rng.chance(1, 6) {
        args.push("-d".into());
        at = None;
    }
    if force {
        args.push("-f".into());
    }
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let r = gr.g.run(&a);
    c.eval(Some(hash(&format!("{}{args:?}", gr.describe()))));
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": gr.describe(), "args": args, "changed file": mine});
    let clash = want.map_or(false, |k| {
        !force
            && mine.as_ref().map_or(false, |p| {
                let f = |k: usize| files(&gr.ancestors(&[k].into()), &gr.own).get(p).cloned();
                f(gr.head) != f(k)
            })
    });
    match want {
        Some(k) if !clash => {
            c.stat("switched");
            if !r.ok {
                return c.violation("failed", format!("not switched to {k}: {said}"), input);
            }
            if let Err((key, e)) = arrived(&gr, &before, k, Some(at), &extra, &mine, force) {
                return c.violation(key, format!("{e}: {said}"), input);
            }
        }
        _ => {
            c.stat("not switched");
            if r.ok || working_copy(&gr) != w {
                return c.violation("allowed", format!("switched to {want:?}: {said}"), input);
            }
            if let Err(e) = unchanged(&gr, &before) {
                return c.violation("changed", format!("refused, yet {e}: {said}"), input);
            }
        }
    }
}

pub fn nav(c: &mut Ctx) {
    c.run(|c, rng, _| if rng.chance(3, 5) { traverse(c, rng) } else { switch(c, rng) });
}
