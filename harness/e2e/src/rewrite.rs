//! C11, C12: what a rewriting command does to commits, branches and HEAD.
use std::collections::BTreeMap;

use lib::core::eventlog::testing::get_event_replayer_events;
use lib::core::eventlog::{CommitActivityStatus, Event};
use serde_json::{json, Value};

use crate::git::Out;
use crate::graph::{files, Change, Files, Graph, Opts, Set};
use crate::util::{hash, Ctx, Rng};

/// What is asked for.
#[derive(Clone, Default, Debug)]
pub struct Ask {
    /// new parents
    pub parents: BTreeMap<usize, Vec<usize>>,
    /// commits squashed into another one
    pub squash: BTreeMap<usize, Set>,
    /// commits that get another message
    pub messages: BTreeMap<usize, String>,
    /// commits that get other files
    pub own: BTreeMap<usize, Change>,
    /// commits whose files stay as they are although those of their parents change
    pub same_files: Set,
    /// commits that stay even if nothing remains of them, and need no parent
    pub keep: Set,
}

/// What follows from it.
pub struct Want {
    /// the commits to rewrite, parents first
    pub order: Vec<usize>,
    pub parents: Vec<Vec<usize>>,
    pub files: BTreeMap<usize, Files>,
    /// commits that are left out because nothing remains of them
    pub dropped: Set,
    pub squash: BTreeMap<usize, Set>,
    pub messages: BTreeMap<usize, String>,
    /// commits with further changes
    pub amended: Set,
    /// branches of commits that were rewritten before
    pub follow: BTreeMap<usize, Option<usize>>,
}

impl Want {
    pub fn new(gr: &Graph, ask: &Ask) -> Result<Want, &'static str> {
        let visible = gr.visible();
        let fixups: Set = ask.squash.values().flatten().copied().collect();
        let mut touched: Set = ask.parents.keys().chain(ask.squash.keys()).chain(ask.messages.keys()).chain(ask.own.keys()).copied().collect();
        touched.extend(fixups.iter().copied());
        let mut moved: Set = gr.descendants(&touched).intersection(&visible).copied().collect();
        moved.extend(touched.iter().copied());
        let moved: Set = moved.difference(&fixups).copied().collect();
        let mut parents = gr.parents.clone();
        for k in &moved {
            parents[*k] = match ask.parents.get(k) {
                Some(p) => p.clone(),
                None => gr.parents[*k]
                    .iter()
                    .map(|p| {
                        let mut p = *p;
                        while fixups.contains(&p) {
                            p = *gr.parents[p].first().unwrap_or(&usize::MAX);
                        }
                        p
                    })
                    .collect(),
            };
        }
        if moved.iter().any(|k| parents[*k].is_empty() && !ask.keep.contains(k) || parents[*k].contains(&usize::MAX)) {
            return Err("root commit");
        }
        // parents first
        let mut order = vec![];
        while order.len() < moved.len() {
            let next: Vec<usize> = moved.iter().copied().filter(|k| !order.contains(k) && parents[*k].iter().all(|p| !moved.contains(p) || order.contains(p))).collect();
            if next.is_empty() {
                return Err("cycle");
            }
            order.extend(next);
        }
        let mut own = gr.own.clone();
        for (d, fs) in &ask.squash {
            for f in fs {
                let c = own[*f].clone();
                own[*d].extend(c);
            }
        }
        for (k, c) in &ask.own {
            own[*k].extend(c.clone());
        }
        // ancestors as they are to be
        let mut anc: BTreeMap<usize, Set> = BTreeMap::new();
        for k in 0..gr.n() {
            if !moved.contains(&k) {
                anc.insert(k, gr.ancestors(&[k].into()));
            }
        }
        let mut want = Want { order: order.clone(), parents, files: BTreeMap::new(), dropped: Set::new(), squash: ask.squash.clone(), messages: ask.messages.clone(), amended: ask.own.keys().copied().collect(), follow: BTreeMap::new() };
        for k in order {
            let mut a: Set = want.parents[k].iter().flat_map(|p| anc[p].iter().copied()).collect();
            let before = files(&a, &own);
            a.insert(k);
            let f = if ask.same_files.contains(&k) { files(&gr.ancestors(&[k].into()), &gr.own) } else { files(&a, &own) };
            if want.parents[k].len() == 1 && f == before && !ask.keep.contains(&k) {
                want.dropped.insert(k);
            }
            want.files.insert(k, f);
            anc.insert(k, a);
        }
        Ok(want)
    }
    pub fn rewrites(&self) -> Set {
        let mut s: Set = self.order.iter().copied().collect();
        s.extend(self.squash.values().flatten());
        s
    }
}

pub fn tree(gr: &Graph, oid: &str) -> Files {
    let mut r = Files::new();
    for l in gr.g.get(&["ls-tree", "-r", oid]).lines() {
        let (h, p) = l.split_once('\t').unwrap();
        let h: Vec<&str> = h.split(' ').collect();
        r.insert(p.to_string(), (h[0].to_string(), h[2].to_string()));
    }
    r
}
fn blobs(f: &Files) -> Files {
    f.iter().map(|(p, (m, t))| (p.clone(), (m.clone(), git_hash(t)))).collect()
}
fn git_hash(t: &str) -> String {
    git2::Oid::hash_object(git2::ObjectType::Blob, t.as_bytes()).unwrap().to_string()
}

pub struct State {
    pub events: usize,
    pub refs: BTreeMap<String, String>,
    pub head: String,
    pub head_ref: String,
    pub status: String,
}
pub fn state(gr: &Graph) -> State {
    let repo = gr.g.repo();
    let rep = gr.g.replayer(&repo);
    State { events: get_event_replayer_events(&rep).len(), refs: gr.g.refs(), head: gr.g.head(), head_ref: gr.g.get(&["symbolic-ref", "-q", "HEAD"]), status: gr.g.get(&["status", "--porcelain", "-uall"]) }
}
/// The rewrites recorded since.
pub fn rewritten(gr: &Graph, from: usize) -> (BTreeMap<usize, Option<String>>, Vec<String>) {
    let repo = gr.g.repo();
    let rep = gr.g.replayer(&repo);
    let mut m = BTreeMap::new();
    let mut odd = vec![];
    for e in &get_event_replayer_events(&rep)[from..] {
        if let Event::RewriteEvent { old_commit_oid, new_commit_oid, .. } = e {
            match gr.index(&old_commit_oid.to_string()) {
                Some(k) => {
                    let new = new_commit_oid.to_string();
                    m.insert(k, (!new.starts_with("0000000000")).then_some(new));
                }
                // one that came about in between, and was dropped
                None if new_commit_oid.to_string().starts_with("0000000000") => (),
                None => odd.push(old_commit_oid.to_string()),
            }
        }
        if let Event::ObsoleteEvent { commit_oid, .. } = e {
            if gr.index(&commit_oid.to_string()).is_some() {
                odd.push(commit_oid.to_string());
            }
        }
    }
    (m, odd)
}

/// Nothing at all may have changed.
pub fn unchanged(gr: &Graph, b: &State) -> Result<(), String> {
    let a = state(gr);
    let (m, _) = rewritten(gr, b.events);
    if !m.is_empty() {
        return Err(format!("commits {:?} were recorded as rewritten", m.keys()));
    }
    if a.refs != b.refs {
        return Err(format!("branches went from {:?} to {:?}", b.refs, a.refs));
    }
    if a.head != b.head || a.head_ref != b.head_ref {
        return Err(format!("HEAD went from {} {} to {} {}", b.head, b.head_ref, a.head, a.head_ref));
    }
    if a.status != b.status {
        return Err(format!("the working copy went from {:?} to {:?}", b.status, a.status));
    }
    Ok(())
}

/// The commits are as they are wanted.
pub fn check(gr: &Graph, b: &State, w: &Want) -> Result<(), (&'static str, String)> {
    let (m, odd) = rewritten(gr, b.events);
    if !odd.is_empty() {
        return Err(("events", format!("unexpected events about {odd:?}")));
    }
    let want: Set = w.rewrites();
    let got: Set = m.keys().copied().collect();
    if got != want {
        return Err(("rewritten", format!("commits {got:?} were rewritten, not {want:?}")));
    }
    // where a commit ends up; a dropped one is replaced by its parent
    let place = |mut k: usize| loop {
        match m.get(&k) {
            None => return gr.oids[k].clone(),
            Some(Some(o)) => return o.clone(),
            Some(None) => k = w.parents[k][0],
        }
    };
    for k in &w.order {
        let (k, new) = (*k, &m[k]);
        if new.is_none() != w.dropped.contains(&k) {
            return Err(("dropped", format!("commit {k} became {new:?}, to be dropped: {:?}", w.dropped)));
        }
        let Some(new) = new else { continue };
        let parents: Vec<String> = w.parents[k].iter().map(|p| place(*p)).collect();
        let got = gr.g.get(&["show", "-s", "--format=%P", new]);
        if got != parents.join(" ") {
            return Err(("parents", format!("the new version {new} of {k} has parents {got}, not {parents:?} (those of {:?})", w.parents[k])));
        }
        let who = if w.amended.contains(&k) { "--format=%an <%ae>" } else { "--format=%an <%ae> %ad" };
        let was = gr.g.get(&["show", "-s", who, &gr.oids[k]]);
        let is = gr.g.get(&["show", "-s", who, new]);
        if was != is {
            return Err(("author", format!("the author of {k} went from {was} to {is}")));
        }
        let was = match w.messages.get(&k) {
            Some(m) => m.trim_end().to_string(),
            None => gr.g.get(&["show", "-s", "--format=%B", &gr.oids[k]]),
        };
        let is = gr.g.get(&["show", "-s", "--format=%B", new]);
        if was.trim_end() != is.trim_end() {
            return Err(("message", format!("the message of {k} is {is:?}, not {was:?}")));
        }
        let (fs, gs) = (blobs(&w.files[&k]), tree(gr, new));
        if fs != gs {
            let diff: Vec<String> = fs.keys().chain(gs.keys()).filter(|p| fs.get(*p) != gs.get(*p)).map(|p| format!("{p}: {:?} not {:?}", gs.get(p), fs.get(p))).collect();
            return Err(("files", format!("the new version {new} of {k} has other files: {diff:?}")));
        }
    }
    for (d, fs) in &w.squash {
        for f in fs {
            if m[f] != m[d] {
                return Err(("squashed", format!("commit {f}, squashed into {d}, is recorded as {:?}, not {:?}", m[f], m[d])));
            }
        }
    }
    // branches follow
    let mut refs = b.refs.clone();
    refs.retain(|_, o| !matches!(gr.index(o).and_then(|k| m.get(&k)), Some(None)) && !matches!(gr.index(o).and_then(|k| w.follow.get(&k)), Some(None)));
    for o in refs.values_mut() {
        if let Some(Some(t)) = gr.index(o).and_then(|k| w.follow.get(&k)) {
            *o = place(*t);
        }
        if let Some(Some(n)) = gr.index(o).and_then(|k| m.get(&k)) {
            *o = n.clone();
        }
    }
    let a = state(gr);
    if a.refs != refs {
        return Err(("branches", format!("branches are {:?}, not {refs:?} (were {:?})", a.refs, b.refs)));
    }
    let at = gr.index(&b.head).unwrap();
    let head = match w.follow.get(&at) {
        Some(Some(t)) if !b.head_ref.is_empty() => place(*t),
        _ => place(at),
    };
    if a.head != head {
        return Err(("head", format!("HEAD is {}, not {head} (was {})", a.head, b.head)));
    }
    if !b.head_ref.is_empty() && refs.contains_key(&b.head_ref) && a.head_ref != b.head_ref {
        return Err(("head", format!("HEAD was on {}, is on {:?}", b.head_ref, a.head_ref)));
    }
    if a.status != b.status {
        return Err(("working copy", format!("the working copy went from {:?} to {:?}", b.status, a.status)));
    }
    let repo = gr.g.repo();
    let rep = gr.g.replayer(&repo);
    let hidden = |o: &str| matches!(rep.get_cursor_commit_activity_status(rep.make_default_cursor(), o.parse().unwrap()), CommitActivityStatus::Obsolete);
    for (k, new) in &m {
        if new.as_ref() != Some(&gr.oids[*k]) && !hidden(&gr.oids[*k]) {
            return Err(("hidden", format!("the old version of {k} is not hidden")));
        }
        if let Some(new) = new {
            if hidden(new) {
                return Err(("hidden", format!("the new version {new} of {k} is hidden")));
            }
            if *new != gr.oids[*k] && gr.g.get(&["rev-parse", "-q", "--verify", &format!("refs/branchless/{new}")]).is_empty() {
                return Err(("kept", format!("the new version of {k} is not kept from collection")));
            }
        }
    }
    Ok(())
}

fn first_on_path(gr: &Graph, from: usize, to: usize) -> usize {
    let mut k = to;
    while gr.parents[k][0] != from {
        k = gr.parents[k][0];
    }
    k
}

/// What `git move` is asked to do, or why it has to refuse.
fn move_ask(gr: &Graph, s: &Set, b: &Set, x: &Set, d: usize, insert: bool, fixup: bool) -> Result<Ask, &'static str> {
    let visible = gr.visible();
    let mut ask = Ask::default();
    let mut s = s.clone();
    let ad = gr.ancestors(&[d].into());
    for k in b {
        let common: Set = gr.ancestors(&[*k].into()).intersection(&ad).copied().collect();
        s.insert(match gr.heads(&common).iter().next() {
            Some(c) if c == k => *k,
            Some(c) => first_on_path(gr, *c, *k),
            None => *gr.roots(&gr.ancestors(&[*k].into())).iter().next().unwrap(),
        });
    }
    // components of the commits named exactly
    let mut comps: Vec<Set> = vec![];
    for k in x {
        match comps.iter_mut().find(|c| gr.parents[*k].iter().any(|p| c.contains(p))) {
            Some(c) => {
                c.insert(*k);
            }
            None => comps.push([*k].into()),
        }
    }
    let root = |c: &Set| *c.iter().next().unwrap();
    if comps.iter().any(|c| gr.parents[root(c)].is_empty()) {
        return Err("root commit");
    }
    let mut fixed = Set::new();
    for r in gr.roots(&s) {
        if fixup {
            fixed.extend(gr.descendants(&[r].into()).intersection(&visible));
        } else {
            ask.parents.insert(r, vec![d]);
        }
    }
    for c in &comps {
        let anc = gr.ancestors(&[root(c)].into());
        let dest = match comps.iter().filter(|e| *e != c && anc.contains(&root(e))).max_by_key(|e| gr.ancestors(&[root(e)].into()).len()) {
            Some(e) => *gr.heads(&anc.intersection(e).copied().collect()).iter().next().unwrap(),
            None => d,
        };
        for k in visible.iter().filter(|k| !c.contains(k) && gr.parents[**k].iter().any(|p| c.contains(p))) {
            ask.parents.insert(*k, vec![gr.parents[root(c)][0]]);
        }
        if fixup {
            fixed.extend(c);
        } else {
            ask.parents.insert(root(c), vec![dest]);
        }
    }
    if fixup {
        if fixed.contains(&d) {
            return Err("into itself");
        }
        ask.parents.retain(|k, _| !fixed.contains(k));
        // what was on top of a squashed commit goes to the nearest one that stays
        ask.parents.clear();
        ask.squash.insert(d, fixed);
        return Ok(ask);
    }
    if insert {
        let mut tops: Set = gr.heads(&gr.descendants(&s).intersection(&visible).copied().collect());
        let mut roots: Vec<&Set> = comps.iter().collect();
        roots.sort_by_key(|c| gr.ancestors(&[root(c)].into()).len());
        for w in roots.windows(2) {
            if !gr.ancestors(&[root(w[1])].into()).contains(&root(w[0])) {
                return Err("not one line");
            }
        }
        if let Some(c) = roots.last() {
            tops.extend(gr.heads(c));
        }
        if tops.len() != 1 {
            return Err("several heads");
        }
        let top = *tops.iter().next().unwrap();
        for k in visible.iter().filter(|k| gr.parents[**k].contains(&d) && !s.contains(k) && !x.contains(k)) {
            ask.parents.insert(*k, vec![top]);
        }
    }
    Ok(ask)
}

/// Commits with several parents stay out of what is asked for explicitly.
fn plain(gr: &Graph, s: &Set) -> bool {
    gr.ancestors(s).iter().all(|k| gr.parents[*k].len() <= 1)
}

fn degenerate(parents: &[Vec<usize>], k: usize) -> bool {
    fn above(parents: &[Vec<usize>], a: usize, b: usize) -> bool {
        a == b || parents[b].iter().any(|p| above(parents, a, *p))
    }
    parents[k].len() > 1 && (above(parents, parents[k][0], parents[k][1]) || above(parents, parents[k][1], parents[k][0]))
}

fn one_move(c: &mut Ctx, rng: &mut Rng, about: About) {
    let on_disk = rng.chance(1, 6);
    let conflicts = !on_disk && rng.chance(1, 6);
    let o = Opts { commits: 10, merges: on_disk && rng.chance(1, 2), checkout: true, edits: true, same: !conflicts && rng.chance(1, 3), conflicts, ..Default::default() };
    let mut gr = Graph::random(&c.scratch.clone(), rng, &o);
    let visible: Vec<usize> = gr.visible().into_iter().collect();
    let drafts: Vec<usize> = gr.draft().into_iter().collect();
    let pick = |rng: &mut Rng| if drafts.is_empty() || rng.chance(1, 6) { *rng.pick(&visible) } else { *rng.pick(&drafts) };
    let (mut s, mut b, mut x) = (Set::new(), Set::new(), Set::new());
    for _ in 0..1 + rng.below(3) {
        match rng.below(5) {
            0 => b.insert(pick(rng)),
            1 | 2 => s.insert(pick(rng)),
            _ => x.insert(pick(rng)),
        };
    }
    // sources and bases, or exact commits
    if !x.is_empty() {
        (s, b) = Default::default();
    } else if !s.is_empty() {
        b.clear();
    }
    let mut d = if rng.chance(1, 3) { gr.main } else { *rng.pick(&visible) };
    // to where the change already is
    let same: Vec<usize> = gr.same.keys().copied().filter(|k| visible.contains(k) && !gr.public().contains(k)).collect();
    if !same.is_empty() && rng.chance(2, 3) {
        let k = *rng.pick(&same);
        let there: Vec<usize> = visible.iter().copied().filter(|d| gr.ancestors(&[*d].into()).is_superset(&gr.same[&k]) && !gr.ancestors(&[*d].into()).contains(&k)).collect();
        let up: Vec<usize> = gr.ancestors(&[k].into()).into_iter().filter(|a| !gr.public().contains(a)).collect();
        if !there.is_empty() {
            d = *rng.pick(&there);
            (s, b, x) = match rng.below(4) {
                0 => (Set::new(), Set::new(), [k].into()),
                1 => (Set::new(), [k].into(), Set::new()),
                _ => ([*rng.pick(&up)].into(), Set::new(), Set::new()),
            };
        }
    }
    let insert = rng.chance(1, 5);
    let fixup = !insert && !on_disk && rng.chance(1, 6);
    let force = rng.chance(1, 5);
    let named: Set = s.iter().chain(&b).chain(&x).chain([&d]).copied().collect();
    if !plain(&gr, &named) || gr.roots(&gr.visible()).len() > 1 {
        return;
    }
    let mut args: Vec<String> = vec!["branchless".into(), "move".into(), "-d".into(), gr.oids[d].clone()];
    for (f, set) in [("-s", &s), ("-b", &b), ("-x", &x)] {
        for k in set {
            args.push(f.into());
            args.push(gr.oids[*k].clone());
        }
    }
    for (f, on) in [("--insert", insert), ("--fixup", fixup), ("-f", force), ("--on-disk", on_disk), ("--in-memory", !on_disk && rng.chance(1, 2))] {
        if on {
            args.push(f.into());
        }
    }
    let before = state(&gr);
    let ask = move_ask(&gr, &s, &b, &x, d, insert, fixup);
    let want = ask.clone().and_then(|a| Want::new(&gr, &a));
    // merges are only ever carried along
    if matches!(&ask, Ok(a) if a.parents.keys().any(|k| gr.parents[*k].len() > 1)) {
        return;
    }
    // git does not make a merge of a commit with its own ancestor
    if (0..gr.n()).any(|k| degenerate(&gr.parents, k)) || matches!(&want, Ok(w) if (0..gr.n()).any(|k| degenerate(&w.parents, k))) {
        return;
    }
    // without its main branch the repository is not usable
    if matches!(&want, Ok(w) if w.dropped.contains(&gr.main)) {
        return;
    }
    let r = gr.g.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    c.eval(Some(hash(&gr.describe().to_string())));
    let input = json!({"graph": gr.describe(), "sources": s, "bases": b, "exact": x, "dest": d, "insert": insert, "fixup": fixup, "force": force});
    verdict(c, about, &gr, &before, Case { want, force, conflicts, input }, &r);
}

/// Which of the properties a run is about.
#[derive(Clone, Copy, PartialEq)]
pub enum About {
    Refusal,
    Result,
}

pub struct Case {
    pub want: Result<Want, &'static str>,
    pub force: bool,
    pub conflicts: bool,
    pub input: Value,
}

fn verdict(c: &mut Ctx, about: About, gr: &Graph, before: &State, case: Case, r: &Out) {
    let Case { want, force, conflicts, input } = case;
    let said = format!("{}{}", r.out, r.err);
    let ok = r.ok;
    let refuse = match &want {
        Err(e) => Some(*e),
        Ok(w) if !force && !w.rewrites().is_disjoint(&gr.public()) => Some("public"),
        Ok(_) => None,
    };
    match refuse {
        Some(why) if about == About::Refusal => {
            c.stat(why);
            if ok {
                return c.violation(&format!("allowed {why}"), format!("not refused ({why}): {said}"), input);
            }
            if let Err(e) = unchanged(gr, before) {
                return c.violation(&format!("changed {why}"), format!("refused ({why}), yet {e}: {said}"), input);
            }
        }
        Some(_) => {}
        None if conflicts && !ok => {
            c.stat("conflict");
            if !said.contains("conflict") {
                return c.violation("refused", format!("failed: {said}"), input);
            }
            if let Err(e) = unchanged(gr, before) {
                return c.violation("changed conflict", format!("refused for a conflict, yet {e}: {said}"), input);
            }
        }
        None => {
            c.stat("done");
            if let Ok(w) = &want {
                if !w.dropped.is_empty() {
                    c.stat(if w.dropped.contains(&gr.head) { "dropped HEAD" } else { "dropped" });
                }
            }
            if !ok {
                return c.violation("refused", format!("failed: {said}"), input);
            }
            if conflicts || about == About::Refusal {
                return;
            }
            if let Err((key, e)) = check(gr, before, &want.unwrap_or_else(|_| unreachable!())) {
                return c.violation(key, format!("{e}; {said}"), input);
            }
        }
    }
}
fn strs(args: &[String]) -> Vec<&str> {
    args.iter().map(|s| s.as_str()).collect()
}

fn reword(c: &mut Ctx, rng: &mut Rng, about: About) {
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 9, merges: false, checkout: true, edits: true, ..Default::default() });
    let visible: Vec<usize> = gr.visible().into_iter().collect();
    let drafts: Vec<usize> = gr.draft().into_iter().collect();
    let mut named = Set::new();
    for _ in 0..1 + rng.below(3) {
        named.insert(if drafts.is_empty() || rng.chance(1, 8) { *rng.pick(&visible) } else { *rng.pick(&drafts) });
    }
    let force = rng.chance(1, 5);
    let mut args: Vec<String> = vec!["branchless".into(), "reword".into()];
    args.extend(named.iter().map(|k| gr.oids[*k].clone()));
    let (message, extra): (String, Vec<&str>) = match rng.below(3) {
        0 => ("reworded\n".into(), vec!["-m", "reworded"]),
        1 => ("reworded\n\nwith a body\n".into(), vec!["-m", "reworded", "-m", "with a body"]),
        _ => ("  spaced  \n\n# not a comment\n".into(), vec!["-m", "  spaced  \n\n\n# not a comment\n\n"]),
    };
    let message = if message.starts_with(' ') { "spaced\n\n# not a comment\n".to_string() } else { message };
    args.extend(extra.iter().map(|s| s.to_string()));
    if force {
        args.push("-f".into());
    }
    let ask = Ask { messages: named.iter().map(|k| (*k, message.clone())).collect(), ..Default::default() };
    let want = Want::new(&gr, &ask);
    let before = state(&gr);
    let r = gr.g.run(&strs(&args));
    c.eval(Some(hash(&gr.describe().to_string())));
    let input = json!({"graph": gr.describe(), "reworded": named, "force": force});
    verdict(c, about, &gr, &before, Case { want, force, conflicts: false, input }, &r);
}

/// Make changes in the working copy.
pub fn apply(gr: &Graph, ch: &Change) {
    for (p, x) in ch.iter().filter(|(_, x)| x.is_none()).chain(ch.iter().filter(|(_, x)| x.is_some())) {
        let f = gr.g.dir.join(p);
        match x {
            None => {
                std::fs::remove_file(&f).unwrap();
                // git removes directories left empty
                if let Some(d) = f.parent().filter(|d| *d != gr.g.dir) {
                    let _ = std::fs::remove_dir(d);
                }
            }
            Some((mode, text)) => {
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                let _ = std::fs::remove_file(&f);
                if mode == "120000" {
                    std::os::unix::fs::symlink(text, &f).unwrap();
                } else {
                    std::fs::write(&f, text).unwrap();
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(if mode == "100755" { 0o755 } else { 0o644 })).unwrap();
                }
            }
        }
    }
}

/// Changes to the files checked out; `new`: also files git does not know yet.
pub fn edit(gr: &Graph, rng: &mut Rng, n: usize, new: bool, tag: &str) -> Change {
    let here = files(&gr.ancestors(&[gr.head].into()), &gr.own);
    let names: Vec<&String> = here.keys().collect();
    let mut ch = Change::new();
    for i in 0..n {
        let p = rng.pick(&names).to_string();
        if ch.keys().any(|q| q.starts_with(&p) || p.starts_with(q.as_str())) {
            continue;
        }
        let (mode, text) = here[&p].clone();
        match rng.below(if new { 8 } else { 4 }) {
            0 => {
                ch.insert(p, None);
            }
            1 if mode == "100644" => {
                ch.insert(p, Some(("100755".into(), text)));
            }
            // a link instead of a file, or the other way round
            1 => {
                ch.insert(p, Some(("100644".into(), format!("{tag}{i}\n"))));
            }
            2 if rng.chance(1, 3) => {
                ch.insert(p, Some(("120000".into(), format!("{tag}{i}"))));
            }
            2 | 3 => {
                ch.insert(p, Some((mode, format!("{text}{tag}{i}\n"))));
            }
            4 => {
                ch.insert(format!("new {tag}{i}"), Some(("100644".into(), format!("{tag}\n"))));
            }
            5 => {
                ch.insert(format!("n{tag}/{i}/x"), Some(("100755".into(), format!("{tag}\n"))));
            }
            6 => {
                ch.insert(p, None);
                ch.insert(format!("moved {tag}{i}"), Some((mode, text)));
            }
            _ => {
                ch.insert(p.clone(), None);
                ch.insert(format!("{p}/y"), Some(("100644".into(), format!("{tag}\n"))));
            }
        }
    }
    ch
}
/// Commits above whose changes would not carry over.
fn clash(gr: &Graph, ch: &Change) -> bool {
    gr.descendants(&[gr.head].into()).iter().any(|k| *k != gr.head && gr.own[*k].keys().any(|p| ch.keys().any(|q| q.starts_with(p.as_str()) || p.starts_with(q.as_str()))))
}
pub fn working_copy(gr: &Graph) -> BTreeMap<String, String> {
    fn walk(d: &std::path::Path, base: &std::path::Path, r: &mut BTreeMap<String, String>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let p = e.path();
            if p.file_name().unwrap() == ".git" {
                continue;
            }
            let t = e.file_type().unwrap();
            let name = p.strip_prefix(base).unwrap().display().to_string();
            if t.is_dir() {
                walk(&p, base, r);
            } else if t.is_symlink() {
                r.insert(name, format!("-> {}", std::fs::read_link(&p).unwrap().display()));
            } else {
                use std::os::unix::fs::PermissionsExt;
                let x = e.metadata().unwrap().permissions().mode() & 0o100 != 0;
                r.insert(name, format!("{x} {}", std::fs::read_to_string(&p).unwrap()));
            }
        }
    }
    let mut r = BTreeMap::new();
    walk(&gr.g.dir, &gr.g.dir, &mut r);
    r
}

fn amend(c: &mut Ctx, rng: &mut Rng, about: About) {
    // merges are rewritten on disk, which takes a working copy without further changes
    let merges = rng.chance(1, 4);
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 8, merges, checkout: true, edits: true, ..Default::default() });
    if (0..gr.n()).any(|k| degenerate(&gr.parents, k)) {
        return;
    }
    let staged_n = if !merges && rng.chance(1, 2) { 1 + rng.below(3) } else { 0 };
    let n = rng.below(3) + (staged_n == 0) as usize;
    let staged = edit(&gr, rng, staged_n, true, "s");
    let rest: Change = edit(&gr, rng, n, false, "u").into_iter().filter(|(p, _)| !staged.keys().any(|q| q.starts_with(p.as_str()) || p.starts_with(q.as_str()))).collect();
    if clash(&gr, &staged) || clash(&gr, &rest) || gr.roots(&gr.visible()).len() > 1 || (staged.is_empty() && rest.is_empty()) {
        return;
    }
    apply(&gr, &staged);
    if !staged.is_empty() {
        gr.g.must(&["-c", "core.hooksPath=/dev/null", "add", "-A"]);
    }
    apply(&gr, &rest);
    // a file where there was a directory, or the other way round
    let mut rest = rest;
    let mut untracked = String::new();
    if !merges && rng.chance(1, 4) {
        let here = files(&gr.ancestors(&[gr.head].into()), &gr.own);
        let names: Vec<&String> = here.keys().collect();
        let p = rng.pick(&names).to_string();
        let ch: Change = [(p.clone(), None)].into();
        if !clash(&gr, &ch) && !rest.keys().chain(staged.keys()).any(|q| q.starts_with(&p) || p.starts_with(q.as_str())) {
            apply(&gr, &ch);
            gr.g.write(&format!("{p}/z"), "z\n");
            rest.extend(ch);
            if staged.is_empty() {
                untracked = format!("?? {p}/z\n");
            }
        }
    }
    // untracked files stay out of it
    gr.g.write("untracked.txt", "u\n");
    let reparent = rng.chance(1, 4);
    let force = rng.chance(1, 4);
    let mut args: Vec<String> = vec!["branchless".into(), "amend".into()];
    for (f, on) in [("--reparent", reparent), ("-f", force), ("--on-disk", merges && !reparent)] {
        if on {
            args.push(f.into());
        }
    }
    let used = if staged.is_empty() { rest.clone() } else { staged.clone() };
    let mut ask = Ask { own: [(gr.head, used)].into(), keep: [gr.head].into(), ..Default::default() };
    if reparent {
        ask.same_files = gr.descendants(&[gr.head].into());
        ask.same_files.remove(&gr.head);
        ask.keep.extend(ask.same_files.iter().copied());
    }
    let want = Want::new(&gr, &ask);
    let before = state(&gr);
    let wc = working_copy(&gr);
    let status = if staged.is_empty() { format!("{untracked}?? untracked.txt") } else { gr.g.get(&["status", "--porcelain", "-uall"]).lines().map(|l| if l.starts_with('?') { l.to_string() } else { format!(" {}", &l[1..]) }).filter(|l| !l.starts_with("  ")).collect::<Vec<_>>().join("\n") };
    let r = gr.g.run(&strs(&args));
    c.eval(Some(hash(&gr.describe().to_string())));
    let input = json!({"graph": gr.describe(), "staged": staged, "unstaged": rest, "force": force, "reparent": reparent});
    let mut b = before;
    if r.ok {
        b.status = status;
    }
    if about == About::Result && working_copy(&gr) != wc {
        return c.violation("working copy", format!("amending changed files in the working copy: {:?} to {:?}; {}{}", wc, working_copy(&gr), r.out, r.err), input);
    }
    verdict(c, about, &gr, &b, Case { want, force, conflicts: false, input }, &r);
}

fn sync(c: &mut Ctx, rng: &mut Rng) {
    let same = rng.chance(1, 3);
    let on_disk = rng.chance(1, 6);
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 10, merges: false, checkout: true, edits: true, same, ..Default::default() });
    if gr.roots(&gr.visible()).len() > 1 {
        return;
    }
    let drafts = gr.draft();
    let list: Vec<usize> = drafts.iter().copied().collect();
    let named: Set = if list.is_empty() || rng.chance(1, 2) { Set::new() } else { (0..1 + rng.below(2)).map(|_| *rng.pick(&list)).collect() };
    let mut args: Vec<String> = vec!["branchless".into(), "sync".into()];
    args.extend(named.iter().map(|k| gr.oids[*k].clone()));
    if on_disk {
        args.push("--on-disk".into());
    }
    let above = gr.ancestors(&named);
    let mut ask = Ask::default();
    for k in gr.roots(&drafts) {
        if gr.parents[k] != [gr.main] && (named.is_empty() || above.contains(&k)) {
            ask.parents.insert(k, vec![gr.main]);
        }
    }
    let want = Want::new(&gr, &ask);
    let before = state(&gr);
    let r = gr.g.run(&strs(&args));
    c.eval(Some(hash(&gr.describe().to_string())));
    let input = json!({"graph": gr.describe(), "named": named});
    verdict(c, About::Result, &gr, &before, Case { want, force: false, conflicts: false, input }, &r);
}

fn restack(c: &mut Ctx, rng: &mut Rng) {
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 10, merges: false, checkout: true, edits: true, ..Default::default() });
    if gr.roots(&gr.visible()).len() > 1 {
        return;
    }
    let visible = gr.visible();
    let mut follow = BTreeMap::new();
    let (repo, mut ask) = (gr.g.repo(), Ask::default());
    let rep = gr.g.replayer(&repo);
    let gone = |k: usize| matches!(rep.get_cursor_commit_latest_event(rep.make_default_cursor(), gr.oid(k)), Some(Event::RewriteEvent { old_commit_oid, .. }) if *old_commit_oid == gr.oid(k).into());
    for k in 0..gr.n() {
        let mut to = Some(k);
        while let Some(t) = to.filter(|t| gone(*t)) {
            to = gr.rewritten[&t];
        }
        if to == Some(k) {
            continue;
        }
        follow.insert(k, to);
        for x in visible.iter().filter(|x| gr.parents[**x] == [k] && !gr.obsolete.contains(x)) {
            match to {
                Some(t) => ask.parents.insert(*x, vec![t]),
                // nothing to put them on
                None => return,
            };
        }
    }
    if gr.head_branch.is_some() && follow.contains_key(&gr.head) {
        c.stat("checked out");
    }
    let want = Want::new(&gr, &ask).map(|mut w| {
        w.follow = follow;
        w
    });
    let before = state(&gr);
    let on_disk = rng.chance(1, 6);
    let r = if on_disk { gr.g.run(&["branchless", "restack", "--on-disk"]) } else { gr.g.run(&["branchless", "restack"]) };
    c.eval(if ask.parents.is_empty() { None } else { Some(hash(&gr.describe().to_string())) });
    let input = json!({"graph": gr.describe()});
    verdict(c, About::Result, &gr, &before, Case { want, force: false, conflicts: false, input }, &r);
}

fn record(c: &mut Ctx, rng: &mut Rng) {
    let mut gr = Graph::random(&c.scratch.clone(), rng, &Opts { commits: 8, merges: false, checkout: true, edits: true, ..Default::default() });
    let staged_n = if rng.chance(1, 2) { 1 + rng.below(3) } else { 0 };
    let n = rng.below(3) + (staged_n == 0) as usize;
    let staged = edit(&gr, rng, staged_n, true, "s");
    let rest: Change = edit(&gr, rng, n, false, "u").into_iter().filter(|(p, _)| !staged.keys().any(|q| q.starts_with(p.as_str()) || p.starts_with(q.as_str()))).collect();
    if clash(&gr, &staged) || clash(&gr, &rest) || gr.roots(&gr.visible()).len() > 1 || (staged.is_empty() && rest.is_empty()) {
        return;
    }
    apply(&gr, &staged);
    if !staged.is_empty() {
        gr.g.must(&["-c", "core.hooksPath=/dev/null", "add", "-A"]);
    }
    apply(&gr, &rest);
    gr.g.write("untracked.txt", "u\n");
    let used = if staged.is_empty() { rest.clone() } else { staged.clone() };
    let stash = rng.chance(1, 4);
    let detach = !stash && rng.chance(1, 4);
    let create = !stash && !detach && rng.chance(1, 4);
    let insert = rng.chance(1, 2);
    let mut args: Vec<String> = ["branchless", "record", "-m", "the new commit"].iter().map(|s| s.to_string()).collect();
    for (f, on) in [("-s", stash), ("-d", detach), ("-I", insert), ("-c", create), ("created", create)] {
        if on {
            args.push(f.into());
        }
    }
    let old = gr.head;
    let siblings: Vec<usize> = gr.visible().into_iter().filter(|k| gr.parents[*k] == [old]).collect();
    let public = gr.public();
    let before = state(&gr);
    let wc = working_copy(&gr);
    let status = if staged.is_empty() { "?? untracked.txt".to_string() } else { gr.g.get(&["status", "--porcelain", "-uall"]).lines().map(|l| if l.starts_with('?') { l.to_string() } else { format!(" {}", &l[1..]) }).filter(|l| !l.starts_with("  ")).collect::<Vec<_>>().join("\n") };
    let r = gr.g.run(&strs(&args));
    c.eval(Some(hash(&gr.describe().to_string())));
    let input = json!({"graph": gr.describe(), "staged": staged, "unstaged": rest});
    let said = format!("{}{}", r.out, r.err);
    if !r.ok {
        return c.violation("refused", format!("failed: {said}"), input);
    }
    // the new commit
    let (m, _) = rewritten(&gr, before.events);
    let repo = gr.g.repo();
    let rep = gr.g.replayer(&repo);
    let mut new = vec![];
    for e in &get_event_replayer_events(&rep)[before.events..] {
        if let Event::CommitEvent { commit_oid, .. } = e {
            let o = commit_oid.to_string();
            if gr.index(&o).is_none() && !m.values().any(|x| x.as_ref() == Some(&o)) && !new.contains(&o) {
                new.push(o);
            }
        }
    }
    let [new] = &new[..] else {
        return c.violation("recorded", format!("new commits {new:?}; {said}"), input);
    };
    let new = new.clone();
    let shows = gr.g.get(&["show", "-s", "--format=%P %s", &new]);
    if shows != format!("{} the new commit", before.head) {
        return c.violation("recorded", format!("the new commit {new} is {shows}; {said}"), input);
    }
    gr.own.push(used);
    gr.parents.push(vec![old]);
    gr.oids.push(new.clone());
    gr.observed.insert(gr.oids.len() - 1);
    let k = gr.oids.len() - 1;
    let (fs, gs) = (blobs(&files(&gr.ancestors(&[k].into()), &gr.own)), tree(&gr, &new));
    if fs != gs {
        let diff: Vec<String> = fs.keys().chain(gs.keys()).filter(|p| fs.get(*p) != gs.get(*p)).map(|p| format!("{p}: {:?} not {:?}", gs.get(p), fs.get(p))).collect();
        return c.violation("files", format!("the new commit {new} has other files: {diff:?}; {said}"), input);
    }
    // where things are to be, as if the commit had been there before
    let mut b = before;
    b.status = status;
    let on = b.head_ref.clone();
    if !stash {
        b.head = new.clone();
        if create {
            b.head_ref = "refs/heads/created".into();
            b.refs.insert(b.head_ref.clone(), new.clone());
        } else if detach || on.is_empty() {
            b.head_ref = String::new();
        } else {
            b.refs.insert(on.clone(), new.clone());
        }
    }
    let mut ask = Ask::default();
    if insert && siblings.iter().all(|k| gr.descendants(&[*k].into()).is_disjoint(&public)) {
        for s in siblings {
            ask.parents.insert(s, vec![k]);
        }
    }
    if !stash && working_copy(&gr) != wc {
        return c.violation("working copy", format!("recording changed files in the working copy: {:?} to {:?}; {said}", wc, working_copy(&gr)), input);
    }
    c.stat(if ask.parents.is_empty() { "recorded" } else { "inserted" });
    match Want::new(&gr, &ask) {
        Ok(w) => {
            if let Err((key, e)) = check(&gr, &b, &w) {
                c.violation(key, format!("{e}; {said}"), input);
            }
        }
        Err(e) => panic!("{e}"),
    }
}

pub fn restacks(c: &mut Ctx) {
    c.run(|c, rng, _| restack(c, rng));
}
pub fn recordings(c: &mut Ctx) {
    c.run(|c, rng, _| record(c, rng));
}
pub fn rewords(c: &mut Ctx) {
    c.run(|c, rng, _| reword(c, rng, About::Result));
}
pub fn amends(c: &mut Ctx) {
    c.run(|c, rng, _| amend(c, rng, About::Result));
}
pub fn syncs(c: &mut Ctx) {
    c.run(|c, rng, _| sync(c, rng));
}
pub fn moves(c: &mut Ctx) {
    c.run(|c, rng, _| one_move(c, rng, About::Result));
}
pub fn refusals(c: &mut Ctx) {
    c.run(|c, rng, _| match rng.below(4) {
        0 => reword(c, rng, About::Refusal),
        1 => amend(c, rng, About::Refusal),
        _ => one_move(c, rng, About::Refusal),
    });
}
