//! C09: visible, draft and public commits. C08: hide and unhide.
use lib::core::dag::{CommitSet, Dag};
use lib::core::eventlog::testing::get_event_replayer_events;
use lib::core::eventlog::Event;
use serde_json::json;

use crate::graph::{Graph, Opts, Set};
use crate::util::{hash, Ctx, Rng};

fn subset(rng: &mut Rng, s: &Set) -> Set {
    s.iter().copied().filter(|_| rng.chance(1, 3)).collect()
}
fn to_set(gr: &Graph, s: &Set) -> CommitSet {
    s.iter().map(|k| gr.oid(*k)).collect()
}
fn from_set(gr: &Graph, dag: &Dag, s: &CommitSet) -> Set {
    let v = dag.commit_set_to_vec(s).unwrap();
    let r: Set = v.iter().map(|o| gr.index(&o.to_string()).unwrap_or(999)).collect();
    assert_eq!(v.len(), r.len(), "repeated commit");
    r
}

pub fn dag(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, _| {
        let gr = Graph::random(&scratch, rng, &Opts { commits: 14, ..Default::default() });
        let repo = gr.g.repo();
        let dag = gr.dag(&repo);
        let present = gr.present();
        c.eval(Some(hash(&gr.describe().to_string())));
        let mut check = |what: &str, got: Set, want: Set, arg: &Set| {
            c.evaluations += 1;
            if got != want {
                c.violation(what, format!("{what}({arg:?}) is {got:?}, by definition {want:?}"), gr.describe());
            }
        };
        let none = Set::new();
        check("obsolete", from_set(&gr, &dag, &dag.query_obsolete_commits()), gr.obsolete.clone(), &none);
        check("visible", from_set(&gr, &dag, dag.query_visible_commits_slow().unwrap()), gr.visible(), &none);
        let vh = from_set(&gr, &dag, dag.query_visible_heads().unwrap());
        check("visible heads", gr.ancestors(&vh), gr.visible(), &none);
        check("draft", from_set(&gr, &dag, dag.query_draft_commits().unwrap()), gr.draft(), &none);
        check("public", from_set(&gr, &dag, dag.query_public_commits_slow().unwrap()), gr.public(), &none);
        let pub_: Set = present.iter().copied().filter(|k| dag.is_public_commit(gr.oid(*k)).unwrap()).collect();
        check("is public", pub_, gr.public(), &none);
        let s = subset(rng, &present);
        check("filter visible", from_set(&gr, &dag, &dag.filter_visible_commits(to_set(&gr, &s)).unwrap()), s.intersection(&gr.visible()).copied().collect(), &s);
        check("ancestors", from_set(&gr, &dag, &dag.query_ancestors(to_set(&gr, &s)).unwrap()), gr.ancestors(&s), &s);
        check("descendants", from_set(&gr, &dag, &dag.query_descendants(to_set(&gr, &s)).unwrap()), gr.descendants(&s), &s);
        check("heads", from_set(&gr, &dag, &dag.query_heads(to_set(&gr, &s)).unwrap()), gr.heads(&s), &s);
        check("roots", from_set(&gr, &dag, &dag.query_roots(to_set(&gr, &s)).unwrap()), gr.roots(&s), &s);
        let children: Set = present.iter().copied().filter(|k| gr.parents[*k].iter().any(|p| s.contains(p))).collect();
        check("children", from_set(&gr, &dag, &dag.query_children(to_set(&gr, &s)).unwrap()), children, &s);
        let parents: Set = s.iter().flat_map(|k| gr.parents[*k].iter().copied()).collect();
        check("parents", from_set(&gr, &dag, &dag.query_parents(to_set(&gr, &s)).unwrap()), parents, &s);
        let t = subset(rng, &present);
        let range = gr.descendants(&s).intersection(&gr.ancestors(&t)).copied().collect();
        check("range", from_set(&gr, &dag, &dag.query_range(to_set(&gr, &s), to_set(&gr, &t)).unwrap()), range, &s);
        let only = gr.ancestors(&s).difference(&gr.ancestors(&t)).copied().collect();
        check("only", from_set(&gr, &dag, &dag.query_only(to_set(&gr, &s), to_set(&gr, &t)).unwrap()), only, &s);
        // stacks: drafts below a draft ancestor (up to the public ones) of a commit of the set
        let draft = gr.draft();
        let sd: Set = subset(rng, &draft);
        let above: Set = gr.ancestors(&sd).intersection(&draft).copied().collect();
        let stack: Set = gr.descendants(&above).intersection(&draft).copied().collect();
        check("stack", from_set(&gr, &dag, &dag.query_stack_commits(to_set(&gr, &sd)).unwrap()), stack, &sd);
        // connected components
        let comps: Vec<Set> = dag.get_connected_components(&to_set(&gr, &s)).unwrap().iter().map(|x| from_set(&gr, &dag, x)).collect();
        let all: Set = comps.iter().flatten().copied().collect();
        check("components cover", all, s.clone(), &s);
        for (i, a) in comps.iter().enumerate() {
            // connected: closing any one member over edges within the set gives the component
            let mut reach: Set = a.iter().take(1).copied().collect();
            loop {
                let more: Set = s.iter().copied().filter(|k| reach.iter().any(|j| gr.parents[*k].contains(j) || gr.parents[*j].contains(k))).collect();
                let before = reach.len();
                reach.extend(more);
                if reach.len() == before {
                    break;
                }
            }
            check("component", a.clone(), reach, &s);
            for b in &comps[i + 1..] {
                check("components disjoint", a.intersection(b).copied().collect(), Set::new(), &s);
            }
        }
        // order
        let sorted: Vec<usize> = dag.sort(&to_set(&gr, &s)).unwrap().iter().map(|o| gr.index(&o.to_string()).unwrap()).collect();
        for (i, a) in sorted.iter().enumerate() {
            for b in &sorted[i + 1..] {
                if gr.ancestors(&[*a].into()).contains(b) {
                    c.violation("sort", format!("sort({s:?}) puts {a} before its ancestor {b}"), gr.describe());
                }
            }
        }
        if sorted.iter().copied().collect::<Set>() != s || sorted.len() != s.len() {
            c.violation("sort", format!("sort({s:?}) is {sorted:?}"), gr.describe());
        }
        c.samples.truncate(4);
        c.samples.push(gr.describe());
    });
}

/// C08
pub fn hide(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, _| {
        let mut gr = Graph::random(&scratch, rng, &Opts { commits: 8, checkout: false, ..Default::default() });
        let present: Vec<usize> = gr.present().into_iter().collect();
        let hiding = rng.chance(2, 3);
        let recursive = rng.chance(1, 2);
        let keep = rng.chance(1, 3);
        let asked: Set = (0..1 + rng.below(2)).map(|_| *rng.pick(&present)).collect();
        let affected: Set = match (hiding, recursive) {
            (_, false) => asked.clone(),
            (true, true) => gr.descendants(&asked).intersection(&gr.visible()).copied().collect(),
            (false, true) => gr.descendants(&asked).intersection(&gr.obsolete).copied().collect(),
        };
        // without its main branch the repository is not usable
        if hiding && !keep && affected.contains(&gr.main) {
            return;
        }
        let names: Vec<String> = asked.iter().map(|k| gr.oids[*k].clone()).collect();
        let mut args = vec!["branchless", if hiding { "hide" } else { "unhide" }];
        if recursive {
            args.push("-r");
        }
        if hiding && keep {
            args.push("--no-delete-branches");
        }
        args.extend(names.iter().map(|s| s.as_str()));
        let events = |gr: &Graph| {
            let repo = gr.g.repo();
            let rep = gr.g.replayer(&repo);
            get_event_replayer_events(&rep).clone()
        };
        let from = events(&gr).len();
        let head = gr.g.head();
        let r = gr.g.run(&args);
        c.eval(Some(hash(&gr.describe().to_string())));
        let input = json!({"graph": gr.describe(), "asked": asked});
        if !r.ok {
            return c.violation("error", format!("{args:?} failed: {}{}", r.out, r.err), input);
        }
        let mut got = vec![];
        for e in &events(&gr)[from..] {
            match e {
                Event::ObsoleteEvent { commit_oid, .. } if hiding => got.push(gr.index(&commit_oid.to_string()).unwrap()),
                Event::UnobsoleteEvent { commit_oid, .. } if !hiding => got.push(gr.index(&commit_oid.to_string()).unwrap()),
                Event::RefUpdateEvent { .. } if hiding => {}
                e => return c.violation("event", format!("{args:?} recorded {e:?}"), input),
            }
        }
        if got.len() != affected.len() || got.iter().copied().collect::<Set>() != affected {
            return c.violation("commits", format!("{args:?} concerned {got:?}, not {affected:?}"), input);
        }
        let want: std::collections::BTreeMap<String, String> = gr
            .branches
            .iter()
            .filter(|(_, k)| !(hiding && !keep && affected.contains(k)))
            .map(|(b, k)| (format!("refs/heads/{b}"), gr.oids[*k].clone()))
            .collect();
        if gr.g.refs() != want {
            return c.violation("branches", format!("{args:?} left branches {:?}, not {want:?}", gr.g.refs()), input);
        }
        if gr.g.head() != head {
            return c.violation("head", format!("{args:?} left HEAD at {:?}, not {head}", gr.g.head()), input);
        }
        if !hiding {
            for k in &affected {
                if gr.g.get(&["rev-parse", "-q", "--verify", &format!("refs/branchless/{}", gr.oids[*k])]).is_empty() {
                    return c.violation("kept", format!("{k} is visible again but not kept from collection"), input);
                }
            }
        }
    });
}

/// C10: abandoned children.
pub fn abandoned(c: &mut Ctx) {
    let scratch = c.scratch.clone();
    c.run(|c, rng, _| {
        let gr = Graph::random(&scratch, rng, &Opts { commits: 12, ..Default::default() });
        let repo = gr.g.repo();
        let dag = gr.dag(&repo);
        let rep = gr.g.replayer(&repo);
        let cur = rep.make_default_cursor();
        let visible = gr.visible();
        for k in gr.present() {
            // a later rewrite into this commit shows it again
            let last = rep.get_cursor_commit_latest_event(cur, gr.oid(k)).cloned();
            let gone = matches!(&last, Some(Event::RewriteEvent { old_commit_oid, .. }) if *old_commit_oid == gr.oid(k).into());
            let got = lib::core::rewrite::find_abandoned_children(&dag, &rep, cur, gr.oid(k)).unwrap();
            c.eval(gone.then(|| hash(&format!("{k}{}", gr.describe()))));
            let want: Option<(usize, Set)> = gone.then(|| {
                let mut to = k;
                while let Some(Some(t)) = gr.rewritten.get(&to) {
                    if !matches!(rep.get_cursor_commit_latest_event(cur, gr.oid(to)), Some(Event::RewriteEvent { old_commit_oid, .. }) if *old_commit_oid == gr.oid(to).into()) {
                        break;
                    }
                    to = *t;
                }
                (to, visible.iter().copied().filter(|x| gr.parents[*x].contains(&k) && !gr.obsolete.contains(x)).collect())
            });
            // dropped in the end: reported in place of the commit itself
            let want = want.map(|(to, s)| match gr.rewritten.get(&to) {
                Some(None) if gr.obsolete.contains(&to) => (k, s),
                _ => (to, s),
            });
            let got = got.map(|(o, v)| (gr.index(&o.to_string()).unwrap(), v.iter().map(|o| gr.index(&o.to_string()).unwrap()).collect::<Set>()));
            if got != want {
                c.violation("abandoned", format!("abandoned children of {k}: {got:?}, by definition {want:?}"), gr.describe());
            }
        }
    });
}
