//! The search for the first failing nodes, against an exhaustive reading of the results so far.
use std::collections::{HashMap, HashSet};

use scm_bisect::basic::{BasicSourceControlGraph, BasicStrategy, BasicStrategyKind};
use scm_bisect::search::{NotifyError, Search, Status};
use serde_json::json;

use crate::util::{hash, Ctx, Rng};

#[derive(Clone, Debug)]
struct Dag {
    /// ancestors of each node, itself included
    up: Vec<HashSet<usize>>,
    bad: Option<usize>,
}
#[derive(Debug)]
struct NoAnswer(usize);
impl std::fmt::Display for NoAnswer {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "no answer for {}", self.0)
    }
}
impl std::error::Error for NoAnswer {}

impl BasicSourceControlGraph for Dag {
    type Node = usize;
    type Error = NoAnswer;
    fn ancestors(&self, n: usize) -> Result<HashSet<usize>, NoAnswer> {
        if self.bad == Some(n) {
            return Err(NoAnswer(n));
        }
        Ok(self.up[n].clone())
    }
    fn descendants(&self, n: usize) -> Result<HashSet<usize>, NoAnswer> {
        if self.bad == Some(n) {
            return Err(NoAnswer(n));
        }
        Ok((0..self.up.len()).filter(|x| self.up[*x].contains(&n)).collect())
    }
}

fn graph(r: &mut Rng) -> (Dag, Vec<Vec<usize>>) {
    let n = 1 + r.below(9);
    let mut parents: Vec<Vec<usize>> = vec![];
    let mut up: Vec<HashSet<usize>> = vec![];
    for i in 0..n {
        let mut p = vec![];
        if i > 0 {
            let k = if r.chance(1, 8) { 0 } else if r.chance(1, 4) { 2 } else { 1 };
            for _ in 0..k {
                let x = if r.chance(1, 2) { i - 1 } else { r.below(i) };
                if !p.contains(&x) {
                    p.push(x);
                }
            }
        }
        let mut a: HashSet<usize> = [i].into();
        for x in &p {
            a.extend(up[*x].iter().copied());
        }
        up.push(a);
        parents.push(p);
    }
    (Dag { up, bad: None }, parents)
}

fn sorted(s: impl IntoIterator<Item = usize>) -> Vec<usize> {
    let mut v: Vec<usize> = s.into_iter().collect();
    v.sort();
    v
}

pub fn bisect(c: &mut Ctx) {
    c.run(|c, r, _| {
        let (mut g, parents) = graph(r);
        let n = g.up.len();
        // the nodes searched: a random selection in a random order, or all of them in order
        let mut nodes: Vec<usize> = (0..n).filter(|_| r.chance(5, 6)).collect();
        if r.chance(1, 3) {
            for i in (1..nodes.len()).rev() {
                let j = r.below(i + 1);
                nodes.swap(i, j);
            }
        }
        // the truth: failing from some nodes on; some nodes cannot be tested
        let first: Vec<usize> = (0..n).filter(|_| r.chance(1, 4)).collect();
        let fails = |x: usize| first.iter().any(|f| g.up[x].contains(f));
        let truth: Vec<bool> = (0..n).map(fails).collect();
        let skip: Vec<bool> = (0..n).map(|_| r.chance(1, 6)).collect();
        let unruly = r.chance(1, 4);
        if r.chance(1, 25) {
            g.bad = Some(r.below(n));
        }
        let mut s = Search::new(g.clone(), nodes.clone());
        let mut known: HashMap<usize, Status> = nodes.iter().map(|x| (*x, Status::Untested)).collect();
        // nodes outside of the search for which a result was given, in that order
        let mut extra: Vec<usize> = vec![];
        let mut steps: Vec<String> = vec![];
        let anc = |a: usize, b: usize| g.up[b].contains(&a);
        for _ in 0..(2 * n + 3) {
            let input = |steps: &Vec<String>, kind: &str| json!({"parents": parents, "searched": nodes, "results": steps, "strategy": kind, "unanswerable": g.bad});
            let with = |known: &HashMap<usize, Status>, k: Status| sorted(known.iter().filter(|(_, s)| **s == k).map(|(x, _)| *x));
            let ok = with(&known, Status::Success);
            let no = with(&known, Status::Failure);
            let heads: Vec<usize> = ok.iter().copied().filter(|x| !ok.iter().any(|y| y != x && anc(*x, *y))).collect();
            let roots: Vec<usize> = no.iter().copied().filter(|x| !no.iter().any(|y| y != x && anc(*y, *x))).collect();
            let order: Vec<usize> = nodes.iter().chain(extra.iter()).copied().collect();
            let open: Vec<usize> = order
                .iter()
                .copied()
                .filter(|x| known[x] == Status::Untested && !ok.iter().any(|y| anc(*x, *y)) && !no.iter().any(|y| anc(*y, *x)))
                .collect();
            let mut pick = None;
            for (kind, name) in [(BasicStrategyKind::Linear, "linear"), (BasicStrategyKind::LinearReverse, "reverse"), (BasicStrategyKind::Binary, "binary")] {
                let strategy = BasicStrategy::new(kind);
                let sol = match s.search(&strategy) {
                    Ok(x) => x,
                    Err(e) => {
                        if g.bad.is_none() {
                            c.violation("search-error", format!("searching failed: {e}"), input(&steps, name));
                        }
                        return;
                    }
                };
                c.eval((!ok.is_empty() || !no.is_empty()).then(|| hash(&format!("{parents:?} {nodes:?} {steps:?} {name}"))));
                if c.samples.len() < 3 && !no.is_empty() {
                    c.samples.push(json!({"parents": parents, "searched": nodes, "results": steps, "first_failing": roots, "last_passing": heads, "open": open}));
                }
                let (su, fa) = (sorted(sol.bounds.success.iter().copied()), sorted(sol.bounds.failure.iter().copied()));
                if su != heads {
                    c.violation("success-bounds", format!("last passing nodes {su:?}, should be {heads:?}"), input(&steps, name));
                }
                if fa != roots {
                    c.violation("failure-bounds", format!("first failing nodes {fa:?}, should be {roots:?}"), input(&steps, name));
                }
                let mut next = vec![];
                for x in sol.next_to_search {
                    match x {
                        Ok(x) => next.push(x),
                        Err(e) => {
                            if g.bad.is_none() {
                                c.violation("suggest-error", format!("suggesting a node failed: {e}"), input(&steps, name));
                            }
                            return;
                        }
                    }
                }
                let mut left = open.clone();
                left.sort();
                if sorted(next.clone()) != left {
                    c.violation("suggestions", format!("suggested {next:?}, still open {open:?}"), input(&steps, name));
                }
                if let (Some(a), Some(b)) = (next.first(), open.first()) {
                    let m = open.len();
                    let fine = match kind {
                        BasicStrategyKind::Linear => a == b,
                        BasicStrategyKind::LinearReverse => a == open.last().unwrap(),
                        BasicStrategyKind::Binary => *a == open[m / 2] || *a == open[(m - 1) / 2],
                    };
                    if !fine {
                        c.violation("order", format!("suggested {a} first of {open:?}"), input(&steps, name));
                    }
                    if r.chance(1, 2) || pick.is_none() {
                        pick = Some(*r.pick(&next[..next.len().min(2)]));
                    }
                }
            }
            // the next result: of a suggested node, or of any other
            let (x, st) = if unruly && r.chance(1, 2) {
                (r.below(n), *r.pick(&[Status::Success, Status::Failure, Status::Indeterminate, Status::Untested]))
            } else {
                match pick {
                    None => {
                        // done: every searched node is settled, and settled the right way
                        for y in &nodes {
                            let su = ok.iter().any(|z| anc(*y, *z));
                            let fa = no.iter().any(|z| anc(*z, *y));
                            if known[y] == Status::Untested && !su && !fa {
                                c.violation("unsettled", format!("the search ended although {y} is open"), input(&steps, ""));
                            }
                            if !unruly && ((su && truth[*y]) || (fa && !truth[*y])) {
                                c.violation("wrong-verdict", format!("{y} counts as passing {su} / failing {fa}, but failing is {}", truth[*y]), input(&steps, ""));
                            }
                        }
                        return;
                    }
                    Some(x) => (x, if skip[x] { Status::Indeterminate } else if truth[x] { Status::Failure } else { Status::Success }),
                }
            };
            let prev = known.get(&x).copied();
            let illegal = matches!(prev, Some(Status::Success | Status::Failure)) && prev != Some(st);
            let clash = match st {
                Status::Success => no.iter().any(|y| anc(*y, x)),
                Status::Failure => ok.iter().any(|y| anc(x, *y)),
                _ => false,
            };
            steps.push(format!("{x} {st:?}"));
            c.eval(Some(hash(&format!("{parents:?} {nodes:?} {steps:?}"))));
            let verdict = s.notify(x, st);
            let want = if illegal { "illegal" } else if clash { "inconsistent" } else { "accepted" };
            let got = match &verdict {
                Ok(()) => "accepted",
                Err(NotifyError::IllegalStateTransition { .. }) => "illegal",
                Err(NotifyError::InconsistentStateTransition { .. }) => "inconsistent",
                Err(NotifyError::Graph(_)) if g.bad.is_some() => return,
                Err(NotifyError::Graph(_)) => "failed",
            };
            if want != got {
                c.violation("verdict", format!("the result {x} {st:?} was {got}, should be {want}"), input(&steps, ""));
                return;
            }
            if verdict.is_ok() {
                if known.insert(x, st).is_none() {
                    extra.push(x);
                }
            } else {
                steps.push("(refused)".into());
            }
        }
    });
}
