//! Random commit graphs with a recorded past, and what follows from them by definition.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::SystemTime;

use lib::core::dag::Dag;
use lib::core::eventlog::{Event, EventLogDb};
use lib::core::repo_ext::RepoExt;
use lib::git::{NonZeroOid, Repo};
use serde_json::{json, Value};

use crate::git::{quiet, Git};
use crate::util::Rng;

pub type Set = BTreeSet<usize>;
/// A file: mode and content. `None`: deleted.
pub type Change = BTreeMap<String, Option<(String, String)>>;
pub type Files = BTreeMap<String, (String, String)>;

pub struct Graph {
    pub g: Git,
    pub oids: Vec<String>,
    pub parents: Vec<Vec<usize>>,
    pub main: usize,
    pub branches: BTreeMap<String, usize>,
    pub head: usize,
    pub head_branch: Option<String>,
    pub observed: Set,
    pub obsolete: Set,
    /// rewritten commits and what they became (`None`: dropped)
    pub rewritten: BTreeMap<usize, Option<usize>>,
    /// what each commit changes, as compared with its parents
    pub own: Vec<Change>,
    /// commits that change the same as others do
    pub same: BTreeMap<usize, Set>,
}

#[derive(Clone)]
pub struct Opts {
    pub commits: usize,
    pub merges: bool,
    pub rewrites: bool,
    pub checkout: bool,
    /// files that several commits change
    pub conflicts: bool,
    /// changes, removals and changes of mode and kind, besides new files
    pub edits: bool,
    /// commits that make the same change as another one
    pub same: bool,
    /// merges of three, messages that end in blanks
    pub odd: bool,
}
/// The message of a commit.
pub fn message(k: usize, odd: bool) -> String {
    let end = match k % 4 {
        1 if odd => "\n\n",
        2 if odd => " \n",
        3 if odd => "",
        _ => "\n",
    };
    format!("commit {k}\n\nwhat {k} does{end}")
}
impl Default for Opts {
    fn default() -> Self {
        Opts { commits: 10, merges: true, rewrites: true, checkout: false, conflicts: false, edits: false, same: false, odd: false }
    }
}

fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_dir(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

/// A repository set up for branchless use, with one commit (from a template made once per worker).
pub fn fresh_repo(scratch: &Path) -> Git {
    let tmpl = scratch.join("template");
    if !tmpl.join("done").exists() {
        let _ = std::fs::remove_dir_all(&tmpl);
        let g = Git::branchless(scratch, "template");
        std::fs::write(g.dir.join("done"), "").unwrap();
    }
    let g = Git::fresh(scratch, "r");
    copy_dir(&tmpl, &g.dir);
    std::fs::remove_file(g.dir.join("done")).unwrap();
    g
}

/// The files of a commit, from what it and all its ancestors change (conflict-free unless they share a file).
pub fn files(anc: &Set, own: &[Change]) -> Files {
    let mut r = Files::new();
    for k in anc {
        for (p, x) in &own[*k] {
            match x {
                Some(x) => r.insert(p.clone(), x.clone()),
                None => r.remove(p),
            };
        }
    }
    r
}

impl Graph {
    pub fn random(scratch: &Path, rng: &mut Rng, o: &Opts) -> Graph {
        let mut g = fresh_repo(scratch);
        let n = 2 + rng.below(o.commits - 1);
        let on_main = 1 + rng.below(n.min(4));
        let mut parents: Vec<Vec<usize>> = vec![];
        let mut own: Vec<Change> = vec![];
        let mut trees: Vec<Files> = vec![];
        let mut ancs: Vec<Set> = vec![];
        let mut imp = String::new();
        let mut same: BTreeMap<usize, Set> = BTreeMap::new();
        for k in 0..n {
            let mut ps = vec![];
            if k > 0 {
                let p = if k < on_main || rng.chance(1, 2) { k - 1 } else { rng.below(k) };
                if k < on_main || !rng.chance(1, 25) {
                    ps.push(p);
                }
                if o.merges && k > 1 && k >= on_main && !ps.is_empty() && rng.chance(1, 7) {
                    let q = rng.below(k);
                    if q != p {
                        ps.push(q);
                    }
                    let q = rng.below(k);
                    if o.odd && !ps.contains(&q) && rng.chance(1, 2) {
                        ps.push(q);
                    }
                }
            }
            let mut ch = Change::new();
            if ps.is_empty() {
                for j in 0..n {
                    ch.insert(format!("r/{j}"), Some(("100644".into(), format!("base {j}\n1\n2\n3\n"))));
                    if o.edits {
                        ch.insert(format!("q/{j}/x"), Some(("100644".into(), format!("dir {j}\n"))));
                    }
                }
            }
            if ps.len() < 2 {
                let add = |p: String, t: String| (p, Some(("100644".to_string(), t)));
                let x = if o.edits { rng.below(8) } else { 0 };
                let e = match x {
                    _ if o.conflicts && rng.chance(1, 3) => add("shared.txt".into(), format!("{k}\n")),
                    1 => (format!("r/{k}"), None),
                    2 => add(format!("r/{k}"), format!("changed {k}\n1\n2\n3\n")),
                    3 => (format!("r/{k}"), Some(("100755".to_string(), format!("base {k}\n1\n2\n3\n")))),
                    4 => add(format!("d{k}/e/x"), format!("{k}\n")),
                    5 => {
                        ch.insert(format!("r/{k}"), None);
                        add(format!("r/{k}/x"), format!("{k}\n"))
                    }
                    7 => {
                        ch.insert(format!("q/{k}/x"), None);
                        add(format!("q/{k}"), format!("{k}\n"))
                    }
                    6 => (format!("l{k}"), Some(("120000".to_string(), format!("to {k}")))),
                    _ => add(format!("f{k}.txt"), format!("{k}\n")),
                };
                if !ps.is_empty() || x == 0 {
                    ch.insert(e.0, e.1);
                }
                if o.same && k > 1 && !ps.is_empty() && rng.chance(1, 3) {
                    let base = &trees[ps[0]];
                    let ok = |j: &usize| parents[*j].len() == 1 && !same.contains_key(j) && own[*j].iter().any(|(p, x)| base.get(p) != x.as_ref());
                    // of one other commit, or of two together
                    for _ in 0..6 {
                        let from: Set = (0..1 + rng.below(2)).map(|_| if rng.chance(1, 2) { rng.below(k.min(on_main)) } else { rng.below(k) }).collect();
                        if from.iter().all(ok) {
                            ch = from.iter().flat_map(|j| own[*j].clone()).collect();
                            same.insert(k, from);
                            break;
                        }
                    }
                }
            }
            let mut anc: Set = ps.iter().flat_map(|p| ancs[*p].iter().copied()).collect();
            anc.insert(k);
            own.push(ch);
            let tree = files(&anc, &own);
            let msg = message(k, o.odd);
            imp += &format!("commit refs/vh/c{k}\nmark :{}\nauthor Author{a} <author{a}@example.com> {t} +0{a}00\ncommitter C O Mitter <c@example.com> {t} +0000\ndata {}\n{msg}\n", k + 1, msg.len(), t = 1_600_000_000 + 60 * k, a = k % 3);
            if let Some(p) = ps.first() {
                imp += &format!("from :{}\n", p + 1);
            }
            for p in ps.iter().skip(1) {
                imp += &format!("merge :{}\n", p + 1);
            }
            let none = Files::new();
            let before = ps.first().map(|p| &trees[*p]).unwrap_or(&none);
            for f in before.keys().filter(|f| !tree.contains_key(*f)) {
                imp += &format!("D {f}\n");
            }
            for (f, (mode, text)) in tree.iter().filter(|(f, x)| before.get(*f) != Some(x)) {
                imp += &format!("M {mode} inline {f}\ndata {}\n{text}\n", text.len());
            }
            imp += "\n";
            parents.push(ps);
            trees.push(tree);
            ancs.push(anc);
        }
        imp += "done\n";
        let marks = g.dir.join(".git/marks");
        let nohooks = "core.hooksPath=/dev/null";
        let r = g.run_env(&["-c", nohooks, "fast-import", "--quiet", "--done", &format!("--export-marks={}", marks.display())], &[], Some(imp.as_bytes()));
        assert!(r.ok, "fast-import: {}", r.err);
        let mut oids = vec![String::new(); n];
        for l in std::fs::read_to_string(&marks).unwrap().lines() {
            let (m, o) = l.split_once(' ').unwrap();
            oids[m[1..].parse::<usize>().unwrap() - 1] = o.to_string();
        }
        std::fs::remove_dir_all(g.dir.join(".git/refs/vh")).unwrap();
        // references
        let main = on_main - 1;
        let mut branches: BTreeMap<String, usize> = [("main".to_string(), main)].into_iter().collect();
        for b in ["b1", "b2", "topic/x"] {
            if rng.chance(1, 3) {
                branches.insert(b.into(), rng.below(n));
            }
        }
        for (b, c) in &branches {
            let p = g.dir.join(".git/refs/heads").join(b);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, format!("{}\n", oids[*c])).unwrap();
        }
        let (head, head_branch) = if !same.is_empty() && rng.chance(1, 3) {
            let ks: Vec<usize> = same.keys().copied().collect();
            let k = *rng.pick(&ks);
            (k, branches.iter().find(|x| *x.1 == k).map(|x| x.0.clone()))
        } else if rng.chance(1, 3) {
            let names: Vec<&String> = branches.keys().collect();
            let b = rng.pick(&names).to_string();
            (branches[&b], Some(b))
        } else {
            (rng.below(n), None)
        };
        match &head_branch {
            Some(b) => std::fs::write(g.dir.join(".git/HEAD"), format!("ref: refs/heads/{b}\n")).unwrap(),
            None => std::fs::write(g.dir.join(".git/HEAD"), format!("{}\n", oids[head])).unwrap(),
        }
        if o.checkout {
            let r = g.run(&["-c", nohooks, "reset", "-q", "--hard"]);
            assert!(r.ok, "reset: {}", r.err);
        }
        // what was recorded
        let mut observed: Set = (0..n).filter(|k| *k > main || rng.chance(1, 4)).collect();
        if rng.chance(1, 3) && n > 3 {
            observed.remove(&rng.below(n));
        }
        let mut obsolete = Set::new();
        let mut rewritten = BTreeMap::new();
        let mut es = vec![];
        let repo = g.repo();
        let conn = repo.get_db_conn().unwrap();
        let db = EventLogDb::new(&conn).unwrap();
        let tx = db.make_transaction_id(SystemTime::now(), "graph").unwrap();
        let oid = |k: usize| -> NonZeroOid { oids[k].parse().unwrap() };
        for k in &observed {
            es.push(Event::CommitEvent { timestamp: 0.0, event_tx_id: tx, commit_oid: oid(*k) });
        }
        let order: Vec<usize> = observed.iter().copied().filter(|k| *k > main).collect();
        for k in order {
            if rng.chance(1, 4) {
                obsolete.insert(k);
                if o.rewrites && rng.chance(1, 2) {
                    // as a later commit: no cycles
                    let to = (k + 1 < n && rng.chance(4, 5)).then(|| k + 1 + rng.below(n - k - 1));
                    rewritten.insert(k, to);
                    es.push(Event::RewriteEvent {
                        timestamp: 0.0,
                        event_tx_id: tx,
                        old_commit_oid: oid(k).into(),
                        new_commit_oid: match to {
                            Some(t) => oid(t).into(),
                            None => lib::git::MaybeZeroOid::Zero,
                        },
                    });
                    if let Some(t) = to {
                        observed.insert(t);
                    }
                } else {
                    es.push(Event::ObsoleteEvent { timestamp: 0.0, event_tx_id: tx, commit_oid: oid(k) });
                }
            }
        }
        db.add_events(es).unwrap();
        // a commit rewritten into an already hidden one makes that one visible again; later hides come after
        g.log.clear();
        let mut gr = Graph { g, oids, parents, main, branches, head, head_branch, observed, obsolete, rewritten, own, same };
        gr.settle();
        gr
    }

    /// Visibility as the last event says.
    fn settle(&mut self) {
        // replay: commits in order, then hides/rewrites in increasing order of the hidden commit
        let mut obs = Set::new();
        for k in 0..self.oids.len() {
            if self.obsolete.contains(&k) {
                obs.insert(k);
                if let Some(Some(t)) = self.rewritten.get(&k) {
                    obs.remove(t);
                }
            }
        }
        self.obsolete = obs;
    }

    pub fn n(&self) -> usize {
        self.oids.len()
    }
    pub fn oid(&self, k: usize) -> NonZeroOid {
        self.oids[k].parse().unwrap()
    }
    pub fn index(&self, o: &str) -> Option<usize> {
        self.oids.iter().position(|x| x == o)
    }
    pub fn ancestors(&self, s: &Set) -> Set {
        let mut r = s.clone();
        for k in (0..self.n()).rev() {
            if r.contains(&k) {
                r.extend(self.parents[k].iter().copied());
            }
        }
        r
    }
    pub fn descendants(&self, s: &Set) -> Set {
        let mut r = s.clone();
        for k in 0..self.n() {
            if self.parents[k].iter().any(|p| r.contains(p)) && self.present().contains(&k) {
                r.insert(k);
            }
        }
        r
    }
    /// The commits the graph is told about: observed ones, references, and their ancestors.
    pub fn present(&self) -> Set {
        let mut s = self.observed.clone();
        s.insert(self.head);
        s.extend(self.branches.values().copied());
        self.ancestors(&s)
    }
    pub fn heads(&self, s: &Set) -> Set {
        s.iter().copied().filter(|k| !s.iter().any(|j| self.parents[*j].contains(k))).collect()
    }
    pub fn roots(&self, s: &Set) -> Set {
        s.iter().copied().filter(|k| !self.parents[*k].iter().any(|p| s.contains(p))).collect()
    }
    pub fn public(&self) -> Set {
        self.ancestors(&[self.main].into())
    }
    /// Anything not hidden, everything references point to, and their ancestors.
    pub fn visible(&self) -> Set {
        let mut s: Set = self.observed.difference(&self.obsolete).copied().collect();
        s.insert(self.head);
        s.extend(self.branches.values().copied());
        self.ancestors(&s)
    }
    pub fn draft(&self) -> Set {
        self.visible().difference(&self.public()).copied().collect()
    }
    pub fn dag(&self, repo: &Repo) -> Dag {
        let rep = self.g.replayer(repo);
        let refs = repo.get_references_snapshot().unwrap();
        Dag::open_and_sync(&quiet(), repo, &rep, rep.make_default_cursor(), &refs).unwrap()
    }
    pub fn describe(&self) -> Value {
        json!({"parents": self.parents, "main": self.main, "branches": self.branches, "head": self.head, "head_branch": self.head_branch,
            "observed": self.observed, "obsolete": self.obsolete, "rewritten": self.rewritten, "changes": self.own.iter().map(|c| c.iter().filter(|(p, _)| c.len() < 5 || !(p.starts_with("r/") || p.starts_with("q/"))).collect::<BTreeMap<_, _>>()).collect::<Vec<_>>(), "commands": self.g.log})
    }
}
