//! C16: running commands on commits.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::json;

use crate::git::Out;
use crate::graph::{files, Files, Graph, Opts, Set};
use crate::rewrite::{check, state, tree, unchanged, Ask, State, Want};
use crate::util::{hash, Ctx, Rng};

/// The command under test: notes down where it runs, does what it is told to
/// do for this tree, and ends as it is told to.
const SCRIPT: &str = r#"#!/bin/sh
here=$(dirname "$0")
what=$(echo "$*" | tr ' /' '_-')
tree=$(git rev-parse 'HEAD^{tree}')
clean=clean
git diff --quiet HEAD -- || clean=dirty
echo "$what $BRANCHLESS_TEST_COMMIT $(git rev-parse HEAD) $clean" >> "$here/log"
case "$what" in fix*)
  for f in f*.txt; do if [ -f "$f" ]; then echo fixed >> "$f"; fi; done
  if [ -f q/0/x ]; then chmod +x q/0/x; fi
  for f in l[0-9]*; do
    if [ -L "$f" ]; then
      rm "$f"
      case "$f" in *[02468]) echo "no link" > "$f";; esac
    fi
  done
  ;;
esac
echo "out $tree"
exit "$(cat "$here/verdicts/$what/$tree")"
"#;

/// What the command does to the files when it is told to fix them.
fn fixed(f: &Files) -> Files {
    let mut r = Files::new();
    for (p, (mode, text)) in f {
        let (mut mode, mut text) = (mode.clone(), text.clone());
        if p.starts_with('l') && mode == "120000" {
            if !p.ends_with(['0', '2', '4', '6', '8']) {
                continue;
            }
            (mode, text) = ("100644".into(), "no link\n".into());
        }
        if p.starts_with('f') && p.ends_with(".txt") {
            text += "fixed\n";
        }
        if p == "q/0/x" {
            mode = "100755".into();
        }
        r.insert(p.clone(), (mode, text));
    }
    r
}

struct Setup {
    gr: Graph,
    dir: std::path::PathBuf,
    trees: Vec<String>,
}

impl Setup {
    fn new(c: &Ctx, rng: &mut Rng, o: &Opts) -> Setup {
        let gr = Graph::random(&c.scratch.clone(), rng, o);
        let dir = gr.g.dir.parent().unwrap().join("t");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("verdicts")).unwrap();
        std::fs::write(dir.join("run"), SCRIPT).unwrap();
        let trees = gr.oids.iter().map(|o| gr.g.get(&["rev-parse", &format!("{o}^{{tree}}")])).collect();
        Setup { gr, dir, trees }
    }
    /// How the command with these arguments is to end, by tree.
    fn tell(&self, args: &str, codes: &BTreeMap<String, i32>) {
        let d = self.dir.join("verdicts").join(args.replace(' ', "_").replace('/', "-"));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        for (t, c) in codes {
            std::fs::write(d.join(t), format!("{c}\n")).unwrap();
        }
    }
    fn command(&self, args: &str) -> String {
        format!("sh {}/run {args}", self.dir.display())
    }
    /// The runs noted down: (arguments, commit told, commit checked out, clean).
    fn log(&self) -> Vec<(String, String, String, bool)> {
        let t = std::fs::read_to_string(self.dir.join("log")).unwrap_or_default();
        let _ = std::fs::remove_file(self.dir.join("log"));
        t.lines()
            .map(|l| {
                let w: Vec<&str> = l.split(' ').collect();
                (w[0].into(), w[1].into(), w[2].into(), w[3] == "clean")
            })
            .collect()
    }
    /// Create the worktrees that several jobs would otherwise create at the same time.
    fn warm(&mut self, rng: &mut Rng, jobs: usize) -> bool {
        let raced = jobs > 1 && rng.chance(1, 40);
        for k in 1..=jobs {
            let d = self.gr.g.dir.join(format!(".git/branchless/test/worktrees/testing-worktree-{k}"));
            if jobs > 1 && !raced && !d.exists() {
                self.gr.g.must(&["-c", "core.hooksPath=/dev/null", "worktree", "add", "-q", d.to_str().unwrap(), "--force", "--detach"]);
            }
        }
        raced
    }
    /// The verdicts printed, by commit.
    fn said(&self, r: &Out) -> Result<BTreeMap<usize, (String, bool)>, String> {
        let mut m = BTreeMap::new();
        for l in r.out.lines() {
            let Some((what, rest)) = l.split_once(": ") else { continue };
            let Some((oid, msg)) = rest.split_once(' ') else { continue };
            let what: String = what.chars().skip(2).collect();
            let (kind, cached) = if what.starts_with("Passed") {
                ("0".to_string(), what.contains("cached"))
            } else if let Some(i) = what.find("exit code ").filter(|_| what.starts_with("Failed (") || what.starts_with("Exit code indicated")) {
                (what[i + 10..].trim_end_matches(')').to_string(), what.contains("cached"))
            } else if what.contains("ailed to") || what.contains("Could not") || what.contains("already in progress") || what.contains("terminated") {
                (what, false)
            } else {
                continue;
            };
            if what_prefix(l) {
                let Some(k) = self.gr.oids.iter().position(|o| o.starts_with(oid)) else { return Err(format!("a verdict about {oid}")) };
                if msg != format!("commit {k}") {
                    return Err(format!("{oid} described as {msg}"));
                }
                if m.insert(k, (kind, cached)).is_some() {
                    return Err(format!("two verdicts about {k}"));
                }
            }
        }
        Ok(m)
    }
}
fn what_prefix(l: &str) -> bool {
    !l.starts_with("hint") && !l.starts_with("Aborted")
}

/// The commits listed below a heading.
fn listed(gr: &Graph, r: &Out, heading: &str) -> Set {
    let mut s = Set::new();
    let mut on = false;
    for l in r.out.lines() {
        if l.starts_with(heading) {
            on = true;
        } else if on {
            match l.split(' ').nth(1).and_then(|o| gr.oids.iter().position(|x| x.starts_with(o) && o.len() >= 7)) {
                Some(k) => {
                    s.insert(k);
                }
                None => break,
            }
        }
    }
    s
}

fn maximal(gr: &Graph, s: &Set) -> Set {
    s.iter().copied().filter(|k| !s.iter().any(|j| j != k && gr.ancestors(&[*j].into()).contains(k))).collect()
}
fn minimal(gr: &Graph, s: &Set) -> Set {
    s.iter().copied().filter(|k| !s.iter().any(|j| j != k && gr.ancestors(&[*k].into()).contains(j))).collect()
}

fn work(gr: &Graph) -> BTreeMap<String, String> {
    crate::rewrite::working_copy(gr)
}

fn same(gr: &Graph, b: &State, w: &BTreeMap<String, String>, index: &str) -> Result<(), (&'static str, String)> {
    unchanged(gr, b).map_err(|e| ("changed", e))?;
    if work(gr) != *w {
        let a = work(gr);
        let diff: Vec<&String> = a.keys().chain(w.keys()).filter(|k| a.get(*k) != w.get(*k)).collect();
        return Err(("files", format!("the files {diff:?} of the working copy changed")));
    }
    if gr.g.get(&["ls-files", "-s"]) != index {
        return Err(("index", "the index changed".into()));
    }
    if gr.g.dir.join(".git/rebase-merge").exists() || gr.g.dir.join(".git/rebase-apply").exists() {
        return Err(("rebase", "a rebase is left under way".into()));
    }
    Ok(())
}

fn pick_some(rng: &mut Rng, from: &Set, k: usize) -> Set {
    let all: Vec<usize> = from.iter().copied().collect();
    if rng.chance(1, 3) {
        return from.clone();
    }
    (0..1 + rng.below(k)).map(|_| *rng.pick(&all)).collect()
}

fn revset(gr: &Graph, s: &Set) -> String {
    s.iter().map(|k| gr.oids[*k].clone()).collect::<Vec<_>>().join(" | ")
}

fn runs(c: &mut Ctx, rng: &mut Rng) {
    let mut s = {
        let o = Opts { commits: 8, merges: rng.chance(1, 3), checkout: true, edits: true, same: rng.chance(1, 4), ..Default::default() };
        Setup::new(c, rng, &o)
    };
    c.eval(Some(hash(&s.gr.describe().to_string())));
    let visible = s.gr.visible();
    // changes of the user's in the working copy
    let dirty = rng.below(8);
    let name = s.gr.g.get(&["ls-files"]).lines().next().unwrap().to_string();
    if dirty < 2 {
        std::fs::remove_file(s.gr.g.dir.join(&name)).unwrap();
    }
    match dirty {
        0 => s.gr.g.write(&name, "unstaged\n"),
        1 => {
            s.gr.g.write(&name, "staged\n");
            s.gr.g.must(&["add", &name]);
        }
        2 => {
            s.gr.g.write("brand new", "staged\n");
            s.gr.g.must(&["add", "brand new"]);
        }
        3 => s.gr.g.write("untracked", "u\n"),
        _ => {}
    }
    let commands = [*rng.pick(&["x y", "x/y"]), "x", "exact", "x.y"];
    let mut stored: BTreeMap<(&str, String), i32> = BTreeMap::new();
    let mut codes: BTreeMap<&str, BTreeMap<String, i32>> = BTreeMap::new();
    for a in commands {
        let m: BTreeMap<String, i32> = s.trees.iter().map(|t| (t.clone(), if rng.chance(1, 20) { 127 } else { *rng.pick(&[0, 0, 0, 1, 2, 77, 125]) })).collect();
        let m: BTreeMap<String, i32> = if rng.chance(1, 4) { m.into_keys().map(|t| (t, 0)).collect() } else { m };
        s.tell(a, &m);
        codes.insert(a, m);
    }
    let before = state(&s.gr);
    let w = work(&s.gr);
    let index = s.gr.g.get(&["ls-files", "-s"]);
    let mut cached: BTreeSet<(&str, String)> = BTreeSet::new();
    for _ in 0..2 + rng.below(2) {
        let args = *rng.pick(&commands);
        let picked = pick_some(rng, &visible, 4);
        let jobs = if rng.chance(1, 3) { 2 + rng.below(2) } else { 1 };
        let worktree = jobs > 1 || rng.chance(1, 2);
        let cache = !rng.chance(1, 5);
        let set = revset(&s.gr, &picked);
        let distinct: BTreeSet<&String> = picked.iter().map(|k| &s.trees[*k]).collect();
        if jobs > 1 && distinct.len() < picked.len() {
            continue;
        }
        let command = s.command(args);
        let raced = s.warm(rng, jobs);
        let jobs = jobs.to_string();
        let mut a = vec!["branchless", "test", "run", "-x", &command, "--jobs", &jobs, "-s", if worktree { "worktree" } else { "working-copy" }];
        if !cache {
            a.push("--no-cache");
        }
        a.push(&set);
        let r = s.gr.g.run(&a);
        let said = format!("{}{}", r.out, r.err);
        let input = json!({"graph": s.gr.describe(), "command": args, "picked": picked, "dirty": dirty, "worktree": worktree, "jobs": jobs, "cache": cache});
        c.stat(if worktree { "worktree" } else { "working copy" });
        let log = s.log();
        if raced && said.contains("Failed to check out: ") {
            return c.violation("worktrees", format!("the worktrees were not created: {said}"), input);
        }
        if let Err((key, e)) = same(&s.gr, &before, &w, &index) {
            return c.violation(key, format!("{e}: {said}"), input);
        }
        if !worktree && dirty < 3 {
            // local changes are in the way
            c.stat("in the way");
            if r.ok {
                return c.violation("in the way", format!("ran on a changed working copy: {said}"), input);
            }
            continue;
        }
        let code = |k: usize| codes[args][&s.trees[k]];
        let aborts = picked.iter().any(|k| code(*k) == 127);
        let mut ran: BTreeMap<usize, usize> = BTreeMap::new();
        for (what, told, head, clean) in &log {
            let Some(k) = s.gr.index(told) else { return c.violation("told", format!("the command was told it is about {told}: {said}"), input) };
            if *what != args.replace(' ', "_").replace('/', "-") {
                return c.violation("command", format!("another command ran: {what}: {said}"), input);
            }
            if told != head || !clean {
                return c.violation("checkout", format!("the command for {told} ran at {head}, {clean}: {said}"), input);
            }
            if !picked.contains(&k) {
                return c.violation("extra", format!("the command ran for {k}, not asked for: {said}"), input);
            }
            *ran.entry(k).or_default() += 1;
        }
        let verdicts = match s.said(&r) {
            Ok(v) => v,
            Err(e) => return c.violation("report", format!("{e}: {said}"), input),
        };
        // each one once, unless its result is known
        for k in &picked {
            let n = ran.get(k).copied().unwrap_or(0);
            let twin = picked.iter().any(|j| j != k && s.trees[*j] == s.trees[*k]);
            let known = cache && (cached.contains(&(args, s.trees[*k].clone())) || twin);
            if n > 1 || known && !twin && n > 0 || n == 0 && !known && !aborts {
                return c.violation("times", format!("the command ran {n} times for {k}, result known: {known}: {said}"), input);
            }
            match verdicts.get(k) {
                Some((v, _)) if *v != code(*k).to_string() => return c.violation("verdict", format!("verdict {v} about {k}, where the command ended with {}: {said}", code(*k)), input),
                Some((_, true)) if n > 0 => return c.violation("cached", format!("{k} was run, yet its result is called cached: {said}"), input),
                None if !aborts => return c.violation("verdict", format!("no verdict about {k}: {said}"), input),
                _ => {}
            }
        }
        if let Some(k) = verdicts.keys().find(|k| !picked.contains(k)) {
            return c.violation("extra", format!("a verdict about {k}, not asked for: {said}"), input);
        }
        let bad = picked.iter().filter(|k| code(**k) != 0).count();
        if r.ok != (bad == 0) {
            return c.violation("exit", format!("exit code {}, with {bad} not passing: {said}", r.code), input);
        }
        if !aborts {
            let n = |f: &dyn Fn(i32) -> bool| picked.iter().filter(|k| f(code(**k))).count();
            let line = format!("{} passed, {} failed, {} skipped", n(&|x| x == 0), n(&|x| x != 0 && x != 125), n(&|x| x == 125));
            if !r.out.contains(&line) {
                return c.violation("summary", format!("not {line}: {said}"), input);
            }
        }
        if aborts {
            c.stat("abort");
            return;
        }
        if cache {
            cached.extend(picked.iter().map(|k| (args, s.trees[*k].clone())));
            stored.extend(picked.iter().map(|k| ((args, s.trees[*k].clone()), code(*k))));
        }
        // asking for the results of a command that was never run changes nothing
        if rng.chance(1, 3) {
            let r = s.gr.g.run(&["branchless", "test", "show", "-x", "never run", &set]);
            if !r.ok || r.out.lines().filter(|l| l.starts_with("No cached test data for ")).count() != picked.len() {
                return c.violation("show", format!("{}{}", r.out, r.err), input);
            }
            c.stat("show");
        }
        // the stored results can be asked for
        if cache && rng.chance(1, 2) {
            let f = *rng.pick(&["passed", "failed", "fixable"]);
            let counts = |x: i32| match f {
                "passed" => x == 0,
                "failed" => x != 0 && x != 125,
                _ => false,
            };
            let q = if rng.chance(1, 2) { format!("tests.{f}()") } else { format!("tests.{f}(\"exact:{command}\")") };
            let r = s.gr.g.run(&["branchless", "query", "-r", &q]);
            let got: Set = r.out.lines().filter_map(|l| s.gr.index(l)).collect();
            let want: Set = visible.iter().copied().filter(|k| stored.get(&(args, s.trees[*k].clone())).map_or(false, |x| counts(*x))).collect();
            if !r.ok || got != want {
                return c.violation("results", format!("{q} is {got:?}, should be {want:?}: {}{}", r.out, r.err), input);
            }
            c.stat("results");
        }
        // forgotten results are not used again
        if rng.chance(1, 4) {
            let r = s.gr.g.run(&["branchless", "test", "clean", &set]);
            if !r.ok {
                return c.violation("clean", format!("{}{}", r.out, r.err), input);
            }
            cached.retain(|(_, t)| !picked.iter().any(|k| s.trees[*k] == *t));
            stored.retain(|(_, t), _| !picked.iter().any(|k| s.trees[*k] == *t));
            c.stat("clean");
        }
        // the result of another command is not taken for this one's
        if cache && !worktree && rng.chance(1, 6) {
            let k = *picked.iter().next().unwrap();
            let (a, b) = (s.command("p/q"), s.command("p q"));
            s.tell("p/q", &[(s.trees[k].clone(), 0)].into());
            s.tell("p q", &[(s.trees[k].clone(), 1)].into());
            let ok: Vec<bool> = [&a, &b].iter().map(|x| s.gr.g.run(&["branchless", "test", "run", "-x", x, &s.gr.oids[k]]).ok).collect();
            s.log();
            c.stat("alike");
            if ok != [true, false] {
                return c.violation("slug", format!("{a} and then {b} ended with {ok:?}"), input);
            }
        }
    }
}

fn searches(c: &mut Ctx, rng: &mut Rng) {
    let mut s = {
        let o = Opts { commits: 12, merges: rng.chance(1, 3), checkout: true, edits: true, ..Default::default() };
        Setup::new(c, rng, &o)
    };
    let visible = s.gr.visible();
    let picked = if rng.chance(1, 2) { visible.clone() } else { pick_some(rng, &visible, 8) };
    let distinct: BTreeSet<&String> = picked.iter().map(|k| &s.trees[*k]).collect();
    if distinct.len() < picked.len() {
        return;
    }
    let bad: Set = (0..rng.below(3)).map(|_| rng.below(s.gr.n())).collect();
    let bad: Set = (0..s.gr.n()).filter(|k| !s.gr.ancestors(&[*k].into()).is_disjoint(&bad)).collect();
    let skip: Set = if rng.chance(1, 4) { (0..1 + rng.below(2)).map(|_| rng.below(s.gr.n())).collect() } else { Set::new() };
    let code = |k: usize| if skip.contains(&k) { 125 } else { bad.contains(&k) as i32 };
    s.tell("search", &picked.iter().copied().map(|k| (s.trees[k].clone(), code(k))).collect());
    let jobs = if rng.chance(1, 3) { 2 + rng.below(3) } else { 1 };
    let worktree = jobs > 1 || rng.chance(1, 2);
    let strategy = *rng.pick(&["linear", "reverse", "binary"]);
    let (before, w, index) = (state(&s.gr), work(&s.gr), s.gr.g.get(&["ls-files", "-s"]));
    let (command, set, js) = (s.command("search"), revset(&s.gr, &picked), jobs.to_string());
    let raced = s.warm(rng, jobs);
    let r = s.gr.g.run(&["branchless", "test", "run", "-x", &command, "--jobs", &js, "-s", if worktree { "worktree" } else { "working-copy" }, "--search", strategy, &set]);
    c.eval(Some(hash(&s.gr.describe().to_string())));
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": s.gr.describe(), "picked": picked, "bad": bad, "skip": skip, "strategy": strategy, "jobs": jobs, "worktree": worktree});
    c.stat(strategy);
    if raced && said.contains("Failed to check out: ") {
        return c.violation("worktrees", format!("the worktrees were not created: {said}"), input);
    }
    if !r.ok {
        return c.violation("search", format!("failed: {said}"), input);
    }
    if let Err((key, e)) = same(&s.gr, &before, &w, &index) {
        return c.violation(key, format!("{e}: {said}"), input);
    }
    let log = s.log();
    let ran: Vec<usize> = log.iter().filter_map(|(_, told, _, _)| s.gr.index(told)).collect();
    let once: Set = ran.iter().copied().collect();
    if once.len() < ran.len() || !once.is_subset(&picked) || log.iter().any(|(_, told, head, clean)| told != head || !clean) {
        return c.violation("times", format!("the command ran for {ran:?}: {said}"), input);
    }
    match s.said(&r) {
        Ok(v) => {
            if let Some(k) = v.keys().find(|k| !once.contains(k) || v[k].0 != code(**k).to_string()) {
                return c.violation("verdict", format!("verdict {} about {k}, run: {once:?}: {said}", v[k].0), input);
            }
        }
        Err(e) => return c.violation("report", format!("{e}: {said}"), input),
    }
    let pass: Set = picked.iter().copied().filter(|k| code(*k) == 0).collect();
    let fail: Set = picked.iter().copied().filter(|k| code(*k) == 1).collect();
    let (last, first) = (maximal(&s.gr, &pass), minimal(&s.gr, &fail));
    if listed(&s.gr, &r, "Last passing") != last || listed(&s.gr, &r, "First failing") != first {
        return c.violation("bounds", format!("last passing ones are {last:?}, first failing ones {first:?}: {said}"), input);
    }
    // what follows from other results is not run: one at a time, at most as many as are left
    if jobs == 1 && strategy == "linear" {
        let extra: Set = once.iter().copied().filter(|k| fail.contains(k) && !first.contains(k)).collect();
        if !extra.is_empty() {
            return c.violation("extra", format!("{extra:?} were known to fail: {said}"), input);
        }
    }
}

fn fixes(c: &mut Ctx, rng: &mut Rng) {
    let mut s = {
        let o = Opts { commits: 8, merges: rng.chance(1, 3), checkout: true, edits: true, ..Default::default() };
        Setup::new(c, rng, &o)
    };
    let visible = s.gr.visible();
    let drafts = s.gr.draft();
    // rewriting a root commit is not supported
    let roots: Set = visible.iter().copied().filter(|k| s.gr.parents[*k].is_empty()).collect();
    let picked: Set = if drafts.is_empty() || rng.chance(1, 5) { pick_some(rng, &visible, 4) } else { pick_some(rng, &drafts, 4) };
    let picked: Set = picked.difference(&roots).copied().collect();
    if picked.is_empty() {
        return;
    }
    let fails = rng.chance(1, 6);
    let bad = *rng.pick(&picked.iter().copied().collect::<Vec<_>>());
    s.tell("fix", &(0..s.gr.n()).map(|k| (s.trees[k].clone(), (fails && s.trees[k] == s.trees[bad]) as i32)).collect());
    let jobs = if rng.chance(1, 3) { 2 + rng.below(2) } else { 1 };
    let distinct: BTreeSet<&String> = picked.iter().map(|k| &s.trees[*k]).collect();
    if jobs > 1 && distinct.len() < picked.len() {
        return;
    }
    let worktree = jobs > 1 || rng.chance(1, 2);
    let (force, dry) = (rng.chance(1, 3), rng.chance(1, 8));
    let (command, set, js) = (s.command("fix"), revset(&s.gr, &picked), jobs.to_string());
    let mut a = vec!["branchless", "test", "fix", "-x", &command, "--jobs", &js, "-s", if worktree { "worktree" } else { "working-copy" }];
    if force {
        a.push("-f");
    }
    if dry {
        a.push("-n");
    }
    a.push(&set);
    let changed: Set = picked
        .iter()
        .copied()
        .filter(|k| {
            let f = files(&s.gr.ancestors(&[*k].into()), &s.gr.own);
            fixed(&f) != f
        })
        .collect();
    let ask = Ask { messages: changed.iter().map(|k| (*k, s.gr.g.get(&["show", "-s", "--format=%B", &s.gr.oids[*k]]))).collect(), same_files: (0..s.gr.n()).collect(), keep: (0..s.gr.n()).collect(), ..Default::default() };
    let Ok(mut want) = Want::new(&s.gr, &ask) else { return };
    for k in &changed {
        let f = fixed(&want.files[k]);
        want.files.insert(*k, f);
    }
    let refuse = !force && (!want.rewrites().is_disjoint(&s.gr.public()) || !picked.is_disjoint(&s.gr.public()));
    let (before, w, index) = (state(&s.gr), work(&s.gr), s.gr.g.get(&["ls-files", "-s"]));
    let raced = s.warm(rng, jobs);
    let r = s.gr.g.run(&a);
    c.eval(Some(hash(&s.gr.describe().to_string())));
    let said = format!("{}{}", r.out, r.err);
    let input = json!({"graph": s.gr.describe(), "picked": picked, "fails": fails.then_some(bad), "force": force, "dry run": dry, "jobs": jobs, "worktree": worktree});
    if raced && said.contains("Failed to check out: ") {
        return c.violation("worktrees", format!("the worktrees were not created: {said}"), input);
    }
    if fails || refuse {
        c.stat(if refuse { "refused" } else { "failing" });
        if r.ok {
            return c.violation("allowed", format!("not refused: {said}"), input);
        }
    } else if !r.ok {
        return c.violation("fix", format!("failed: {said}"), input);
    }
    if fails || refuse || dry || changed.is_empty() {
        if let Err((key, e)) = same(&s.gr, &before, &w, &index) {
            return c.violation(key, format!("nothing to fix, yet {e}: {said}"), input);
        }
        return;
    }
    c.stat("fixed");
    if let Err((key, e)) = check(&s.gr, &before, &want) {
        return c.violation(key, format!("{e}; {said}"), input);
    }
    // the files checked out are those of the new version
    let head = s.gr.g.head();
    let _ = tree(&s.gr, &head);
}

pub fn testing(c: &mut Ctx) {
    c.run(|c, rng, _| match rng.below(4) {
        0 | 1 => runs(c, rng),
        2 => searches(c, rng),
        _ => fixes(c, rng),
    });
}
