//! C19: setting up and removing, next to what the user has.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

use lib::core::eventlog::{Event, EventLogDb};
use lib::git::MaybeZeroOid;
use serde_json::json;

use crate::git::{Git, Out};
use crate::util::{hash, Ctx, Rng};

const START: &str = "## START BRANCHLESS CONFIG";
const END: &str = "## END BRANCHLESS CONFIG";
const HOOKS: &[&str] = &["post-applypatch", "post-checkout", "post-commit", "post-merge", "post-rewrite", "pre-auto-gc", "reference-transaction"];
const ALIASES: &[&str] = &["amend", "hide", "move", "next", "prev", "query", "record", "restack", "reword", "sl", "smartlog", "submit", "sw", "sync", "test", "undo", "unhide"];

/// The lines that are the user's, and the number of sections that are not.
fn users(text: &str) -> (Vec<String>, usize) {
    let (mut r, mut n, mut inside) = (vec![], 0, false);
    for l in text.lines() {
        match l {
            START => {
                inside = true;
                n += 1;
            }
            END if inside => inside = false,
            _ if !inside => r.push(l.to_string()),
            _ => {}
        }
    }
    (r, n)
}

struct Place {
    g: Git,
    hooks: PathBuf,
    linked: Option<PathBuf>,
    home: PathBuf,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum From {
    Top,
    Below,
    Linked,
}

impl Place {
    /// Runs git at the top, in a directory below, or in the linked worktree.
    fn run(&mut self, args: &[&str], from: From) -> Out {
        let (home, dir) = (self.home.display().to_string(), self.g.dir.clone());
        let file = format!("{home}/.gitconfig");
        match from {
            From::Top => {}
            From::Below => self.g.dir = dir.join("below"),
            From::Linked => self.g.dir = self.linked.clone().unwrap(),
        }
        let r = self.g.run_env(args, &[("HOME", &home), ("GIT_CONFIG_GLOBAL", &file), ("LOG", &format!("{home}/log")), ("GIT_CEILING_DIRECTORIES", &dir.parent().unwrap().display().to_string())], Some(b""));
        self.g.dir = dir;
        r
    }
    fn get(&mut self, args: &[&str]) -> String {
        self.run(args, From::Top).out
    }
    fn events(&self) -> Vec<Event> {
        let repo = self.g.repo();
        let conn = repo.get_db_conn().unwrap();
        EventLogDb::new(&conn).unwrap().get_events().unwrap()
    }
    fn hook_files(&self) -> BTreeMap<String, String> {
        read_all(&self.hooks)
    }
    /// The repository's own settings, without those of files they include, and without the inclusion of ours.
    fn own_config(&mut self) -> Vec<String> {
        let s = self.get(&["config", "-f", ".git/config", "--no-includes", "--list"]);
        s.lines().filter(|l| !l.starts_with("include.path=branchless/")).map(|l| l.to_string()).collect()
    }
}

fn read_all(d: &Path) -> BTreeMap<String, String> {
    let Ok(l) = std::fs::read_dir(d) else { return Default::default() };
    l.filter_map(|e| e.ok())
        .filter(|e| !e.file_name().to_string_lossy().ends_with(".sample") && e.path().is_file())
        .map(|e| {
            use std::os::unix::fs::PermissionsExt;
            let x = e.metadata().unwrap().permissions().mode() & 0o777;
            (e.file_name().to_string_lossy().into_owned(), format!("{x:o}\n{}", std::fs::read_to_string(e.path()).unwrap()))
        })
        .collect()
}

fn one(c: &mut Ctx, rng: &mut Rng) {
    let mut g = Git::fresh(&c.scratch, "s");
    let home = Git::fresh(&c.scratch, "s-home").dir;
    let _ = std::fs::remove_dir_all(c.scratch.join("s-linked"));
    let branch = *rng.pick(&["main", "master", "trunk", "develop", "odd"]);
    g.must(&["init", "-q", "-b", branch]);
    g.write("a", "a\n");
    std::fs::create_dir(g.dir.join("below")).unwrap();
    let unborn = rng.chance(1, 8);
    if !unborn {
        g.must(&["add", "a"]);
        g.must(&["commit", "-q", "-m", "a"]);
    }
    let mut p = Place { hooks: g.dir.join(".git/hooks"), g, linked: None, home };
    let mut gitconfig = String::from("[user]\n\tname = U\n");
    let mut set = vec![];
    if rng.chance(1, 3) {
        let d = if rng.chance(1, 2) { "my-hooks".to_string() } else { p.g.dir.join("..").canonicalize().unwrap().join("s-home/hooks").display().to_string() };
        std::fs::create_dir_all(p.g.dir.join(&d)).unwrap();
        p.hooks = p.g.dir.join(&d);
        if rng.chance(1, 2) {
            p.g.must(&["config", "core.hooksPath", &d]);
        } else {
            gitconfig.push_str(&format!("[core]\n\thooksPath = {d}\n"));
        }
        set.push(format!("hooksPath {d}"));
    }
    // settings of the user's
    let mut global = BTreeMap::new();
    for _ in 0..rng.below(4) {
        let a = rng.pick(&["sl", "undo", "co", "test", "lg", "amend"]).to_string();
        let v = rng.pick(&["log --oneline", "!echo mine", "status"]).to_string();
        if rng.chance(1, 2) {
            global.insert(a, v);
        } else {
            p.g.must(&["config", &format!("alias.{a}"), &v]);
        }
    }
    for (a, v) in &global {
        gitconfig.push_str(&format!("[alias]\n\t{a} = {v}\n"));
    }
    for i in 0..rng.below(3) {
        let f = format!("{}{i}.conf", rng.pick(&["other", "not-branchless/x", "../branchless/y"]));
        p.g.must(&["config", "--add", "include.path", &f]);
    }
    if rng.chance(1, 3) {
        p.g.must(&["config", "advice.detachedHead", "true"]);
    }
    std::fs::write(p.home.join(".gitconfig"), &gitconfig).unwrap();
    // hooks of the user's
    std::fs::create_dir_all(&p.hooks).unwrap();
    for h in HOOKS.iter().chain(&["pre-commit", "post-update"]) {
        if !rng.chance(1, 3) {
            continue;
        }
        let mut t = format!("#!/bin/sh\n# a hook\n\necho \"{h}\" >> \"$LOG\"\n");
        if rng.chance(1, 3) && HOOKS.contains(h) {
            t.push_str(&format!("{START}\necho old >> \"$LOG\"\n{END}\n"));
        }
        t.push_str(*rng.pick(&["", "  # indented\n", "\n\n", "true", "## END\n", "# ## START BRANCHLESS CONFIG\n", "git branchless --version >/dev/null 2>&1\n"]));
        if t.ends_with('\n') && rng.chance(1, 4) {
            t.pop();
        }
        let f = p.hooks.join(h);
        std::fs::write(&f, &t).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(*rng.pick(&[0o755, 0o755, 0o775]))).unwrap();
        set.push(format!("{h}: {t:?}"));
    }
    if !unborn && rng.chance(1, 3) {
        let d = c.scratch.join("s-linked");
        p.g.must(&["-c", "core.hooksPath=/dev/null", "worktree", "add", "-q", "--detach", &d.display().to_string()]);
        p.linked = Some(d.canonicalize().unwrap());
    }
    let hooks = p.hook_files();
    let config = p.own_config();
    let aliases = |p: &mut Place| {
        let s = p.get(&["config", "--get-regexp", "^alias\\."]);
        let mut l: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        l.sort();
        l
    };
    let user_aliases = aliases(&mut p);
    let refs = p.g.refs();
    let mut last: Option<(String, BTreeMap<String, String>, String)> = None;
    let mut done = vec![];
    for _ in 0..1 + rng.below(4) {
        let remove = rng.chance(1, 3);
        let named = rng.chance(1, 3) || branch == "odd" || unborn;
        let other = rng.chance(1, 2);
        let from = *rng.pick(if p.linked.is_some() { &[From::Top, From::Below, From::Linked][..] } else { &[From::Top, From::Below][..] });
        let main = if other { "elsewhere" } else { branch };
        let mut args = vec!["branchless", "init"];
        if remove {
            args.push("--uninstall");
        } else if named {
            args.extend(["--main-branch", main]);
        }
        let r = p.run(&args, from);
        let what = args.join(" ");
        done.push(format!("{what} ({from:?})"));
        let said = format!("{}{}", r.out, r.err);
        let input = json!({"set up": set, "global": gitconfig, "settings": config, "branch": branch, "unborn": unborn, "commands": done});
        c.eval(Some(hash(&input.to_string())));
        c.stat(if remove { "removed" } else { "set up" });
        if !r.ok {
            return c.violation("failed", format!("{what} failed: {said}"), input);
        }
        // the user's hooks
        let now = p.hook_files();
        for (h, t) in &hooks {
            let Some(n) = now.get(h) else { return c.violation("hook lost", format!("the hook {h} is gone"), input) };
            if HOOKS.contains(&h.as_str()) {
                if users(t).0 != users(n).0 {
                    return c.violation("hook", format!("lines of the hook {h} changed from {t:?} to {n:?}"), input);
                }
            } else if n != t {
                return c.violation("hook", format!("the hook {h} changed from {t:?} to {n:?}"), input);
            }
        }
        for h in HOOKS {
            let n = now.get(*h).cloned().unwrap_or_default();
            if users(&n).1 != 1 {
                return c.violation("sections", format!("the hook {h} has {} sections: {n:?}", users(&n).1), input);
            }
            if !hooks.contains_key(*h) && users(&n).0.iter().skip(1).any(|l| l != "#!/bin/sh") {
                return c.violation("section", format!("the hook {h} is {n:?}"), input);
            }
        }
        if let Some(h) = now.keys().find(|h| !hooks.contains_key(*h) && !HOOKS.contains(&h.as_str())) {
            return c.violation("hook", format!("a hook {h} came out of nowhere"), input);
        }
        // the user's settings
        let own = p.own_config();
        if own != config {
            return c.violation("settings", format!("the settings went from {config:?} to {own:?}"), input);
        }
        if std::fs::read_to_string(p.home.join(".gitconfig")).unwrap() != gitconfig {
            return c.violation("settings", "the settings in the home directory changed".into(), input);
        }
        if p.g.refs() != refs {
            return c.violation("refs", format!("branches changed: {said}"), input);
        }
        let included = p.get(&["config", "-f", ".git/config", "--no-includes", "--get-all", "include.path"]).lines().filter(|l| l.starts_with("branchless/")).count();
        let all = p.get(&["config", "--list"]);
        if remove {
            if included != 0 || all.lines().any(|l| l.starts_with("branchless.") || l.starts_with("man.")) {
                return c.violation("left", format!("settings were left: {all}"), input);
            }
            if aliases(&mut p) != user_aliases {
                return c.violation("aliases left", format!("the aliases are {:?}, not {user_aliases:?}", aliases(&mut p)), input);
            }
        } else {
            if included != 1 {
                return c.violation("included", format!("the settings are included {included} times"), input);
            }
            let want = if named { main } else { branch };
            let got = p.get(&["config", "branchless.core.mainBranch"]);
            if got.trim() != want {
                return c.violation("main branch", format!("the main branch is {got:?}, not {want:?}"), input);
            }
            for a in ALIASES {
                let got = p.get(&["config", &format!("alias.{a}")]);
                let got = got.trim_end();
                match global.get(*a) {
                    // the repository's own alias may take the place of it
                    Some(v) if got != v && !user_aliases.contains(&format!("alias.{a} {got}")) => return c.violation("alias", format!("the alias {a} is {got:?}, not {v:?}"), input),
                    None if !got.starts_with("branchless") => return c.violation("alias", format!("the alias {a} is {got:?}"), input),
                    _ => {}
                }
            }
        }
        // once more makes no difference
        let now: BTreeMap<String, String> = now.into_iter().map(|(h, t)| (h, t.lines().filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n"))).collect();
        let whole = (what.clone(), now, std::fs::read_to_string(p.g.dir.join(".git/config")).unwrap() + &std::fs::read_to_string(p.g.dir.join(".git/branchless/config")).unwrap_or_default());
        if let Some(l) = &last {
            if l.0 == whole.0 && *l != whole {
                return c.violation("twice", format!("doing it twice made a difference: {l:?} and {whole:?}"), input);
            }
        }
        last = Some(whole);
        // hooks run
        if !remove && named && other {
            // the main branch named is not there: nothing is recorded
            continue;
        }
        if unborn {
            continue;
        }
        let _ = std::fs::remove_file(p.home.join("log"));
        let before = p.events().len();
        let oid = p.g.head();
        p.run(&["-c", "core.hooksPath=/dev/null", "checkout", "-q", "--detach"], From::Top);
        let r = p.run(&["commit", "-q", "--allow-empty", "-m", "c"], From::Top);
        if !r.ok {
            return c.violation("hooks", format!("could not commit: {}{}", r.out, r.err), input);
        }
        let ran = std::fs::read_to_string(p.home.join("log")).unwrap_or_default();
        for h in ["post-commit", "reference-transaction", "pre-commit"] {
            if hooks.contains_key(h) != ran.lines().any(|l| l == h) {
                return c.violation("user hook", format!("the hook {h}: {ran:?}"), input);
            }
        }
        if ran.contains("old") {
            return c.violation("old section", format!("the old section still runs: {ran:?}"), input);
        }
        let after = p.events().len();
        if remove == (after > before) {
            return c.violation("recorded", format!("there were {before} events and then {after}; {}{}", r.out, r.err), input);
        }
        // so do those of our commands, wherever they are run
        if !remove {
            let old = p.g.head();
            let from = if rng.chance(1, 2) { From::Top } else { From::Below };
            let r = p.run(&["branchless", "reword", "-m", "other", "HEAD"], from);
            let new = p.g.head();
            let id = |o: &str| -> MaybeZeroOid { MaybeZeroOid::NonZero(o.parse().unwrap()) };
            if !r.ok || new == old {
                return c.violation("reword", format!("not reworded ({from:?}): {}{}", r.out, r.err), input);
            }
            if !p.events().iter().any(|e| matches!(e, Event::RewriteEvent { old_commit_oid, new_commit_oid, .. } if *old_commit_oid == id(&old) && *new_commit_oid == id(&new))) {
                return c.violation("not recorded", format!("a rewritten commit was not recorded ({from:?}): {}{}", r.out, r.err), input);
            }
            let ran = std::fs::read_to_string(p.home.join("log")).unwrap_or_default();
            if hooks.contains_key("post-rewrite") != ran.lines().any(|l| l == "post-rewrite") {
                return c.violation("user hook", format!("the hook post-rewrite ({from:?}): {ran:?}"), input);
            }
        }
        p.run(&["-c", "core.hooksPath=/dev/null", "reset", "-q", "--soft", &oid], From::Top);
        p.run(&["-c", "core.hooksPath=/dev/null", "checkout", "-q", branch], From::Top);
    }
}

pub fn setup(c: &mut Ctx) {
    c.run(|c, rng, _| one(c, rng));
}
