//! C17: what an expression for a set of commits means.
use git_branchless_opts::{ResolveRevsetOptions, Revset};
use git_branchless_revset::{eval, parse, resolve_commits};
use serde_json::json;

use crate::git::quiet;
use crate::graph::{message, Graph, Opts, Set};
use crate::util::{hash, Ctx, Rng};

#[derive(Clone, Debug)]
enum E {
    Name(String),
    Call(String, Vec<E>),
}
fn call(f: &str, a: Vec<E>) -> E {
    E::Call(f.into(), a)
}
fn name(n: &str) -> E {
    E::Name(n.into())
}

/// What the graph gives names and functions to work with.
struct World<'a> {
    gr: &'a Graph,
    /// hidden commits count as visible
    all: bool,
    paths: &'a [Vec<String>],
}

/// The commits that references or the log make known, as if nothing was hidden.
fn everything(gr: &Graph) -> Set {
    gr.present()
}

impl World<'_> {
    fn visible(&self) -> Set {
        if self.all {
            everything(self.gr)
        } else {
            self.gr.visible()
        }
    }
    fn children(&self, s: &Set) -> Set {
        (0..self.gr.n()).filter(|k| self.gr.parents[*k].iter().any(|p| s.contains(p))).collect()
    }
    fn down(&self, s: &Set) -> Set {
        (0..self.gr.n()).filter(|k| !self.gr.ancestors(&[*k].into()).is_disjoint(s)).collect()
    }
    fn name(&self, n: &str) -> Result<Set, String> {
        let gr = self.gr;
        if n == "@" || n == "." || n == "HEAD" {
            return Ok([gr.head].into());
        }
        if let Some(k) = gr.branches.get(n) {
            return Ok([*k].into());
        }
        match gr.oids.iter().position(|o| n.len() >= 8 && o.starts_with(n)) {
            Some(k) => Ok([k].into()),
            None => Err(format!("no commit {n}")),
        }
    }
    fn value(&self, e: &E) -> Result<Set, String> {
        match e {
            E::Name(n) => self.name(n),
            E::Call(f, a) => Ok(self.call(f, a)?.intersection(&self.visible()).copied().collect()),
        }
    }
    fn one(&self, a: &[E]) -> Result<Set, String> {
        match a {
            [x] => self.value(x),
            _ => Err("arity".into()),
        }
    }
    fn two(&self, a: &[E]) -> Result<(Set, Set), String> {
        match a {
            [x, y] => Ok((self.value(x)?, self.value(y)?)),
            _ => Err("arity".into()),
        }
    }
    fn number(&self, a: &[E]) -> Result<(Set, usize), String> {
        match a {
            [x, E::Name(n)] => Ok((self.value(x)?, n.parse().map_err(|_| "not a number".to_string())?)),
            _ => Err("number".into()),
        }
    }
    fn pattern(&self, a: &[E], text: impl Fn(usize) -> Vec<String>) -> Result<Set, String> {
        let [E::Name(p)] = a else { return Err("pattern".into()) };
        let test: Box<dyn Fn(&str) -> bool> = if let Some(p) = p.strip_prefix("exact:") {
            let p = p.to_string();
            Box::new(move |s| s == p)
        } else if let Some(p) = p.strip_prefix("glob:") {
            let g: Vec<char> = p.chars().collect();
            Box::new(move |s| glob(&g, &s.chars().collect::<Vec<_>>()))
        } else if let Some(p) = p.strip_prefix("regex:^") {
            // only ^text$ and ^text are generated
            let (p, whole) = match p.strip_suffix('$') {
                Some(p) => (p.to_string(), true),
                None => (p.to_string(), false),
            };
            Box::new(move |s| if whole { s == p } else { s.starts_with(&p) })
        } else {
            let p = p.strip_prefix("substring:").or(p.strip_prefix("substr:")).unwrap_or(p).to_string();
            Box::new(move |s| s.contains(&p))
        };
        Ok(self.visible().into_iter().filter(|k| text(*k).iter().any(|t| test(t.strip_suffix('\n').unwrap_or(t)))).collect())
    }
    fn date(&self, a: &[E], at: impl Fn(usize) -> i64) -> Result<Set, String> {
        let [E::Name(p)] = a else { return Err("pattern".into()) };
        let (before, d) = match p.split_once(':') {
            Some(("before", d)) => (true, d),
            Some(("after", d)) => (false, d),
            _ => return Ok(Set::new()),
        };
        let (h, m, s) = (&d[11..13], &d[14..16], &d[17..19]);
        let n = |x: &str| x.parse::<i64>().unwrap();
        // seconds of that day
        let t = n(h) * 3600 + n(m) * 60 + n(s);
        let day = |k: usize| at(k) - 1_599_955_200;
        Ok(self.visible().into_iter().filter(|k| if before { day(*k) <= t } else { day(*k) >= t }).collect())
    }
    fn author(&self, k: usize) -> usize {
        k % 3
    }
    fn call(&self, f: &str, a: &[E]) -> Result<Set, String> {
        let gr = self.gr;
        let none = |s: Set| if a.is_empty() { Ok(s) } else { Err("arity".to_string()) };
        match f {
            "all" => none(self.visible()),
            "none" => none(Set::new()),
            "union" => self.two(a).map(|(x, y)| x.union(&y).copied().collect()),
            "intersection" => self.two(a).map(|(x, y)| x.intersection(&y).copied().collect()),
            "difference" => self.two(a).map(|(x, y)| x.difference(&y).copied().collect()),
            "only" => self.two(a).map(|(x, y)| gr.ancestors(&x).difference(&gr.ancestors(&y)).copied().collect()),
            "range" => self.two(a).map(|(x, y)| self.down(&x).intersection(&gr.ancestors(&y)).copied().collect()),
            "not" => self.one(a).map(|x| self.visible().difference(&x).copied().collect()),
            "ancestors" => self.one(a).map(|x| gr.ancestors(&x)),
            "descendants" => self.one(a).map(|x| self.down(&x)),
            "parents" => self.one(a).map(|x| x.iter().flat_map(|k| gr.parents[*k].iter().copied()).collect()),
            "children" => self.one(a).map(|x| self.children(&x)),
            "siblings" => self.one(a).map(|x| {
                let p: Set = x.iter().flat_map(|k| gr.parents[*k].iter().copied()).collect();
                self.children(&p).difference(&x).copied().collect()
            }),
            "roots" => self.one(a).map(|x| gr.roots(&x)),
            "heads" => self.one(a).map(|x| gr.heads(&x)),
            "parents.nth" => self.number(a).map(|(x, n)| x.iter().filter(|_| n > 0).filter_map(|k| gr.parents[*k].get(n - 1)).copied().collect()),
            "ancestors.nth" => self.number(a).map(|(x, n)| {
                x.iter()
                    .filter_map(|k| {
                        let mut k = *k;
                        for _ in 0..n {
                            k = *gr.parents[k].first()?;
                        }
                        Some(k)
                    })
                    .collect()
            }),
            "exactly" => {
                let (x, n) = self.number(a)?;
                if x.len() == n {
                    Ok(x)
                } else {
                    Err("length".into())
                }
            }
            "branches" if a.is_empty() => Ok(gr.branches.values().copied().collect()),
            "branches" => {
                let at: Set = gr.branches.values().copied().collect();
                let s = self.pattern(a, |k| gr.branches.iter().filter(|(_, x)| **x == k).map(|(n, _)| n.clone()).collect())?;
                Ok(s.intersection(&at).copied().collect())
            }
            "main" => none([gr.main].into()),
            "public" => none(gr.public()),
            "draft" => none(self.visible().difference(&gr.public()).copied().collect()),
            "stack" => {
                let x = if a.is_empty() { [gr.head].into() } else { self.one(a)? };
                let draft: Set = self.visible().difference(&gr.public()).copied().collect();
                let above: Set = gr.ancestors(&x).intersection(&draft).copied().collect();
                Ok(self.down(&above).intersection(&draft).copied().collect())
            }
            "message" => self.pattern(a, |k| vec![message(k, true)]),
            "paths.changed" => self.pattern(a, |k| self.paths[k].clone()),
            "author.name" => self.pattern(a, |k| vec![format!("Author{}", self.author(k))]),
            "author.email" => self.pattern(a, |k| vec![format!("author{}@example.com", self.author(k))]),
            "committer.name" => self.pattern(a, |_| vec!["C O Mitter".into()]),
            "committer.email" => self.pattern(a, |_| vec!["c@example.com".into()]),
            "author.date" | "committer.date" => self.date(a, |k| 1_600_000_000 + 60 * k as i64),
            "merges" => none(self.visible().into_iter().filter(|k| gr.parents[*k].len() > 1).collect()),
            "current" => {
                let w = World { gr, all: true, paths: self.paths };
                let x = w.one(a)?;
                Ok(x.iter()
                    .filter_map(|k| {
                        let mut k = *k;
                        while let Some(t) = gr.rewritten.get(&k) {
                            k = (*t)?;
                        }
                        Some(k)
                    })
                    .collect())
            }
            // $1 & draft()
            "mine" => match a {
                [x, ..] => self.value(&call("intersection", vec![x.clone(), call("draft", vec![])])),
                [] => Err("unbound $1".into()),
            },
            // ($2 | $1)..@
            "two" => match a {
                [x, y, ..] => self.value(&call("only", vec![name("@"), call("union", vec![y.clone(), x.clone()])])),
                _ => Err("unbound".into()),
            },
            _ => Err(format!("no function {f}")),
        }
    }
}
fn glob(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}

const UNARY: [&str; 9] = ["not", "ancestors", "descendants", "parents", "children", "siblings", "roots", "heads", "stack"];
const NULLARY: [&str; 8] = ["all", "none", "main", "public", "draft", "stack", "branches", "merges"];
const BINARY: [&str; 5] = ["union", "intersection", "difference", "only", "range"];

fn gen(gr: &Graph, rng: &mut Rng, depth: usize) -> E {
    let k = if depth == 0 { rng.below(4) } else { rng.below(16) };
    match k {
        0 => call(*rng.pick(&NULLARY), vec![]),
        1 => {
            let pick = rng.below(6);
            name(&match pick {
                0 => "@".to_string(),
                1 => ".".to_string(),
                2 => rng.pick(&gr.branches.keys().collect::<Vec<_>>()).to_string(),
                _ => {
                    let o = rng.pick(&gr.oids).clone();
                    if rng.chance(1, 2) {
                        o[..12].to_string()
                    } else {
                        o
                    }
                }
            })
        }
        2 => {
            let i = rng.below(gr.n());
            let text = ["message", "paths.changed", "author.name", "author.email", "committer.name", "committer.email", "branches"];
            match rng.below(5) {
                0 => call(*rng.pick(&["author.date", "committer.date"]), vec![name(&format!("{}:2020-09-13 12:{}:{}0", rng.pick(&["before", "after"]), 27 + i, rng.below(6)))]),
                1 => call("message", vec![name(&format!("regex:^commit {i}{}", if rng.chance(1, 2) { "" } else { "$" }))]),
                _ => {
                    let p = match rng.below(11) {
                        0 => format!("commit {i}"),
                        1 => format!("exact:commit {i}\n\nwhat {i} does"),
                        2 => format!("substr:{i} does"),
                        3 => format!("glob:*{i}*"),
                        4 => format!("exact:Author{}", i % 4),
                        5 => format!("glob:author?@*.com"),
                        6 => "substring:Author".into(),
                        7 => format!("glob:r/*{i}"),
                        8 => format!("exact:f{i}.txt"),
                        9 => (*rng.pick(&["glob:b*", "exact:main", "b1", "topic/x", "exact:topic"])).into(),
                        _ => (*rng.pick(&["it's", "say \"so\"", "does\n", "6 does\n", "exact:does"])).into(),
                    };
                    call(*rng.pick(&text), vec![name(&p)])
                }
            }
        }
        3 => match rng.below(12) {
            0 => name("nowhere"),
            1 => call("nothing", vec![]),
            2 => call(*rng.pick(&NULLARY), vec![name("@"), name("@")]),
            3 => call(*rng.pick(&UNARY), vec![name("@"), name("@")]),
            4 => call(*rng.pick(&BINARY), vec![name("@")]),
            5 => call("message", vec![call("all", vec![])]),
            6 => call("exactly", vec![call("all", vec![]), call("all", vec![])]),
            _ => call("draft", vec![]),
        },
        4..=7 => call(*rng.pick(&UNARY), vec![gen(gr, rng, depth - 1)]),
        8..=12 => call(*rng.pick(&BINARY), vec![gen(gr, rng, depth - 1), gen(gr, rng, depth - 1)]),
        13 => call(*rng.pick(&["parents.nth", "ancestors.nth"]), vec![gen(gr, rng, depth - 1), name(&rng.below(6).to_string())]),
        14 if rng.chance(1, 3) => call("exactly", vec![gen(gr, rng, depth - 1), name(&(1 + rng.below(2)).to_string())]),
        14 => call("current", vec![gen(gr, rng, depth - 1)]),
        _ if rng.chance(1, 2) => call("mine", vec![gen(gr, rng, depth - 1)]),
        _ => call("two", vec![gen(gr, rng, depth - 1), gen(gr, rng, depth - 1)]),
    }
}

fn quote(s: &str, q: char) -> String {
    let mut r = String::from(q);
    let n = s.chars().count();
    for (i, c) in s.chars().enumerate() {
        match c {
            '\n' if i + 1 == n => r += "\\n",
            '\\' => r += "\\\\",
            c if c == q => {
                r.push('\\');
                r.push(c);
            }
            c => r.push(c),
        }
    }
    r.push(q);
    r
}
/// Nothing after an escape sequence (see the known findings).
fn certain(q: &str) -> bool {
    !q.contains('\\') || q.find('\\') == Some(q.len() - 3)
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s != "or" && s != "and" && s.chars().all(|c| c.is_ascii_alphanumeric() || "_$@/-".contains(c)) || s == "."
}
/// Text for an expression that is to bind at least this tightly.
fn text(e: &E, level: usize, rng: &mut Rng) -> String {
    let (t, l) = match e {
        E::Name(n) if plain(n) && !rng.chance(1, 12) => (n.clone(), 5),
        E::Name(n) => {
            let q = *rng.pick(&['"', '\'']);
            (quote(n, if certain(&quote(n, q)) { q } else if q == '"' { '\'' } else { '"' }), 5)
        }
        E::Call(f, a) => {
            let short = !rng.chance(1, 4);
            match (f.as_str(), a.as_slice()) {
                ("union", [x, y]) if short => (format!("{} {} {}", text(x, 1, rng), rng.pick(&["|", "+", "or"]), text(y, 2, rng)), 1),
                ("intersection", [x, y]) if short => (format!("{} {} {}", text(x, 2, rng), rng.pick(&["&", "and"]), text(y, 3, rng)), 2),
                ("difference", [x, y]) if short => (format!("{} - {}", text(x, 2, rng), text(y, 3, rng)), 2),
                ("only", [E::Name(x), y]) if short && x == "." && rng.chance(1, 2) => (format!("{}..", text(y, 3, rng)), 3),
                ("only", [x, E::Name(y)]) if short && y == "." && rng.chance(1, 2) => (format!("..{}", text(x, 4, rng)), 3),
                ("only", [x, y]) if short && rng.chance(1, 2) => (format!("{} .. {}", text(y, 3, rng), text(x, 4, rng)), 3),
                ("only", [x, y]) if short => (format!("{} % {}", text(x, 2, rng), text(y, 3, rng)), 2),
                ("range", [x, y]) if short => (format!("{}{}{}", text(x, 3, rng), rng.pick(&[":", "::"]), text(y, 4, rng)), 3),
                ("descendants", [x]) if short => (format!("{}{}", text(x, 3, rng), rng.pick(&[":", "::"])), 3),
                ("ancestors", [x]) if short => (format!("{}{}", rng.pick(&[":", "::"]), text(x, 4, rng)), 3),
                ("parents.nth", [x, E::Name(n)]) if short && n == "1" => (format!("{}^", text(x, 4, rng)), 4),
                ("parents.nth", [x, E::Name(n)]) if short => (format!("{}^{n}", text(x, 4, rng)), 4),
                ("ancestors.nth", [x, E::Name(n)]) if short && n == "1" => (format!("{}~", text(x, 4, rng)), 4),
                ("ancestors.nth", [x, E::Name(n)]) if short => (format!("{}~{n}", text(x, 4, rng)), 4),
                _ => {
                    let a: Vec<String> = a.iter().map(|x| text(x, 1, rng)).collect();
                    (format!("{f}({}{})", a.join(", "), if !a.is_empty() && rng.chance(1, 10) { "," } else { "" }), 5)
                }
            }
        }
    };
    // a postfix operator followed by something that could be its operand
    let open = l == 3 && (t.ends_with(':') || t.ends_with('.')) && level > 1 || l == 4 && (t.ends_with('^') || t.ends_with('~')) && level > 4;
    if l < level || open || rng.chance(1, 12) {
        format!("({t})")
    } else {
        t
    }
}
/// The expression written out with function calls only, as the parser describes what it read.
fn written(e: &E) -> String {
    match e {
        E::Name(n) => n.clone(),
        E::Call(f, a) => format!("{f}({})", a.iter().map(written).collect::<Vec<_>>().join(", ")),
    }
}

fn one(c: &mut Ctx, rng: &mut Rng) {
    let mut gr = {
        let o = Opts { commits: 12, edits: rng.chance(1, 4), odd: true, ..Default::default() };
        Graph::random(&c.scratch.clone(), rng, &o)
    };
    gr.g.must(&["config", "branchless.revsets.alias.mine", "$1 & draft()"]);
    gr.g.must(&["config", "branchless.revsets.alias.two", "($2 | $1)..@"]);
    // what each commit changes, as git sees it
    let paths: Vec<Vec<String>> = (0..gr.n())
        .map(|k| {
            let tree = |k: usize| crate::graph::files(&gr.ancestors(&[k].into()), &gr.own);
            match gr.parents[k].len() {
                0 => tree(k).into_keys().collect(),
                _ => {
                    let mut s: std::collections::BTreeSet<String> = Default::default();
                    let t = tree(k);
                    for (i, p) in gr.parents[k].iter().enumerate() {
                        let b = tree(*p);
                        let d: std::collections::BTreeSet<String> = t.keys().chain(b.keys()).filter(|f| t.get(*f) != b.get(*f)).cloned().collect();
                        if i == 0 {
                            s = d;
                        } else {
                            s = s.union(&d).cloned().collect();
                        }
                    }
                    s.into_iter().collect()
                }
            }
        })
        .collect();
    let repo = gr.g.repo();
    let dag0 = gr.dag(&repo);
    let effects = quiet();
    let opaque = git2::Repository::open(&gr.g.dir).unwrap();
    for _ in 0..40 {
        let depth = 1 + rng.below(4);
        let e = gen(&gr, rng, depth);
        let t = text(&e, 0, rng);
        c.eval(Some(hash(&t)));
        let input = json!({"graph": gr.describe(), "expression": t, "written out": written(&e)});
        let parsed = match parse(&t) {
            Ok(p) => p,
            Err(err) => {
                c.violation("parse", format!("{t} is refused: {err}"), input);
                return;
            }
        };
        if parsed.to_string() != written(&e) {
            c.violation("parse", format!("{t} is read as {parsed}, not {}", written(&e)), input);
            return;
        }
        let all = rng.chance(1, 5);
        let w = World { gr: &gr, all, paths: &paths };
        // a text git itself understands is left to git
        let resolve = all || rng.chance(1, 3);
        let direct = if resolve { opaque.revparse_single(&t).ok().and_then(|o| o.peel_to_commit().ok()) } else { None };
        let want = match &direct {
            Some(o) => gr.index(&o.id().to_string()).map(|k| Set::from([k])).ok_or("elsewhere".to_string()),
            None => w.value(&e),
        };
        let mut dag = dag0.try_clone(&repo).unwrap();
        let got = if resolve {
            resolve_commits(&effects, &repo, &mut dag, &[Revset(t.clone())], &ResolveRevsetOptions { show_hidden_commits: all }).map(|mut v| v.pop().unwrap()).map_err(|e| e.to_string())
        } else {
            eval(&effects, &repo, &mut dag, &parsed).map_err(|e| e.to_string())
        };
        let got = got.and_then(|s| {
            let v = dag.commit_set_to_vec(&s).map_err(|e| e.to_string())?;
            let r: Set = v.iter().map(|o| gr.index(&o.to_string()).unwrap_or(999)).collect();
            if r.len() < v.len() {
                return Err("a commit twice".to_string());
            }
            Ok(r)
        });
        match (&want, &got) {
            (Ok(a), Ok(b)) if a == b => c.stat(if a.is_empty() { "empty" } else { "set" }),
            (Err(_), Err(_)) => c.stat("refused"),
            _ => {
                c.violation("value", format!("{t} is {got:?}, by definition {want:?}"), input);
                return;
            }
        }
    }
}

pub fn revset(c: &mut Ctx) {
    for (t, want) in [(r"'foo\nbar'", "foo\nbar"), (r"'a\\b\\c'", r"a\b\c"), (r"'a\\' | 'b'", r"union(a\, b)")] {
        let got = parse(t).map(|e| e.to_string()).unwrap_or_else(|e| format!("refused: {e}"));
        if got != want {
            c.violation("escapes", format!("{t} is read as {got}, not {want}"), json!({"expression": t}));
        }
    }
    c.run(|c, rng, _| one(c, rng));
}
