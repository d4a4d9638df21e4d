//! vx: mechanical extraction of functions from the repository into a Verus
//! file. See DESIGN.md ("What the extraction does") for the list of rewrites.
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct Rules {
    /// expression rewrite rules: (pattern, replacement)
    exprs: Vec<(Expr, Expr, String)>,
    /// statement patterns to drop
    drop_stmts: Vec<Expr>,
    /// `let` initialisers to drop (whole statement)
    drop_lets: Vec<Expr>,
    format_args: bool,
    drop_macros: BTreeSet<String>,
    types: HashMap<String, Type>,
    err_macros: BTreeSet<String>,
}

#[derive(Default, Clone, Debug)]
struct FnBlock {
    path: String,
    rename: Option<String>,
    sig: Option<String>,
    ret: Option<String>,
    contract: String,
    prologue: String,
    attrs: String,
    loops: BTreeMap<usize, (String, String, String, String)>, // header, invariants, body start, body end
    after_loops: BTreeMap<usize, String>,
    before_loops: BTreeMap<usize, String>,
    after_lets: Vec<(String, String)>,
    closures: BTreeMap<usize, String>,
    nclosures: Option<usize>,
    epilogue: String,
    inline_only: bool,
}

struct Report {
    functions: Vec<String>,
    dropped: BTreeMap<String, usize>,
    rewrites: BTreeMap<String, usize>,
    misfits: Vec<String>,
    inlined: Vec<String>,
    missing: Vec<String>,
    loops: Vec<String>,
    closures: usize,
    misfit_fns: BTreeMap<String, String>,
    trusted: Vec<String>,
}

fn norm(ts: &TokenStream) -> String {
    ts.to_string()
}

fn toks<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream())
}

/// The alternatives of a pattern, with `|` moved outermost.
fn alternatives(p: &Pat) -> Vec<Pat> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::Ident(i) => match &i.subpat {
            Some((at, q)) => alternatives(q)
                .into_iter()
                .map(|q| Pat::Ident(PatIdent { subpat: Some((*at, Box::new(q))), ..i.clone() }))
                .collect(),
            None => vec![p.clone()],
        },
        Pat::TupleStruct(t) => {
            let mut out = vec![t.clone()];
            for k in 0..t.elems.len() {
                out = out
                    .into_iter()
                    .flat_map(|t| {
                        alternatives(&t.elems[k]).into_iter().map(move |q| {
                            let mut t = t.clone();
                            t.elems[k] = q;
                            t
                        })
                    })
                    .collect();
            }
            out.into_iter().map(Pat::TupleStruct).collect()
        }
        _ => vec![p.clone()],
    }
}

// ---------- unification -------------------------------------------------
type Binds = HashMap<String, Expr>;

fn metavar(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if let Some(i) = p.path.get_ident() {
            let s = i.to_string();
            if s.starts_with("__") {
                return Some(s);
            }
        }
    }
    None
}

fn unify(p: &Expr, e: &Expr, b: &mut Binds) -> bool {
    if let Some(v) = metavar(p) {
        if let Some(prev) = b.get(&v) {
            return toks(prev) == toks(e);
        }
        b.insert(v, e.clone());
        return true;
    }
    match (p, e) {
        (Expr::Paren(p), e) => unify(&p.expr, e, b),
        (p, Expr::Paren(e)) => unify(p, &e.expr, b),
        (Expr::MethodCall(p), Expr::MethodCall(e)) => {
            p.method == e.method
                && p.args.len() == e.args.len()
                && (p.turbofish.is_none() || toks(&p.turbofish) == toks(&e.turbofish))
                && unify(&p.receiver, &e.receiver, b)
                && p.args.iter().zip(&e.args).all(|(p, e)| unify(p, e, b))
        }
        (Expr::Call(p), Expr::Call(e)) => {
            p.args.len() == e.args.len()
                && unify(&p.func, &e.func, b)
                && p.args.iter().zip(&e.args).all(|(p, e)| unify(p, e, b))
        }
        (Expr::Reference(p), Expr::Reference(e)) => {
            p.mutability.is_some() == e.mutability.is_some() && unify(&p.expr, &e.expr, b)
        }
        (Expr::Unary(p), Expr::Unary(e)) => toks(&p.op) == toks(&e.op) && unify(&p.expr, &e.expr, b),
        (Expr::Try(p), Expr::Try(e)) => unify(&p.expr, &e.expr, b),
        (Expr::Field(p), Expr::Field(e)) => toks(&p.member) == toks(&e.member) && unify(&p.base, &e.base, b),
        (Expr::Binary(p), Expr::Binary(e)) => {
            toks(&p.op) == toks(&e.op) && unify(&p.left, &e.left, b) && unify(&p.right, &e.right, b)
        }
        (Expr::Index(p), Expr::Index(e)) => unify(&p.expr, &e.expr, b) && unify(&p.index, &e.index, b),
        (Expr::Range(p), Expr::Range(e)) => {
            let o = |p: &Option<Box<Expr>>, e: &Option<Box<Expr>>, b: &mut Binds| match (p, e) {
                (None, None) => true,
                (Some(p), Some(e)) => unify(p, e, b),
                _ => false,
            };
            toks(&p.limits) == toks(&e.limits) && o(&p.start, &e.start, b) && o(&p.end, &e.end, b)
        }
        (Expr::Array(p), Expr::Array(e)) => {
            p.elems.len() == e.elems.len() && p.elems.iter().zip(&e.elems).all(|(p, e)| unify(p, e, b))
        }
        (Expr::Tuple(p), Expr::Tuple(e)) => {
            p.elems.len() == e.elems.len() && p.elems.iter().zip(&e.elems).all(|(p, e)| unify(p, e, b))
        }
        (Expr::Struct(p), Expr::Struct(e)) => {
            toks(&p.path) == toks(&e.path)
                && p.fields.len() == e.fields.len()
                && p.fields.iter().all(|pf| e.fields.iter().any(|ef| toks(&pf.member) == toks(&ef.member) && unify(&pf.expr, &ef.expr, b)))
        }
        (Expr::Macro(p), Expr::Macro(e)) => {
            let list = |m: &Macro| m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
            match (list(&p.mac), list(&e.mac)) {
                (Some(x), Some(y)) => {
                    macro_name(&p.mac) == macro_name(&e.mac) && x.len() == y.len() && x.iter().zip(&y).all(|(p, e)| unify(p, e, b))
                }
                _ => toks(p) == toks(e),
            }
        }
        (Expr::Closure(p), Expr::Closure(e)) => {
            toks(&p.inputs) == toks(&e.inputs) && unify(&p.body, &e.body, b)
        }
        _ => toks(p) == toks(e),
    }
}

struct Subst<'a>(&'a Binds);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(v) = metavar(e) {
            if let Some(r) = self.0.get(&v) {
                *e = r.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------- locating items ----------------------------------------------
#[derive(Clone)]
enum Found {
    Fn(Signature, Block),
    Item(Item),
}

fn type_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_last(&r.elem),
        _ => toks(t),
    }
}

fn is_test_mod(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| toks(a).replace(' ', "") == "#[cfg(test)]")
}

fn find_in<'a>(items: &'a [Item], segs: &[&str]) -> Option<Found> {
    let (head, rest) = (segs[0], &segs[1..]);
    for it in items {
        match it {
            Item::Fn(f) if rest.is_empty() && f.sig.ident == head => {
                return Some(Found::Fn(f.sig.clone(), (*f.block).clone()))
            }
            Item::Fn(f) if !rest.is_empty() && f.sig.ident == head => {
                // nested item inside a function
                let inner: Vec<Item> = f
                    .block
                    .stmts
                    .iter()
                    .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
                    .collect();
                if let Some(x) = find_in(&inner, rest) {
                    return Some(x);
                }
            }
            Item::Struct(s) if rest.is_empty() && s.ident == head => return Some(Found::Item(it.clone())),
            Item::Enum(s) if rest.is_empty() && s.ident == head => return Some(Found::Item(it.clone())),
            Item::Const(s) if rest.is_empty() && s.ident == head => return Some(Found::Item(it.clone())),
            Item::Mod(m) if !rest.is_empty() && m.ident == head => {
                if let Some((_, items)) = &m.content {
                    if let Some(f) = find_in(items, rest) {
                        return Some(f);
                    }
                }
            }
            Item::Trait(t) if !rest.is_empty() && t.ident == head => {
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        if f.sig.ident == rest[0] {
                            if let Some(b) = &f.default {
                                return Some(Found::Fn(f.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            Item::Impl(im) if !rest.is_empty() => {
                let ty = type_last(&im.self_ty);
                let name = match &im.trait_ {
                    Some((_, p, _)) => {
                        let l = p.segments.last().unwrap();
                        let full = toks(l).replace(' ', "");
                        // `Trait<Args>@Type` or `Trait@Type` or `Type`
                        let a = format!("{full}@{ty}");
                        let c = format!("{}@{ty}", l.ident);
                        if head == a || head == c || head == ty {
                            head.to_string()
                        } else {
                            continue;
                        }
                    }
                    None => ty,
                };
                if name == head {
                    for i in &im.items {
                        if let ImplItem::Fn(f) = i {
                            if f.sig.ident == rest[0] {
                                if rest.len() > 1 {
                                    // nested item inside a method
                                    let inner: Vec<Item> = f.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                                    return find_in(&inner, &rest[1..]);
                                }
                                return Some(Found::Fn(f.sig.clone(), f.block.clone()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// All function definitions of a file by bare name (for inlining new helpers).
fn all_fns(items: &[Item], out: &mut HashMap<String, Vec<(Signature, Block)>>) {
    for it in items {
        match it {
            Item::Fn(f) => out.entry(f.sig.ident.to_string()).or_default().push((f.sig.clone(), (*f.block).clone())),
            Item::Mod(m) => {
                if is_test_mod(&m.attrs) {
                    continue;
                }
                if let Some((_, items)) = &m.content {
                    all_fns(items, out);
                }
            }
            Item::Impl(im) => {
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        out.entry(f.sig.ident.to_string()).or_default().push((f.sig.clone(), f.block.clone()));
                    }
                }
            }
            _ => {}
        }
    }
}

fn all_consts(items: &[Item], out: &mut HashMap<String, Expr>) {
    for it in items {
        match it {
            Item::Const(c) => {
                out.insert(c.ident.to_string(), (*c.expr).clone());
            }
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    all_consts(items, out);
                }
            }
            _ => {}
        }
    }
}

// ---------- transformation ----------------------------------------------
struct Tx<'a> {
    rules: &'a Rules,
    rep: &'a mut Report,
    fns: &'a HashMap<String, Vec<(Signature, Block)>>,
    consts: &'a HashMap<String, Expr>,
    known: &'a BTreeSet<String>,
    nloops: usize,
    nclosures: usize,
    loop_headers: Vec<String>,
    closure_specs: Vec<(String, bool)>, // auto spec body text, specable
    closure_params: Vec<Vec<String>>,
    inline_depth: usize,
    in_closure: usize,
    local_fns: HashMap<String, (Vec<Pat>, Block)>,
}

fn pat_name(p: &Pat) -> String {
    match p {
        Pat::Type(t) => pat_name(&t.pat),
        Pat::Ident(i) => i.ident.to_string(),
        Pat::Reference(r) => pat_name(&r.pat),
        Pat::Paren(r) => pat_name(&r.pat),
        p => toks(p),
    }
}

fn subst_params(text: &str, names: &[String]) -> String {
    let mut t = text.to_string();
    for (i, n) in names.iter().enumerate().rev() {
        t = t.replace(&format!("${i}"), n);
    }
    t
}

/// The text and the arguments of a `format!`, in the order in which they are printed.
fn format_parts(m: &Macro) -> Option<(LitStr, Vec<Expr>)> {
    let list: Vec<Expr> = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
    let Expr::Lit(ExprLit { lit: Lit::Str(text), .. }) = list.first()? else { return None };
    let mut named: HashMap<String, Expr> = HashMap::new();
    let mut positional = vec![];
    for a in &list[1..] {
        match a {
            Expr::Assign(a) => {
                named.insert(toks(&a.left), (*a.right).clone());
            }
            a => positional.push(a.clone()),
        }
    }
    let (mut out, mut args) = (String::new(), vec![]);
    let text = text.value();
    let mut cs = text.chars().peekable();
    let mut positional = positional.into_iter();
    while let Some(c) = cs.next() {
        if (c == '{' || c == '}') && cs.peek() == Some(&c) {
            cs.next();
            out.push(c);
            out.push(c);
        } else if c == '{' {
            let name: String = cs.by_ref().take_while(|c| *c != '}').collect();
            args.push(if name.is_empty() {
                positional.next()?
            } else if let Some(e) = named.get(&name) {
                e.clone()
            } else {
                parse_str(&name).ok().filter(|e| matches!(e, Expr::Path(_)))?
            });
            out.push_str("{}");
        } else {
            out.push(c);
        }
    }
    (args.len() <= 4 && !args.is_empty()).then(|| (LitStr::new(&out, proc_macro2::Span::call_site()), args))
}

fn macro_name(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn strip_try(e: &Expr) -> &Expr {
    match e {
        Expr::Try(t) => strip_try(&t.expr),
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "wrap_err" || m.method == "context" => strip_try(&m.receiver),
        Expr::Paren(p) => strip_try(&p.expr),
        _ => e,
    }
}

struct HasEscape {
    ret: bool,
    tr: bool,
    ret_ok: bool,
}
impl<'a> Visit<'a> for HasEscape {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(r) => {
                self.ret = true;
                let is_err = r.expr.as_ref().map(|x| toks(x).starts_with("Err")).unwrap_or(false);
                if !is_err {
                    self.ret_ok = true;
                }
            }
            Expr::Try(_) => self.tr = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if macro_name(m) == "bail" || macro_name(m) == "ensure" {
            self.ret = true;
        }
    }
}

fn pure_noop(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure_noop),
        Expr::Paren(p) => pure_noop(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && pure_noop(&r.expr),
        Expr::Unary(u) => pure_noop(&u.expr),
        Expr::Binary(b) => {
            !matches!(
                b.op,
                BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)
                    | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_)
                    | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
            ) && pure_noop(&b.left)
                && pure_noop(&b.right)
        }
        Expr::Block(b) => b.block.stmts.iter().all(|s| match s {
            Stmt::Expr(e, _) => pure_noop(e),
            Stmt::Local(l) => l.init.as_ref().map(|i| pure_noop(&i.expr)).unwrap_or(true),
            _ => false,
        }),
        Expr::If(i) => pure_noop(&i.cond) && pure_noop(&Expr::Block(ExprBlock{attrs: vec![], label: None, block: i.then_branch.clone()})) && i.else_branch.as_ref().map(|(_, e)| pure_noop(e)).unwrap_or(true),
        Expr::Call(c) => {
            let f = toks(&c.func).replace(' ', "");
            (f.ends_with("black_box") || f.ends_with("mem::size_of") || f == "drop" || f.ends_with("mem::drop") || f.ends_with("convert::identity"))
                && c.args.iter().all(|a| matches!(a, Expr::Lit(_)) || matches!(a, Expr::Tuple(t) if t.elems.is_empty()))
        }
        Expr::Macro(m) => {
            let n = macro_name(&m.mac);
            n == "debug_assert" || n == "debug_assert_eq" || n == "debug_assert_ne" || n == "line" || n == "stringify"
        }
        _ => false,
    }
}

impl Tx<'_> {
    fn count_drop(&mut self, k: &str) {
        *self.rep.dropped.entry(k.to_string()).or_default() += 1;
    }

    fn should_drop(&mut self, s: &Stmt) -> bool {
        match s {
            Stmt::Macro(m) => {
                let n = macro_name(&m.mac);
                if self.rules.drop_macros.contains(&n) || n.starts_with("debug_assert") {
                    self.count_drop(&format!("{n}!"));
                    return true;
                }
                false
            }
            Stmt::Expr(e, semi) => {
                let inner = strip_try(e);
                let has_rule = self.rules.exprs.iter().any(|(p, _, _)| metavar(p).is_none() && unify(p, e, &mut Binds::new()));
                if let (Expr::Macro(m), false) = (inner, has_rule) {
                    let n = macro_name(&m.mac);
                    if self.rules.drop_macros.contains(&n) && semi.is_some() {
                        self.count_drop(&format!("{n}!"));
                        return true;
                    }
                }
                if semi.is_some() {
                    if pure_noop(e) {
                        self.count_drop("no-op statement");
                        return true;
                    }
                    for p in &self.rules.drop_stmts {
                        let mut b = Binds::new();
                        if unify(p, e, &mut b) {
                            let k = format!("stmt `{}`", toks(p));
                            self.count_drop(&k);
                            return true;
                        }
                    }
                }
                false
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if init.diverge.is_none() {
                        for p in &self.rules.drop_lets {
                            let mut b = Binds::new();
                            if unify(p, &init.expr, &mut b) {
                                let k = format!("let _ = `{}`", toks(p));
                                self.count_drop(&k);
                                return true;
                            }
                        }
                        let pat = toks(&l.pat);
                        if (pat == "_" || pat.starts_with('_')) && !pat.contains(' ') && pure_noop(&init.expr) {
                            self.count_drop("no-op statement");
                            return true;
                        }
                        // `let ()` and typed forms
                        if let Pat::Type(pt) = &l.pat {
                            let p2 = toks(&pt.pat);
                            if p2.starts_with('_') && pure_noop(&init.expr) {
                                self.count_drop("no-op statement");
                                return true;
                            }
                        }
                    }
                }
                false
            }
            Stmt::Item(_) => {
                self.count_drop("nested item");
                true
            }
        }
    }

    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        if self.inline_depth > 4 {
            return None;
        }
        let (inner, tried) = match e {
            Expr::Try(t) => (&*t.expr, true),
            _ => (e, false),
        };
        // a rule for the call takes precedence
        if self.rules.exprs.iter().any(|(p, _, _)| matches!(p, Expr::Call(_) | Expr::Try(_)) && (unify(p, e, &mut Binds::new()) || unify(p, inner, &mut Binds::new()))) {
            return None;
        }
        let (name, args, recv): (String, Vec<Expr>, Option<Expr>) = match inner {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let ok = segs.len() == 1 || (segs.len() == 2 && (segs[0] == "Self" || segs[0] == "self" || segs[0] == "super"));
                    if !ok {
                        return None;
                    }
                    (segs.last().unwrap().clone(), c.args.iter().cloned().collect(), None)
                } else {
                    return None;
                }
            }
            Expr::MethodCall(m) => {
                if toks(&m.receiver) != "self" {
                    return None;
                }
                (m.method.to_string(), m.args.iter().cloned().collect(), Some((*m.receiver).clone()))
            }
            _ => return None,
        };
        if self.known.contains(&name) {
            return None;
        }
        let mut params: Vec<Pat> = vec![];
        let block = if let (Some((ps, block)), None) = (self.local_fns.get(&name), &recv) {
            params = ps.clone();
            block.clone()
        } else {
            let cands = self.fns.get(&name)?;
            if cands.len() != 1 {
                return None;
            }
            let (sig, block) = cands[0].clone();
            for a in sig.inputs.iter() {
                match a {
                    FnArg::Receiver(_) => {
                        // `self` keeps its meaning when called on `self`
                        recv.as_ref()?;
                    }
                    FnArg::Typed(t) => params.push((*t.pat).clone()),
                }
            }
            block
        };
        if params.len() != args.len() {
            return None;
        }
        let mut esc = HasEscape { ret: false, tr: false, ret_ok: false };
        esc.visit_block(&block);
        if !tried && (esc.ret || esc.tr) {
            return None;
        }
        if tried && esc.ret_ok {
            return None;
        }
        // recursion guard
        if toks(&block).contains(&format!("{name} (")) {
            return None;
        }
        self.rep.inlined.push(name.clone());
        let mut block = block;
        let mut tried = tried;
        // `{ ..; Ok(x) }?` is `{ ..; x }`
        if let (true, Some(Stmt::Expr(Expr::Call(c), None))) = (tried, block.stmts.last()) {
            if toks(&c.func) == "Ok" && c.args.len() == 1 {
                let x = c.args[0].clone();
                *block.stmts.last_mut().unwrap() = Stmt::Expr(x, None);
                tried = false;
            }
        }
        let stmts = &block.stmts;
        let tmp: Vec<Ident> = (0..params.len()).map(|i| quote::format_ident!("vx_arg{}_{}", self.rep.inlined.len(), i)).collect();
        let body: Expr = if params.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else {
            parse_quote!({ #(let #tmp = #args;)* #(let #params = #tmp;)* #(#stmts)* })
        };
        Some(if tried { parse_quote!((#body)?) } else { body })
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        // match with string-literal patterns => if chain
        fn lits(p: &Pat, out: &mut Vec<Lit>) -> bool {
            match p {
                Pat::Lit(l) => {
                    if matches!(l.lit, Lit::Str(_)) {
                        out.push(l.lit.clone());
                        true
                    } else {
                        false
                    }
                }
                Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                Pat::Paren(p) => lits(&p.pat, out),
                _ => false,
            }
        }
        let any = m.arms.iter().any(|a| {
            let mut v = vec![];
            lits(&a.pat, &mut v)
        });
        if !any {
            return None;
        }
        let scr = &m.expr;
        let mut out: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let body = &arm.body;
            let mut v = vec![];
            if lits(&arm.pat, &mut v) {
                let guard = arm.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
                let els = out.clone()?;
                out = Some(parse_quote!(if (#(vx_str_eq(vx_scrut, #v))||*) #guard { #body } else { #els }));
            } else {
                match &arm.pat {
                    Pat::Wild(_) => {
                        if arm.guard.is_some() {
                            return None;
                        }
                        out = Some(parse_quote!({ #body }));
                    }
                    Pat::Ident(i) => {
                        let id = &i.ident;
                        match (&arm.guard, out.clone()) {
                            (None, _) => out = Some(parse_quote!({ let #id = vx_scrut; #body })),
                            (Some((_, g)), Some(els)) => {
                                out = Some(parse_quote!({ let #id = vx_scrut; if #g { #body } else { #els } }))
                            }
                            _ => return None,
                        }
                    }
                    _ => return None,
                }
            }
        }
        let chain = out?;
        *self.rep.rewrites.entry("match on string literals => if-chain".into()).or_default() += 1;
        Some(parse_quote!({ let vx_scrut = #scr; #chain }))
    }

    /// `match (a, b.as_slice()) { (P, [x, ..]) => .. }`: patterns without bindings become
    /// tests, slice patterns length tests and element accesses; the last arm is what is left.
    fn tuple_slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let Expr::Tuple(t) = &*m.expr else { return None };
        let is_slice = |p: &Pat| matches!(p, Pat::Slice(_));
        if !m.arms.iter().any(|a| matches!(&a.pat, Pat::Tuple(p) if p.elems.iter().any(is_slice))) {
            return None;
        }
        let ids: Vec<Ident> = (0..t.elems.len()).map(|i| Ident::new(&format!("vx_scrut{i}"), proc_macro2::Span::call_site())).collect();
        let mut out: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let Pat::Tuple(p) = &arm.pat else { return None };
            if arm.guard.is_some() || p.elems.len() != ids.len() {
                return None;
            }
            let mut conds: Vec<Expr> = vec![];
            let mut binds = TokenStream::new();
            for (id, q) in ids.iter().zip(&p.elems) {
                match q {
                    Pat::Wild(_) => {}
                    Pat::Slice(s) => {
                        let rests = s.elems.iter().filter(|e| matches!(e, Pat::Rest(_))).count();
                        let n = s.elems.len() - rests;
                        let n_lit = LitInt::new(&format!("{n}"), proc_macro2::Span::call_site());
                        conds.push(if rests > 0 { parse_quote!(#id.len() >= #n_lit) } else { parse_quote!(#id.len() == #n_lit) });
                        let mut after = false;
                        for (i, e) in s.elems.iter().enumerate() {
                            let k = LitInt::new(&format!("{}", if after { s.elems.len() - i } else { i }), proc_macro2::Span::call_site());
                            match e {
                                Pat::Rest(_) => after = true,
                                Pat::Wild(_) => {}
                                Pat::Ident(x) if x.subpat.is_none() => {
                                    let x = &x.ident;
                                    binds.extend(if after { quote!(let #x = &#id[#id.len() - #k];) } else { quote!(let #x = &#id[#k];) });
                                }
                                _ => return None,
                            }
                        }
                    }
                    q if !binds_names(q) => conds.push(parse_quote!((match &#id { #q => true, _ => false }))),
                    _ => return None,
                }
            }
            let body = &arm.body;
            out = Some(match (out, conds.into_iter().reduce(|a, b| parse_quote!(#a && #b))) {
                (Some(els), Some(c)) => parse_quote!(if #c { #binds #body } else { #els }),
                _ => parse_quote!({ #binds #body }),
            });
        }
        let chain = out?;
        let vals = t.elems.iter();
        *self.rep.rewrites.entry("match on slice patterns => length test".into()).or_default() += 1;
        Some(parse_quote!({ #(let #ids = #vals;)* #chain }))
    }

    fn slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let any = m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_)));
        if !any {
            return None;
        }
        // `match *slice` binds the elements themselves, `match slice` references to them
        let (scr, by_ref) = match &*m.expr {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (&u.expr, false),
            Expr::Index(x) if matches!(&*x.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => (&x.expr, false),
            _ => (&m.expr, true),
        };
        let whole = matches!(&*m.expr, Expr::Index(_));
        // `[..]`, alone or among alternatives, is whatever is left
        let is_rest = |p: &Pat| matches!(p, Pat::Slice(s) if s.elems.len() == 1 && matches!(s.elems[0], Pat::Rest(_)));
        let mut out: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let body = &arm.body;
            match &arm.pat {
                p if arm.guard.is_none() && (is_rest(p) || matches!(p, Pat::Or(o) if o.cases.iter().any(is_rest))) => out = Some(parse_quote!({ #body })),
                Pat::Slice(s) => {
                    let open = matches!(s.elems.last(), Some(Pat::Rest(_)));
                    let n = s.elems.len() - usize::from(open);
                    if s.elems.iter().take(n).any(|p| matches!(p, Pat::Rest(_))) {
                        return None;
                    }
                    let n_lit = LitInt::new(&format!("{n}"), proc_macro2::Span::call_site());
                    let els = out.clone();
                    // bind simple patterns directly, nested patterns through a match
                    let mut inner: TokenStream = match &arm.guard {
                        None => quote!({ #body }),
                        Some((_, g)) => {
                            let els = els.clone()?;
                            quote!({ if #g { #body } else { #els } })
                        }
                    };
                    for (i, p) in s.elems.iter().take(n).enumerate().rev() {
                        let i_lit = LitInt::new(&format!("{i}"), proc_macro2::Span::call_site());
                        match p {
                            Pat::Ident(pi) => {
                                let id = &pi.ident;
                                inner = if by_ref {
                                    quote!({ let #id = &vx_scrut[#i_lit]; #inner })
                                } else {
                                    quote!({ let #id = vx_scrut[#i_lit]; #inner })
                                };
                            }
                            Pat::Wild(_) => {}
                            p => {
                                let els = els.clone()?;
                                inner = quote!({ match &vx_scrut[#i_lit] { #p => #inner, _ => #els } });
                            }
                        }
                    }
                    out = Some(match els {
                        Some(els) if open => parse_quote!(if vx_scrut.len() >= #n_lit #inner else { #els }),
                        Some(els) => parse_quote!(if vx_scrut.len() == #n_lit #inner else { #els }),
                        None => return None,
                    });
                }
                Pat::Wild(_) if arm.guard.is_none() => out = Some(parse_quote!({ #body })),
                Pat::Ident(i) if arm.guard.is_none() => {
                    let id = &i.ident;
                    out = Some(parse_quote!({ let #id = vx_scrut; #body }));
                }
                _ => return None,
            }
        }
        let chain = out?;
        *self.rep.rewrites.entry("match on slice patterns => length test".into()).or_default() += 1;
        if let Expr::MethodCall(c) = &**scr {
            if c.method == "as_slice" {
                let r = &c.receiver;
                // a path is borrowed in place; anything else is kept alive by a binding
                return Some(match &**r {
                    Expr::Path(_) | Expr::Field(_) => parse_quote!({ let vx_scrut = #scr; #chain }),
                    _ => parse_quote!({ let vx_own = #r; let vx_scrut = vx_own.as_slice(); #chain }),
                });
            }
        }
        if whole && !by_ref {
            return Some(parse_quote!({ let vx_own = #scr; let vx_scrut = vx_own.as_slice(); #chain }));
        }
        Some(parse_quote!({ let vx_scrut = #scr; #chain }))
    }
}

/// Whether a pattern binds anything (paths, `None` among them, are taken for constants when capitalised).
fn binds_names(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            let c = i.ident.to_string();
            if i.by_ref.is_some() || i.subpat.is_some() || !c.starts_with(|c: char| c.is_uppercase()) {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

impl VisitMut for Tx<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let mut bare = p.path.clone();
            for s in bare.segments.iter_mut() {
                s.arguments = PathArguments::None;
            }
            let key = toks(&bare).replace(' ', "");
            if let Some(r) = self.rules.types.get(&key) {
                let args = p.path.segments.last().unwrap().arguments.clone();
                let mut r = r.clone();
                if let Type::Path(rp) = &mut r {
                    let last = rp.path.segments.last_mut().unwrap();
                    if last.arguments.is_none() {
                        last.arguments = args;
                    }
                }
                *t = r;
            } else if p.path.segments.len() > 1 && p.qself.is_none() {
                // strip module qualification
                let last = p.path.segments.last().unwrap().clone();
                let mut segs = syn::punctuated::Punctuated::new();
                // keep `Self::Assoc` / single uppercase generic `G::Node`
                let n = p.path.segments.len();
                let prev = p.path.segments[n - 2].clone();
                let ps = prev.ident.to_string();
                if ps.chars().next().unwrap().is_uppercase() {
                    segs.push(prev);
                }
                segs.push(last);
                p.path.segments = segs;
                p.path.leading_colon = None;
            }
        }
        if let Type::Reference(r) = t {
            // `impl Trait`/`dyn` left alone
            let _ = r;
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.drain(..).enumerate() {
            let s = match s {
                // trailing macro expression such as bail!()
                Stmt::Macro(m) => {
                    let nme = macro_name(&m.mac);
                    if nme == "bail" {
                        Stmt::Expr(parse_quote!(return Err(vx_err())), Some(Default::default()))
                    } else if self.rules.drop_macros.contains(&nme) || nme.starts_with("debug_assert") {
                        self.count_drop(&format!("{nme}!"));
                        continue;
                    } else {
                        Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), if i + 1 < n || m.semi_token.is_some() { Some(Default::default()) } else { None })
                    }
                }
                s => s,
            };
            if self.should_drop(&s) {
                continue;
            }
            // a local `let mut f = |..| { .. }` is inlined where it is called
            if let Stmt::Local(Local { pat: Pat::Ident(id), init: Some(init), .. }) = &s {
                if let (true, Expr::Closure(c)) = (id.mutability.is_some(), &*init.expr) {
                    if let Expr::Block(b) = &*c.body {
                        let params = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                        self.local_fns.insert(id.ident.to_string(), (params, b.block.clone()));
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
        if a.comma.is_none() {
            a.comma = Some(Default::default());
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros
        if let Expr::Macro(_) = e {
            let hit = self.rules.exprs.iter().find_map(|(p, r, name)| {
                let mut b = Binds::new();
                (matches!(p, Expr::Macro(_)) && unify(p, e, &mut b)).then(|| (r.clone(), name.clone(), b))
            });
            if let Some((mut x, name, b)) = hit {
                Subst(&b).visit_expr_mut(&mut x);
                *self.rep.rewrites.entry(name).or_default() += 1;
                *e = x;
            }
        }
        if let Expr::Macro(m) = e {
            let n = macro_name(&m.mac);
            match n.as_str() {
                "bail" => *e = parse_quote!(return Err(vx_err())),
                "ensure" => {
                    if let Ok(list) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let c = list.first().unwrap().clone();
                        *e = parse_quote!(if !(#c) { return Err(vx_err()); });
                    }
                }
                "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "print" if self.rules.drop_macros.contains(&n) => {
                    self.count_drop(&format!("{n}!"));
                    *e = parse_quote!(());
                }
                "eyre" | "anyhow" => *e = parse_quote!(vx_err()),
                "format" if self.rules.format_args && format_parts(&m.mac).is_some() => {
                    let (lit, args) = format_parts(&m.mac).unwrap();
                    let f = quote::format_ident!("vx_fmt{}", args.len());
                    *self.rep.rewrites.entry("format!(TEXT, ..) => vx_fmtN(TEXT, ..)".into()).or_default() += 1;
                    *e = parse_quote!(#f(#lit, #(&#args),*));
                }
                "format" | "concat" => *e = parse_quote!(vx_format()),
                "vec" => {
                    if let Ok(list) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        if list.is_empty() {
                            *e = parse_quote!(Vec::new());
                        } else {
                            let items: Vec<Expr> = list.into_iter().collect();
                            *e = parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#items);)* vx_v });
                        }
                    }
                }
                "hashmap" => *e = parse_quote!(HashMap::new()),
                "hashset" => {
                    if let Ok(list) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let items: Vec<Expr> = list.into_iter().collect();
                        *e = parse_quote!({ let mut vx_s = HashSet::new(); #(vx_s.insert(#items);)* vx_s });
                    }
                }
                "matches" => {
                    struct M(Expr, Pat, Option<Expr>);
                    impl syn::parse::Parse for M {
                        fn parse(i: syn::parse::ParseStream) -> Result<M> {
                            let e: Expr = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) {
                                i.parse::<Token![if]>()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _ = i.parse::<Option<Token![,]>>();
                            Ok(M(e, p, g))
                        }
                    }
                    if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() {
                        *e = match g {
                            None => parse_quote!(match #x { #p => true, _ => false, }),
                            Some(g) => parse_quote!(match #x { #p if #g => true, _ => false, }),
                        };
                    }
                }
                "try_exit_code" => {
                    if let Ok(x) = m.mac.parse_body::<Expr>() {
                        *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_c) => { return Ok(Err(vx_c)); } });
                    }
                }
                "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vx_panic()),
                "assert" => {
                    if let Ok(list) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let c = list.first().unwrap().clone();
                        *e = parse_quote!(vx_assert(#c));
                    }
                }
                "assert_eq" => {
                    if let Ok(list) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let a = list[0].clone();
                        let b = list[1].clone();
                        *e = parse_quote!(vx_assert(#a == #b));
                    }
                }
                _ => {}
            }
        }
        if let Expr::Binary(b) = e {
            let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit(&b.left) || lit(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                *self.rep.rewrites.entry("comparison with a string literal => vx_str_eq".into()).or_default() += 1;
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_str_eq(#l, #r)) } else { parse_quote!(!vx_str_eq(#l, #r)) };
            }
        }
        // `for s in m.values_mut() { s.remove(k); }`
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(it), [Stmt::Expr(Expr::MethodCall(rm), Some(_))]) = (&*f.expr, &f.body.stmts[..]) {
                if it.method == "values_mut" && rm.method == "remove" && rm.args.len() == 1 && toks(&rm.receiver) == toks(&f.pat) {
                    let (m, k) = (&it.receiver, &rm.args[0]);
                    *self.rep.rewrites.entry("for s in m.values_mut() { s.remove(k); } => m.vx_remove_each(k)".into()).or_default() += 1;
                    *e = parse_quote!({ #m.vx_remove_each(#k); });
                }
            }
        }
        // inline helpers that have no contract
        while let Some(x) = self.try_inline(e) {
            self.inline_depth += 1;
            *e = x;
            let before = self.inline_depth;
            visit_mut::visit_expr_mut(self, e);
            self.inline_depth = before - 1;
            // children visited already
            return;
        }
        // string-literal and slice matches
        if let Expr::Match(m) = e {
            m.attrs.clear();
            // an arm with both alternatives and a guard becomes one arm per alternative
            if m.arms.iter().any(|a| a.guard.is_some() && alternatives(&a.pat).len() > 1) {
                m.arms = m
                    .arms
                    .iter()
                    .flat_map(|a| {
                        let alts = if a.guard.is_some() { alternatives(&a.pat) } else { vec![a.pat.clone()] };
                        alts.into_iter().map(move |pat| Arm { pat, comma: Some(Default::default()), ..a.clone() })
                    })
                    .collect();
            }
            if let Some(x) = self.str_match(m) {
                *e = x;
            } else if let Expr::Match(m) = e {
                if let Some(x) = self.slice_match(m) {
                    *e = x;
                } else if let Some(x) = self.tuple_slice_match(m) {
                    *e = x;
                }
            }
        }
        // rewrite rules (to fixpoint, outermost first)
        let mut fuel = 20;
        'again: while fuel > 0 {
            fuel -= 1;
            for (p, r, name) in &self.rules.exprs {
                let mut b = Binds::new();
                if unify(p, e, &mut b) {
                    let mut x = r.clone();
                    Subst(&b).visit_expr_mut(&mut x);
                    *self.rep.rewrites.entry(name.clone()).or_default() += 1;
                    if toks(&x) == toks(e) {
                        break 'again;
                    }
                    *e = x;
                    continue 'again;
                }
            }
            break;
        }
        match e {
            Expr::ForLoop(f) => {
                let idx = self.nloops;
                self.nloops += 1;
                self.loop_headers.push(format!("for {} in {}", toks(&f.pat), toks(&f.expr)));
                let mut pat = (*f.pat).clone();
                self.visit_pat_mut(&mut pat);
                let mut it = (*f.expr).clone();
                self.visit_expr_mut(&mut it);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = &body.stmts;
                let label = &f.label;
                // a temporary that is iterated by reference lives as long as the loop
                fn hoist<'a>(e: &'a mut Expr) -> Option<&'a mut Expr> {
                    if let Expr::MethodCall(m) = e {
                        if m.method == "viter" && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                            return Some(&mut *m.receiver);
                        }
                        return hoist(&mut m.receiver);
                    }
                    None
                }
                let mut pre: Vec<Stmt> = vec![];
                if let Some(x) = hoist(&mut it) {
                    let src = quote::format_ident!("vx_src{}", idx);
                    let old = std::mem::replace(x, parse_quote!((#src)));
                    pre.push(parse_quote!(let #src = #old;));
                }
                let its = quote::format_ident!("vx_it{}", idx);
                let is = quote::format_ident!("vx_i{}", idx);
                let idxl = LitInt::new(&format!("{idx}"), proc_macro2::Span::call_site());
                *e = parse_quote!({
                    #(#pre)*
                    let #its = vx_into_iter(#it);
                    let mut #is: usize = 0;
                    vx_before_loop!(#idxl);
                    #label while #is < #its.len() {
                        vx_loop!(#idxl);
                        let #pat = #its.take_at(#is);
                        #is = #is + 1;
                        vx_body_start!(#idxl);
                        #(#stmts)*
                        vx_body_end!(#idxl);
                    }
                    vx_after_loop!(#idxl);
                });
                return;
            }
            Expr::While(w) => {
                let idx = self.nloops;
                self.nloops += 1;
                self.loop_headers.push(format!("while {}", toks(&w.cond)));
                let idxl = LitInt::new(&format!("{idx}"), proc_macro2::Span::call_site());
                let is_let = matches!(&*w.cond, Expr::Let(_));
                visit_mut::visit_expr_while_mut(self, w);
                let cond = &w.cond;
                let stmts = &w.body.stmts;
                let label = &w.label;
                *e = if is_let {
                    if let Expr::Let(l) = &**cond {
                        let (p, x) = (&l.pat, &l.expr);
                        parse_quote!(#label loop { vx_loop!(#idxl); match #x { #p => { vx_body_start!(#idxl); #(#stmts)* vx_body_end!(#idxl); } _ => { break; } } })
                    } else {
                        unreachable!()
                    }
                } else {
                    parse_quote!({ vx_before_loop!(#idxl); #label while #cond { vx_loop!(#idxl); vx_body_start!(#idxl); #(#stmts)* vx_body_end!(#idxl); } vx_after_loop!(#idxl); })
                };
                return;
            }
            Expr::Loop(w) => {
                let idx = self.nloops;
                self.nloops += 1;
                self.loop_headers.push("loop".into());
                let idxl = LitInt::new(&format!("{idx}"), proc_macro2::Span::call_site());
                visit_mut::visit_expr_loop_mut(self, w);
                let stmts = &w.body.stmts;
                let label = &w.label;
                *e = parse_quote!(#label loop { vx_loop!(#idxl); vx_body_start!(#idxl); #(#stmts)* vx_body_end!(#idxl); });
                return;
            }
            Expr::Closure(c) => {
                let idx = self.nclosures;
                self.nclosures += 1;
                self.rep.closures += 1;
                c.attrs.clear();
                c.capture = None;
                c.output = ReturnType::Default;
                let mut binds: Vec<Stmt> = vec![];
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    let simple = match p {
                        Pat::Ident(_) => true,
                        Pat::Type(t) => matches!(*t.pat, Pat::Ident(_)),
                        _ => false,
                    };
                    if simple {
                        continue;
                    }
                    let v = quote::format_ident!("vx_p{}_{}", idx, k);
                    let (orig, ty) = match &*p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        q => (q.clone(), None),
                    };
                    match orig {
                        Pat::Reference(r) => {
                            let q = &r.pat;
                            binds.push(parse_quote!(let #q = *#v;));
                        }
                        Pat::Wild(_) => {}
                        q => binds.push(parse_quote!(let #q = #v;)),
                    }
                    *p = match ty {
                        None => parse_quote!(#v),
                        Some(ty) => Pat::Type(PatType { attrs: vec![], pat: Box::new(parse_quote!(#v)), colon_token: Default::default(), ty: Box::new(ty) }),
                    };
                }
                if !binds.is_empty() {
                    let b = &c.body;
                    c.body = Box::new(parse_quote!({ #(#binds)* #b }));
                }
                self.in_closure += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                self.in_closure -= 1;
                let body = &c.body;
                let txt = toks(body);
                while self.closure_specs.len() <= idx {
                    self.closure_specs.push((String::new(), false));
                }
                self.closure_specs[idx] = (txt, true);
                while self.closure_params.len() <= idx {
                    self.closure_params.push(vec![]);
                }
                self.closure_params[idx] = c.inputs.iter().map(pat_name).collect();
                let idxl = LitInt::new(&format!("{idx}"), proc_macro2::Span::call_site());
                let nb: Expr = parse_quote!({ vx_clo!(#idxl); #body });
                c.body = Box::new(nb);
                return;
            }
            Expr::Path(p) if p.qself.is_none() => {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && !self.known.contains(&s) {
                        if let Some(x) = self.consts.get(&s) {
                            *e = x.clone();
                            return;
                        }
                    }
                }
                // strip lower-case module qualifiers
                let n = p.path.segments.len();
                if n > 1 {
                    let mut segs: Vec<PathSegment> = p.path.segments.iter().cloned().collect();
                    while segs.len() > 1 && segs[0].ident.to_string().chars().next().unwrap().is_lowercase() {
                        segs.remove(0);
                    }
                    p.path.segments = segs.into_iter().collect();
                    p.path.leading_colon = None;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
}

// ---------- printing -----------------------------------------------------
fn pretty(ts: TokenStream, out: &mut String, ind: usize) {
    let mut prev_punct_joint = false;
    let mut prev = String::new();
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if o == "{" {
                    out.push_str(" {\n");
                    out.push_str(&"    ".repeat(ind + 1));
                    pretty(g.stream(), out, ind + 1);
                    out.push('\n');
                    out.push_str(&"    ".repeat(ind));
                    out.push_str("}\n");
                    out.push_str(&"    ".repeat(ind));
                } else {
                    if !prev_punct_joint && !out.ends_with([' ', '(', '[', '&', '!', '.', '<', '*']) && (prev == "," || prev == "=" || prev == "in" || prev == "return" || prev == "match" || prev == "if") {
                        out.push(' ');
                    }
                    out.push_str(o);
                    pretty(g.stream(), out, ind);
                    out.push_str(c);
                }
                prev = c.to_string();
                prev_punct_joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !prev_punct_joint && !matches!(c, ',' | ';' | '.' | '?' | ':') {
                    out.push(' ');
                }
                out.push(c);
                prev_punct_joint = p.spacing() == proc_macro2::Spacing::Joint;
                if c == ';' {
                    out.push('\n');
                    out.push_str(&"    ".repeat(ind));
                }
                prev = c.to_string();
            }
            other => {
                let s = other.to_string();
                let nospace = prev_punct_joint || matches!(prev.as_str(), "." | "!") || out.ends_with(['(', '[', ' ', '\n']) ;
                let joint_life = prev == "'";
                if !(nospace || joint_life) {
                    out.push(' ');
                }
                out.push_str(&s);
                prev = s;
                prev_punct_joint = false;
            }
        }
    }
}

// ---------- template -----------------------------------------------------
fn parse_template(text: &str) -> Vec<Seg> {
    let mut segs = vec![];
    let mut cur = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@fn ") {
            segs.push(Seg::Text(std::mem::take(&mut cur)));
            let mut b = FnBlock::default();
            let mut parts = rest.split_whitespace();
            b.path = parts.next().unwrap().to_string();
            while let Some(p) = parts.next() {
                match p {
                    "as" => b.rename = parts.next().map(|s| s.to_string()),
                    "inline" => b.inline_only = true,
                    _ => panic!("bad fn directive {rest}"),
                }
            }
            let mut sect = ("none".to_string(), 0usize);
            for l in lines.by_ref() {
                let t = l.trim();
                if t == "//@end" {
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    let mut w = d.splitn(2, ' ');
                    let key = w.next().unwrap().to_string();
                    let arg = w.next().unwrap_or("").trim().to_string();
                    match key.as_str() {
                        "loop" => {
                            let mut a = arg.splitn(2, ' ');
                            let n: usize = a.next().unwrap().parse().unwrap();
                            let hdr = a.next().unwrap_or("").trim().to_string();
                            b.loops.entry(n).or_default().0 = hdr;
                            sect = ("loop".into(), n);
                        }
                        "body_start" => sect = ("body_start".into(), arg.parse().unwrap()),
                        "body_end" => sect = ("body_end".into(), arg.parse().unwrap()),
                        "after_loop" => sect = ("after_loop".into(), arg.parse().unwrap()),
                        "before_loop" => sect = ("before_loop".into(), arg.parse().unwrap()),
                        "after_let" => {
                            b.after_lets.push((arg, String::new()));
                            sect = ("after_let".into(), 0)
                        }
                        "closure" => sect = ("closure".into(), arg.parse().unwrap()),
                        "closures" => b.nclosures = Some(arg.parse().unwrap()),
                        "sig" => {
                            b.sig = Some(arg);
                            sect = ("sig".into(), 0)
                        }
                        "ret" => b.ret = Some(arg),
                        "attrs" => b.attrs = arg,
                        "contract" => sect = ("contract".into(), 0),
                        "prologue" => sect = ("prologue".into(), 0),
                        "epilogue" => sect = ("epilogue".into(), 0),
                        k => panic!("unknown directive {k}"),
                    }
                    continue;
                }
                let dst = match sect.0.as_str() {
                    "contract" => &mut b.contract,
                    "prologue" => &mut b.prologue,
                    "epilogue" => &mut b.epilogue,
                    "loop" => &mut b.loops.entry(sect.1).or_default().1,
                    "body_start" => &mut b.loops.entry(sect.1).or_default().2,
                    "body_end" => &mut b.loops.entry(sect.1).or_default().3,
                    "after_loop" => b.after_loops.entry(sect.1).or_default(),
                    "before_loop" => b.before_loops.entry(sect.1).or_default(),
                    "after_let" => &mut b.after_lets.last_mut().unwrap().1,
                    "closure" => b.closures.entry(sect.1).or_default(),
                    "sig" => b.sig.as_mut().unwrap(),
                    _ => continue,
                };
                dst.push_str(l);
                dst.push('\n');
            }
            segs.push(Seg::Fn(b));
        } else if t.starts_with("//@item ") || t.starts_with("//@enum_struct ") {
            segs.push(Seg::Text(std::mem::take(&mut cur)));
            segs.push(Seg::Item(t.split_once(' ').unwrap().1.to_string()));
        } else if let Some(d) = t.strip_prefix("//@") {
            segs.push(Seg::Dir(d.to_string()));
        } else {
            cur.push_str(l);
            cur.push('\n');
        }
    }
    segs.push(Seg::Text(cur));
    segs
}

enum Seg {
    Text(String),
    Fn(FnBlock),
    Item(String),
    Dir(String),
}

fn load<'a>(repo: &str, cache: &'a mut HashMap<String, File>, file: &str) -> Option<&'a File> {
    if !cache.contains_key(file) {
        let t = std::fs::read_to_string(format!("{repo}/{file}")).ok()?;
        let f = parse_file(&t).ok()?;
        cache.insert(file.to_string(), f);
    }
    cache.get(file)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}
fn json_map(v: &BTreeMap<String, usize>) -> String {
    format!("{{{}}}", v.iter().map(|(s, n)| format!("{}: {}", json_str(s), n)).collect::<Vec<_>>().join(", "))
}

fn apply_dir(d: &str, rules: &mut Rules) {
    let (k, a) = d.split_once(' ').unwrap_or((d, ""));
    let a = a.trim();
    match k {
        "rule" => {
            let (p, r) = a.split_once(" => ").expect("rule");
            let p: Expr = parse_str(p.trim()).unwrap_or_else(|e| panic!("rule pattern {p}: {e}"));
            let r2: Expr = parse_str(r.trim()).unwrap_or_else(|e| panic!("rule repl {r}: {e}"));
            rules.exprs.insert(0, (p, r2, a.to_string()));
        }
        "format_args" => rules.format_args = true,
        "drop_stmt" => rules.drop_stmts.push(parse_str(a).unwrap()),
        "drop_let" => rules.drop_lets.push(parse_str(a).unwrap()),
        "drop_macro" => rules.drop_macros.extend(a.split_whitespace().map(|s| s.to_string())),
        "type" => {
            let (p, r) = a.split_once(" => ").expect("type");
            rules.types.insert(p.trim().replace(' ', ""), parse_str(r.trim()).unwrap());
        }
        _ => panic!("unknown directive //@{d}"),
    }
    let _ = &rules.err_macros;
}

fn strip_item(it: &mut Item, tx: &mut Tx) {
    let pubv: Visibility = parse_quote!(pub);
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = pubv.clone();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = pubv.clone();
            }
            tx.visit_item_struct_mut(s);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = pubv;
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            tx.visit_item_enum_mut(s);
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = pubv;
            if let Type::Reference(r) = &mut *c.ty {
                r.lifetime.get_or_insert(parse_quote!('static));
            }
        }
        _ => {}
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut probe = String::new();
    let mut trust: BTreeSet<String> = BTreeSet::new();
    while args.len() > 2 && args[1].starts_with("--") {
        match args[1].as_str() {
            // reachability probe: every extracted function gets `assert(false)`
            "--probe" => probe = args[2].clone(),
            // this function's body is out of reach: keep its contract only
            "--trust" => {
                trust.insert(args[2].clone());
            }
            x => panic!("unknown option {x}"),
        }
        args.drain(1..3);
    }
    let (repo, out, report) = (&args[1], &args[2], &args[3]);
    let templates = &args[4..];
    let mut text = String::new();
    for t in templates {
        text.push_str(&std::fs::read_to_string(t).unwrap());
        text.push('\n');
    }
    let segs = parse_template(&text);
    let mut cache = HashMap::new();
    let mut rules = Rules::default();
    let mut rep = Report {
        functions: vec![],
        dropped: BTreeMap::new(),
        rewrites: BTreeMap::new(),
        misfits: vec![],
        inlined: vec![],
        missing: vec![],
        loops: vec![],
        closures: 0,
        misfit_fns: BTreeMap::new(),
        trusted: vec![],
    };
    // names with a contract or definition in the templates
    let mut known = BTreeSet::new();
    for s in &segs {
        match s {
            Seg::Text(t) => {
                let w: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
                for p in w.windows(2) {
                    if p[0] == "fn" || p[0] == "const" {
                        known.insert(p[1].to_string());
                    }
                }
            }
            Seg::Fn(b) => {
                known.insert(b.path.rsplit("::").next().unwrap().to_string());
            }
            Seg::Item(p) => {
                known.insert(p.rsplit("::").next().unwrap().to_string());
            }
            _ => {}
        }
    }
    let mut o = String::new();
    // line map: which output lines belong to which extracted function
    let mut ranges: Vec<(String, usize, usize)> = vec![];
    for s in segs {
        match s {
            Seg::Text(t) => o.push_str(&t),
            Seg::Dir(d) => apply_dir(&d, &mut rules),
            Seg::Item(spec) => {
                let mut w = spec.split_whitespace();
                let p = w.next().unwrap();
                let derive: Vec<&str> = w.collect();
                let (file, path) = p.split_once(".rs::").expect("item path");
                let file = format!("{file}.rs");
                let segs: Vec<&str> = path.split("::").collect();
                let f = load(repo, &mut cache, &file).cloned();
                let found = f.as_ref().and_then(|f| find_in(&f.items, &segs));
                match found {
                    Some(Found::Item(mut it)) => {
                        let fns = HashMap::new();
                        let consts = HashMap::new();
                        let mut tx = Tx { rules: &rules, rep: &mut rep, fns: &fns, consts: &consts, known: &known, nloops: 0, nclosures: 0, loop_headers: vec![], closure_specs: vec![], closure_params: vec![], inline_depth: 0, in_closure: 0, local_fns: HashMap::new() };
                        strip_item(&mut it, &mut tx);
                        if !derive.is_empty() {
                            let _ = writeln!(o, "#[derive({})]", derive.join(" "));
                        }
                        pretty(it.to_token_stream(), &mut o, 0);
                        o.push('\n');
                        rep.functions.push(format!("type {p}"));
                    }
                    _ => rep.missing.push(p.to_string()),
                }
            }
            Seg::Fn(b) => {
                let (file, path) = b.path.split_once(".rs::").expect("fn path");
                let file = format!("{file}.rs");
                let segs: Vec<&str> = path.split("::").collect();
                let f = load(repo, &mut cache, &file).cloned();
                let found = f.as_ref().and_then(|f| find_in(&f.items, &segs));
                let Some(Found::Fn(mut sig, mut block)) = found else {
                    rep.missing.push(b.path.clone());
                    continue;
                };
                let mut fns = HashMap::new();
                let mut consts = HashMap::new();
                all_fns(&f.as_ref().unwrap().items, &mut fns);
                all_consts(&f.as_ref().unwrap().items, &mut consts);
                let mut tx = Tx { rules: &rules, rep: &mut rep, fns: &fns, consts: &consts, known: &known, nloops: 0, nclosures: 0, loop_headers: vec![], closure_specs: vec![], closure_params: vec![], inline_depth: 0, in_closure: 0, local_fns: HashMap::new() };
                tx.visit_block_mut(&mut block);
                tx.visit_signature_mut(&mut sig);
                let headers = std::mem::take(&mut tx.loop_headers);
                let cspecs = std::mem::take(&mut tx.closure_specs);
                let cparams = std::mem::take(&mut tx.closure_params);
                let params: Vec<String> = sig
                    .inputs
                    .iter()
                    .filter_map(|a| if let FnArg::Typed(t) = a { Some(pat_name(&t.pat)) } else { None })
                    .collect();
                let nclo = tx.nclosures;
                let b = {
                    let mut b = b.clone();
                    b.contract = subst_params(&b.contract, &params);
                    b.prologue = subst_params(&b.prologue, &params);
                    b.epilogue = subst_params(&b.epilogue, &params);
                    match probe.as_str() {
                        "start" => b.prologue.push_str("\nassert(false);\n"),
                        "end" => b.epilogue.push_str("\nassert(false);\n"),
                        _ => {}
                    }
                    for (_, l) in b.loops.iter_mut() {
                        l.1 = subst_params(&l.1, &params);
                        l.2 = subst_params(&l.2, &params);
                        l.3 = subst_params(&l.3, &params);
                    }
                    b
                };
                // fit of the scaffold
                let trusted = trust.contains(&b.path);
                let misfits_before = rep.misfits.len();
                for (i, h) in headers.iter().enumerate() {
                    rep.loops.push(format!("{}#{}: {}", path, i, h));
                    match b.loops.get(&i) {
                        None => rep.misfits.push(format!("{path}: loop {i} `{h}` has no invariant")),
                        Some((want, ..)) => {
                            let w: String = want.split_whitespace().collect();
                            let g: String = h.split_whitespace().collect();
                            if !w.is_empty() && w != g {
                                rep.misfits.push(format!("{path}: loop {i} is `{h}`, invariants were written for `{want}`"));
                            }
                        }
                    }
                }
                if b.loops.keys().any(|k| *k >= headers.len()) {
                    rep.misfits.push(format!("{path}: {} loops found, invariants for more", headers.len()));
                }
                if let Some(n) = b.nclosures {
                    if n != nclo {
                        rep.misfits.push(format!("{path}: {nclo} closures found, specification written for {n}"));
                    }
                } else if let Some(m) = b.closures.keys().max() {
                    if *m >= nclo {
                        rep.misfits.push(format!("{path}: closure {m} not found"));
                    }
                }
                for m in rep.misfits[misfits_before..].iter() {
                    rep.misfit_fns.insert(b.path.clone(), m.clone());
                }
                if trusted {
                    rep.misfits.truncate(misfits_before);
                    rep.misfit_fns.remove(&b.path);
                }
                // signature
                let name = b.rename.clone().unwrap_or_else(|| sig.ident.to_string());
                let mut txt = String::new();
                if trusted {
                    let _ = writeln!(txt, "#[verifier::external_body]");
                }
                if !b.attrs.is_empty() {
                    let _ = writeln!(txt, "{}", b.attrs);
                }
                match &b.sig {
                    Some(s) => txt.push_str(s),
                    None => {
                        sig.ident = Ident::new(&name, proc_macro2::Span::call_site());
                        let gen = &sig.generics;
                        let (g, wh) = (quote!(#gen), gen.where_clause.clone());
                        let inputs = &sig.inputs;
                        let mut t = format!("pub fn {name}");
                        pretty(g, &mut t, 0);
                        t.push('(');
                        pretty(quote!(#inputs), &mut t, 0);
                        t.push(')');
                        if let ReturnType::Type(_, ty) = &sig.output {
                            let r = b.ret.clone().unwrap_or_else(|| "r".into());
                            let _ = write!(t, " -> ({r}: {})", toks(ty));
                        }
                        t.push(' ');
                        pretty(quote!(#wh), &mut t, 0);
                        t.push('\n');
                        txt.push_str(&t);
                    }
                }
                txt.push_str(&b.contract);
                let mut body = String::new();
                for (k, (name, _)) in b.after_lets.iter().enumerate() {
                    // NAME or NAME#N: the N-th such binding, from 0
                    let (name, skip) = name.split_once('#').map(|(a, b)| (a, b.parse().unwrap())).unwrap_or((name, 0usize));
                    let mut m = AfterLet { name, skip, k, done: false };
                    m.visit_block_mut(&mut block);
                    if !m.done && !trusted {
                        let msg = format!("{}: no binding named {name}", b.path);
                        rep.misfits.push(msg.clone());
                        rep.misfit_fns.insert(b.path.clone(), msg);
                    }
                }
                let mut stmts = block.stmts.clone();
                if !b.epilogue.is_empty() {
                    if let Some(Stmt::Expr(t, None)) = stmts.last().cloned() {
                        stmts.pop();
                        match &sig.output {
                            ReturnType::Type(_, ty) => {
                                stmts.push(parse_quote!(let vx_ret: #ty = #t;));
                                stmts.push(parse_quote!(vx_epilogue!();));
                                stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                            }
                            ReturnType::Default => {
                                stmts.push(Stmt::Expr(t, Some(Default::default())));
                                stmts.push(parse_quote!(vx_epilogue!();));
                            }
                        }
                    } else {
                        stmts.push(parse_quote!(vx_epilogue!();));
                    }
                }
                pretty(quote!({ vx_prologue!(); #(#stmts)* }), &mut body, 0);
                body = replace_marker(&body, "vx_epilogue", None, &b.epilogue, false);
                // markers
                body = replace_marker(&body, "vx_prologue", None, &b.prologue, false);
                for (i, _) in headers.iter().enumerate() {
                    let d = Default::default();
                    let (_, inv, bs, be) = b.loops.get(&i).unwrap_or(&d);
                    body = replace_marker(&body, "vx_loop", Some(i), inv, true);
                    body = replace_marker(&body, "vx_body_start", Some(i), bs, false);
                    body = replace_marker(&body, "vx_body_end", Some(i), be, false);
                    body = replace_marker(&body, "vx_before_loop", Some(i), b.before_loops.get(&i).map(|s| s.as_str()).unwrap_or(""), false);
                    body = replace_marker(&body, "vx_after_loop", Some(i), b.after_loops.get(&i).map(|s| s.as_str()).unwrap_or(""), false);
                }
                for (k, (_, text)) in b.after_lets.iter().enumerate() {
                    body = replace_marker(&body, "vx_after_let", Some(k), text, false);
                }
                for i in 0..nclo {
                    let spec = match b.closures.get(&i) {
                        Some(s) => subst_params(s, &cparams[i]),
                        None => {
                            let (t, _) = &cspecs[i];
                            let t = strip_markers(t);
                            format!(" -> (vx_r: _) ensures vx_eqs(vx_r, {t}) ")
                        }
                    };
                    body = replace_marker(&body, "vx_clo", Some(i), &spec, true);
                }
                if trusted {
                    body = "{ unimplemented!() }".into();
                }
                txt.push_str(&body);
                let start = o.lines().count() + 1;
                o.push_str(&txt);
                o.push('\n');
                let end = o.lines().count();
                ranges.push((b.path.clone(), start, end));
                if trusted {
                    rep.trusted.push(b.path.clone());
                } else {
                    rep.functions.push(b.path.clone());
                }
            }
        }
    }
    o.push_str("fn main() {}\n");
    std::fs::write(out, &o).unwrap();
    let mut j = String::new();
    let _ = writeln!(j, "{{");
    let _ = writeln!(j, "\"functions\": {},", json_list(&rep.functions));
    let _ = writeln!(j, "\"missing\": {},", json_list(&rep.missing));
    let _ = writeln!(j, "\"misfits\": {},", json_list(&rep.misfits));
    let mf: Vec<String> = rep.misfit_fns.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(v))).collect();
    let _ = writeln!(j, "\"misfit_fns\": {{{}}},", mf.join(", "));
    let _ = writeln!(j, "\"trusted\": {},", json_list(&rep.trusted));
    let _ = writeln!(j, "\"inlined\": {},", json_list(&rep.inlined));
    let _ = writeln!(j, "\"loops\": {},", json_list(&rep.loops));
    let _ = writeln!(j, "\"dropped\": {},", json_map(&rep.dropped));
    let _ = writeln!(j, "\"rewrites\": {},", json_map(&rep.rewrites));
    let r: Vec<String> = ranges.iter().map(|(p, a, b)| format!("[{}, {}, {}]", json_str(p), a, b)).collect();
    let _ = writeln!(j, "\"ranges\": [{}]", r.join(", "));
    let _ = writeln!(j, "}}");
    std::fs::write(report, j).unwrap();
}

fn strip_markers(t: &str) -> String {
    // nested closure markers inside a specification body
    let mut s = t.to_string();
    for m in ["vx_clo"] {
        while let Some(p) = s.find(&format!("{m} ! (")) {
            let e = s[p..].find(';').unwrap() + p + 1;
            s.replace_range(p..e, "");
        }
    }
    s
}

/// Replace `marker!(i);` by text. With `hoist`, the text goes in front of the
/// opening brace that precedes the marker.
/// Marks the first `let` that binds a name.
struct AfterLet<'a> {
    name: &'a str,
    skip: usize,
    k: usize,
    done: bool,
}
struct BindsName<'a>(&'a str, bool);
impl<'a> VisitMut for BindsName<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.1 |= p.ident == self.0;
    }
}
impl<'a> VisitMut for AfterLet<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut at = None;
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if self.done {
                return;
            }
            visit_mut::visit_stmt_mut(self, s);
            if self.done {
                return;
            }
            if let Stmt::Local(l) = s {
                let mut v = BindsName(self.name, false);
                v.visit_pat_mut(&mut l.pat);
                if v.1 && self.skip > 0 {
                    self.skip -= 1;
                } else if v.1 {
                    at = Some(i);
                    break;
                }
            }
        }
        if let Some(i) = at {
            let k = LitInt::new(&format!("{}", self.k), proc_macro2::Span::call_site());
            b.stmts.insert(i + 1, parse_quote!(vx_after_let!(#k);));
            self.done = true;
        }
    }
}

fn replace_marker(body: &str, marker: &str, idx: Option<usize>, text: &str, hoist: bool) -> String {
    let mut out = String::new();
    let mut rest = body;
    loop {
        let Some(p) = rest.find(marker) else { break };
        // parse "marker ! ( idx ) ;"
        let after = &rest[p + marker.len()..];
        let b = after.as_bytes();
        let mut k = 0;
        while k < b.len() && b[k] != b'(' {
            k += 1;
        }
        let close = after[k..].find(')').unwrap() + k;
        let inner = after[k + 1..close].trim();
        let ok = match idx {
            None => inner.is_empty(),
            Some(i) => inner == i.to_string(),
        };
        let boundary = p == 0 || !rest.as_bytes()[p - 1].is_ascii_alphanumeric() && rest.as_bytes()[p - 1] != b'_';
        let exact = after[..k].trim() == "!";
        if !ok || !boundary || !exact {
            out.push_str(&rest[..p + marker.len()]);
            rest = after;
            continue;
        }
        let semi = after[close..].find(';').unwrap() + close + 1;
        let before = &rest[..p];
        if hoist {
            let brace = before.rfind('{').unwrap();
            out.push_str(&before[..brace]);
            out.push('\n');
            out.push_str(text);
            out.push_str(&before[brace..]);
        } else {
            out.push_str(before);
            out.push('\n');
            out.push_str(text);
        }
        rest = &after[semi..];
    }
    out.push_str(rest);
    out
}
