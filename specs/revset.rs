// C17: what a revset expression means.

//@rule __E.map_err(EvalError::OtherError) => vx_eval(__E)
//@rule __A.clone().into_owned() => __A.clone()
//@rule __A.to_string() => vx_owned(__A)
//@rule __A.to_owned() => vx_owned(__A)
//@rule eval_name(ctx, name) => eval_name(ctx, name.as_str())
//@rule eval_fn(ctx, name, args) => eval_fn(ctx, name.as_str(), args.as_slice())
//@rule name.parse()? => vx_parse(name)?
//@rule Pattern::new(pattern)? => Pattern::new(pattern.as_str())?
//@rule subject.strip_suffix('\n').unwrap_or(subject) => vx_chomp(subject)
//@rule pattern == subject => vx_same(pattern, subject)
//@rule subject.contains(pattern) => vx_has(subject, pattern)
//@rule &time <= date => vx_le(&time, date)
//@rule &time >= date => vx_le(date, &time)
//@rule &time < date => !vx_le(date, &time)
//@rule &time > date => !vx_le(&time, date)
//@rule pattern.strip_prefix(__P) => vx_prefix(pattern, __P)
//@rule glob::Pattern::new(pattern) => GlobPattern::new(pattern)
//@rule read_all_test_results(repo, commit).unwrap_or_default().into_iter() => vx_results(repo, commit)
//@rule pattern.matches_text(&command.to_string()) => pattern.matches_text(command.text())
//@rule read_latest_test_command(ctx.repo).ok_or(EvalError::NoLatestTestCommand) => vx_latest(ctx.repo)
//@rule eval1_pattern(ctx, function_name, args).map(Some) => vx_some(eval1_pattern(ctx, function_name, args))
//@rule format!("{}", args[0]) => vx_format()
//@rule u64::try_from(__N).unwrap() => (__N as u64)
//@rule CommitSet::from_iter(__A.into_iter(), Hints::default()) => vx_found(__A)
//@rule eval0_or_1(ctx, name, args)?.unwrap_or_else(__F) => vx_or(eval0_or_1(ctx, name, args)?, &ctx.dag.head_commit)
//@rule make_pattern_matcher(ctx, name, args, Box::new(__F)) => vx_matching(ctx, __F)
//@rule result.into_iter().collect::<CommitSet>() => result.vinto_iter().collect()
//@rule EventLogDb::new(&conn) => vx_db(&conn)
//@rule ctx.repo.get_db_conn() => vx_conn(ctx.repo)
//@rule EventReplayer::from_event_log_db(ctx.effects, ctx.repo, &event_log_db) => vx_replayer(ctx.repo)
//@rule &mut *ctx.dag => &mut ctx.dag
//@rule &mut dag => dag
//@rule Ok(oid.into()) => Ok(CommitSet::from(oid))
//@rule commit.get_oid().into() => CommitSet::from(commit.get_oid())
//@type ParseError => VErr
//@type ParseIntError => VErr
//@type PatternError => VErr
//@type RepoError => VErr
//@type glob::Pattern => GlobPattern
//@type regex::Regex => Regex
//@type eden_dag::Error => VErr
//@rule __R.get_paths_touched_by_commit(commit).map_err(PatternError::Repo)? => vx_paths(__R, commit)?
//@rule touched_paths.into_iter() => touched_paths
//@drop_macro warn
verus! {
pub enum Expr { Name(String), FunctionCall(String, Vec<Expr>) }
pub struct Context<'a> { pub effects: &'a Effects, pub repo: &'a Repo, pub dag: Dag }
//@item git-branchless-revset/src/eval.rs::EvalError
pub type EvalResult = Result<CommitSet, EvalError>;
impl From<VErr> for EvalError { #[verifier::external_body] fn from(e: VErr) -> EvalError { unimplemented!() } }
#[verifier::external_body]
pub fn vx_eval<T>(r: EyreResult<T>) -> (s: Result<T, EvalError>) ensures r is Ok <==> s is Ok, r is Ok ==> s->Ok_0 == r->Ok_0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub uninterp spec fn number(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn vx_parse(s: &String) -> (r: Result<usize, EvalError>) ensures r is Ok ==> number(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_some<T>(r: Result<T, EvalError>) -> (s: Result<Option<T>, EvalError>) ensures r is Ok <==> s is Ok, r is Ok ==> s->Ok_0 == Some(r->Ok_0) { unimplemented!() }
pub fn vx_or(o: Option<CommitSet>, d: &CommitSet) -> (r: CommitSet) ensures r@ == (if o is Some { o->Some_0@ } else { d@ }) { match o { Some(s) => s, None => d.clone() } }
#[verifier::external_body]
pub fn vx_found(v: Vec<Result<NonZeroOid, VErr>>) -> (r: CommitSet) ensures forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> v@.contains(Ok::<NonZeroOid, VErr>(x)) { unimplemented!() }

// ---- what is named -----------------------------------------------------------------
pub struct ResolvedReferenceInfo { pub oid: Option<NonZeroOid>, pub reference_name: Option<ReferenceName> }
#[verifier::external_body]
pub struct Commit { x: u64 }
#[verifier::external_body]
pub struct Signature { x: u64 }
#[verifier::external_body]
pub struct Time { x: u64 }
impl Signature {
    pub uninterp spec fn name(&self) -> Option<Seq<char>>;
    pub uninterp spec fn email(&self) -> Option<Seq<char>>;
    pub uninterp spec fn time(&self) -> Time;
    #[verifier::external_body]
    pub fn get_name(&self) -> (r: Option<&str>) ensures r is Some <==> self.name() is Some, r is Some ==> r->Some_0@ == self.name()->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_email(&self) -> (r: Option<&str>) ensures r is Some <==> self.email() is Some, r is Some ==> r->Some_0@ == self.email()->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_time(&self) -> (r: Time) ensures r == self.time() { unimplemented!() }
}
impl Commit {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    pub uninterp spec fn author(&self) -> Signature;
    pub uninterp spec fn committer(&self) -> Signature;
    pub uninterp spec fn parent_count(&self) -> usize;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_author(&self) -> (r: Signature) ensures r == self.author() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_committer(&self) -> (r: Signature) ensures r == self.committer() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parent_count(&self) -> (r: usize) ensures r == self.parent_count() { unimplemented!() }
}
impl Repo {
    pub uninterp spec fn head(&self) -> Option<NonZeroOid>;
    pub uninterp spec fn named(&self, n: Seq<char>) -> Option<NonZeroOid>;
    pub uninterp spec fn commit(&self, o: NonZeroOid) -> Commit;
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<ResolvedReferenceInfo>) ensures r is Ok ==> r->Ok_0.oid == self.head() { unimplemented!() }
    #[verifier::external_body]
    pub fn revparse_single_commit(&self, n: &str) -> (r: EyreResult<Option<Commit>>)
        ensures r is Ok && r->Ok_0 is Some ==> self.named(n@) == Some(r->Ok_0->Some_0.oid()), r is Ok && r->Ok_0 is None ==> self.named(n@) is None { unimplemented!() }
}

// ---- the commit graph grows as commits are named -------------------------------------
impl Dag {
    pub open spec fn told_same(&self, o: &Dag) -> bool {
        self.observed_commits == o.observed_commits && self.obsolete_commits == o.obsolete_commits && self.head_commit == o.head_commit && self.main_branch_commit == o.main_branch_commit && self.branch_commits == o.branch_commits
    }
    pub open spec fn ok(&self) -> bool { self.wf() && self.ready() }
}
pub open spec fn later(a: &Dag, b: &Dag) -> bool { b.told_same(a) && grew(&a.inner, &b.inner) && b.ok() }

/// `e` evaluated in `a` is `s`, and leaves `b`: the least relation closed under axiom_name and axiom_call.
pub uninterp spec fn yields(r: &Repo, a: Dag, e: Expr, s: S, b: Dag) -> bool;
pub uninterp spec fn calls(r: &Repo, a: Dag, f: Seq<char>, args: Seq<Expr>, s: S, b: Dag) -> bool;
pub open spec fn names(r: &Repo, n: Seq<char>, s: S) -> bool {
    if n == "."@ || n == "@"@ { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> r.head() == Some(x) }
    else { r.named(n) is Some && forall|x: NonZeroOid| #[trigger] s.contains(x) <==> r.named(n) == Some(x) }
}
#[verifier::external_body]
pub proof fn axiom_name(r: &Repo, a: Dag, e: Expr, s: S, b: Dag)
    requires e is Name, names(r, e->Name_0@, s), later(&a, &b), b.inner == a.inner || forall|x: NonZeroOid| #[trigger] s.contains(x) ==> b.inner.known(x)
    ensures yields(r, a, e, s, b) {}
/// Only visible commits are found by functions.
#[verifier::external_body]
pub proof fn axiom_call(r: &Repo, a: Dag, e: Expr, t: S, s: S, b: Dag)
    requires e is FunctionCall, calls(r, a, e->FunctionCall_0@, e->FunctionCall_1@, t, b), forall|x: NonZeroOid| #[trigger] s.contains(x) <==> t.contains(x) && b.is_visible(x)
    ensures yields(r, a, e, s, b) {}
/// Which function is called by a name, and aliases (assumed; exercised by name).
#[verifier::external_body]
pub fn eval_fn(ctx: &mut Context, name: &str, args: &[Expr]) -> (r: EvalResult)
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> later(&old(ctx).dag, &final(ctx).dag) && calls(old(ctx).repo, old(ctx).dag, name@, args@, r->Ok_0@, final(ctx).dag)
{ unimplemented!() }

//@fn git-branchless-revset/src/eval.rs::eval_name
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> later(&old(ctx).dag, &final(ctx).dag) && names(old(ctx).repo, name@, r->Ok_0@)
        && (final(ctx).dag.inner == old(ctx).dag.inner || forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) ==> final(ctx).dag.inner.known(x))
//@end
//@fn git-branchless-revset/src/eval.rs::eval_inner
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> later(&old(ctx).dag, &final(ctx).dag) && yields(old(ctx).repo, old(ctx).dag, *expr, r->Ok_0@, final(ctx).dag)
//@after_let result#0
    let ghost t = result@;
//@after_let result#1
    proof { axiom_call(old(ctx).repo, old(ctx).dag, *expr, t, result@, ctx.dag); }
//@epilogue
    proof { if *expr is Name && vx_ret is Ok { axiom_name(old(ctx).repo, old(ctx).dag, *expr, vx_ret->Ok_0@, ctx.dag); } }
//@end

// ---- arguments -----------------------------------------------------------------------
pub open spec fn kept(a: Context, b: Context) -> bool { b.repo == a.repo && b.effects == a.effects }
pub open spec fn one(a: Context, b: Context, args: Seq<Expr>, s: S) -> bool { args.len() == 1 && later(&a.dag, &b.dag) && yields(a.repo, a.dag, args[0], s, b.dag) }
pub open spec fn two(a: Context, b: Context, args: Seq<Expr>, s: S, t: S) -> bool {
    args.len() == 2 && later(&a.dag, &b.dag) && exists|m: Dag| #[trigger] yields(a.repo, a.dag, args[0], s, m) && yields(a.repo, m, args[1], t, b.dag)
}
pub open spec fn counted(a: Context, b: Context, args: Seq<Expr>, s: S, n: usize) -> bool {
    args.len() == 2 && later(&a.dag, &b.dag) && yields(a.repo, a.dag, args[0], s, b.dag) && args[1] is Name && number(args[1]->Name_0@) == Some(n)
}
//@fn git-branchless-revset/src/eval.rs::eval0
//@contract
    ensures *final(ctx) == *old(ctx), r is Ok <==> args@.len() == 0
//@end
//@fn git-branchless-revset/src/eval.rs::eval0_or_1
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> if args@.len() == 0 { *final(ctx) == *old(ctx) && r->Ok_0 is None } else { r->Ok_0 is Some && one(*old(ctx), *final(ctx), args@, r->Ok_0->Some_0@) }
//@end
//@fn git-branchless-revset/src/eval.rs::eval1
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> one(*old(ctx), *final(ctx), args@, r->Ok_0@)
//@end
//@fn git-branchless-revset/src/eval.rs::eval2
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> two(*old(ctx), *final(ctx), args@, r->Ok_0.0@, r->Ok_0.1@)
//@end
//@fn git-branchless-revset/src/eval.rs::eval_number_rhs
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> counted(*old(ctx), *final(ctx), args@, r->Ok_0.0@, r->Ok_0.1)
//@end

pub open spec fn stacked(d: &Dag, s: S, r: S) -> bool { forall|x: NonZeroOid| #[trigger] r.contains(x) <==> d.in_stack(s, x) }
// ---- functions of sets ----------------------------------------------------------------
//@fn git-branchless-revset/src/builtins.rs::fn_all
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> args@.len() == 0 && *final(ctx) == *old(ctx) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.is_visible(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_none
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> args@.len() == 0 && *final(ctx) == *old(ctx) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> false
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_main
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> args@.len() == 0 && *final(ctx) == *old(ctx) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.main_branch_commit@.contains(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_public
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> args@.len() == 0 && *final(ctx) == *old(ctx) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.is_public(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_draft
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> args@.len() == 0 && *final(ctx) == *old(ctx) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.is_draft(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_union
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, t: S| #[trigger] two(*old(ctx), *final(ctx), args@, s, t) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> s.contains(x) || t.contains(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_intersection
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, t: S| #[trigger] two(*old(ctx), *final(ctx), args@, s, t) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> s.contains(x) && t.contains(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_difference
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, t: S| #[trigger] two(*old(ctx), *final(ctx), args@, s, t) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> s.contains(x) && !t.contains(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_only
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, t: S| #[trigger] two(*old(ctx), *final(ctx), args@, s, t) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.inner.up(s, x) && !final(ctx).dag.inner.up(t, x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_range
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, t: S| #[trigger] two(*old(ctx), *final(ctx), args@, s, t) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.inner.down(s, x) && final(ctx).dag.inner.up(t, x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_not
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.is_visible(x) && !s.contains(x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_ancestors
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.inner.up(s, x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_descendants
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> final(ctx).dag.inner.down(s, x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_parents
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && final(ctx).dag.inner.parent(x, y)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_children
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && final(ctx).dag.inner.parent(y, x)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_siblings
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> !s.contains(x) && exists|p: NonZeroOid, y: NonZeroOid| #![trigger s.contains(y), final(ctx).dag.inner.parent(p, x)] s.contains(y) && final(ctx).dag.inner.parent(p, y) && final(ctx).dag.inner.parent(p, x)
//@epilogue
    proof {
        if vx_ret is Ok {
            let r = vx_ret->Ok_0@; let i = ctx.dag.inner;
            assert(one(*old(ctx), *ctx, args@, expr@));
            assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> !expr@.contains(x) && exists|p: NonZeroOid, y: NonZeroOid| #![trigger expr@.contains(y), i.parent(p, x)] expr@.contains(y) && i.parent(p, y) && i.parent(p, x) by {
                if r.contains(x) { let p = choose|p: NonZeroOid| #![trigger sibs.contains(p)] sibs.contains(p) && i.parent(p, x); let y = choose|y: NonZeroOid| #![trigger expr@.contains(y)] expr@.contains(y) && i.parent(p, y); }
                if !expr@.contains(x) && exists|p: NonZeroOid, y: NonZeroOid| #![trigger expr@.contains(y), i.parent(p, x)] expr@.contains(y) && i.parent(p, y) && i.parent(p, x) {
                    let (p, y) = choose|p: NonZeroOid, y: NonZeroOid| #![trigger expr@.contains(y), i.parent(p, x)] expr@.contains(y) && i.parent(p, y) && i.parent(p, x);
                    assert(sibs.contains(p));
                }
            }
        }
    }
//@after_let parents
    let ghost sibs = parents@;
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_roots
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && final(ctx).dag.inner.are_roots(s, r->Ok_0@)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_heads
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && final(ctx).dag.inner.are_heads(s, r->Ok_0@)
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_stack
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> if args@.len() == 0 { *final(ctx) == *old(ctx) && stacked(&final(ctx).dag, final(ctx).dag.head_commit@, r->Ok_0@) } else { exists|s: S| #[trigger] one(*old(ctx), *final(ctx), args@, s) && stacked(&final(ctx).dag, s, r->Ok_0@) }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_exactly
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|n: usize| #[trigger] counted(*old(ctx), *final(ctx), args@, r->Ok_0@, n) && r->Ok_0@.len() == n
//@after_let actual_len
    let ghost n = expected_len;
    let ghost ls = lhs@;
    proof { assert(counted(*old(ctx), *ctx, args@, lhs@, expected_len)); }
//@epilogue
    proof { if vx_ret is Ok { assert(ls == vx_ret->Ok_0@); assert(ls.len() == n); assert(counted(*old(ctx), *ctx, args@, vx_ret->Ok_0@, n)); } }
//@end
pub open spec fn nth_parents(i: &Inner, s: S, n: usize, r: S) -> bool {
    forall|x: NonZeroOid| #[trigger] r.contains(x) <==> exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && 1 <= n <= i.parents_of(y).len() && x == i.parents_of(y)[n - 1]
}
pub open spec fn nth_parent(i: &Inner, y: NonZeroOid, n: usize) -> Option<NonZeroOid> { if 1 <= n <= i.parents_of(y).len() { Some(i.parents_of(y)[n - 1]) } else { None } }
pub open spec fn nth_first(i: &Inner, y: NonZeroOid, n: usize) -> Option<NonZeroOid> { i.firsts(y, n as u64) }
/// What was found for the first `k` of `v`.
pub open spec fn found(v: Seq<NonZeroOid>, k: int, f: spec_fn(NonZeroOid) -> Option<NonZeroOid>, r: Seq<Result<NonZeroOid, VErr>>) -> bool {
    &&& forall|i: int| 0 <= i < k && f(#[trigger] v[i]) is Some ==> r.contains(Ok(f(v[i])->Some_0))
    &&& forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]) is Ok && exists|i: int| 0 <= i < k && f(#[trigger] v[i]) == Some(r[j]->Ok_0)
}
pub open spec fn image(s: S, f: spec_fn(NonZeroOid) -> Option<NonZeroOid>, r: S) -> bool {
    forall|x: NonZeroOid| #[trigger] r.contains(x) <==> exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && f(y) == Some(x)
}
pub proof fn lemma_found(v: Seq<NonZeroOid>, s: S, f: spec_fn(NonZeroOid) -> Option<NonZeroOid>, q: Seq<Result<NonZeroOid, VErr>>, r: S)
    requires found(v, v.len() as int, f, q), forall|x: NonZeroOid| #[trigger] v.contains(x) <==> s.contains(x), forall|x: NonZeroOid| #[trigger] r.contains(x) <==> q.contains(Ok::<NonZeroOid, VErr>(x))
    ensures image(s, f, r)
{
    assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && f(y) == Some(x) by {
        if r.contains(x) {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == Ok::<NonZeroOid, VErr>(x);
            let i = choose|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) == Some(q[j]->Ok_0);
            assert(v.contains(v[i])); assert(s.contains(v[i]));
        }
        if exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && f(y) == Some(x) {
            let y = choose|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && f(y) == Some(x);
            assert(v.contains(y)); let i = choose|i: int| 0 <= i < v.len() && v[i] == y; assert(f(v[i]) is Some);
        }
    }
}
pub proof fn lemma_found_step(v: Seq<NonZeroOid>, k: int, f: spec_fn(NonZeroOid) -> Option<NonZeroOid>, q: Seq<Result<NonZeroOid, VErr>>, q2: Seq<Result<NonZeroOid, VErr>>)
    requires 0 <= k < v.len(), found(v, k, f, q), q2 == (match f(v[k]) { Some(x) => q.push(Ok(x)), None => q })
    ensures found(v, k + 1, f, q2)
{
    assert forall|i: int| 0 <= i < k + 1 && f(#[trigger] v[i]) is Some implies q2.contains(Ok(f(v[i])->Some_0)) by {
        if i < k { let w = choose|w: int| 0 <= w < q.len() && q[w] == Ok::<NonZeroOid, VErr>(f(v[i])->Some_0); assert(q2[w] == q[w]); }
        else { assert(q2[q.len() as int] == Ok::<NonZeroOid, VErr>(f(v[k])->Some_0)); }
    }
    assert forall|j: int| 0 <= j < q2.len() implies (#[trigger] q2[j]) is Ok && exists|i: int| 0 <= i < k + 1 && f(#[trigger] v[i]) == Some(q2[j]->Ok_0) by {
        if j < q.len() { assert(q2[j] == q[j]); let i = choose|i: int| 0 <= i < k && f(#[trigger] v[i]) == Some(q[j]->Ok_0); }
        else { assert(f(v[k]) == Some(q2[j]->Ok_0)); }
    }
}
//@fn git-branchless-revset/src/builtins.rs::fn_parents_nth
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, n: usize| #[trigger] counted(*old(ctx), *final(ctx), args@, s, n) && image(s, |y: NonZeroOid| nth_parent(&final(ctx).dag.inner, y, n), r->Ok_0@)
//@after_let commit_oids
    let ghost f = |y: NonZeroOid| nth_parent(&ctx.dag.inner, y, n);
    let ghost vs = commit_oids@;
    let ghost nn = n;
//@loop 0
    invariant vx_it0@ == vs, found(vs, vx_i0 as int, f, result@), vx_i0 <= vs.len(), kept(*old(ctx), *ctx), ctx.dag.ok(), f == (|y: NonZeroOid| nth_parent(&ctx.dag.inner, y, nn)), n as int == nn as int
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = result@;
//@body_end 0
    proof { lemma_found_step(vs, vx_i0 - 1, f, before, result@); }
//@after_loop 0
    proof { assert(vx_i0 == vs.len()); }
//@epilogue
    proof { if vx_ret is Ok { lemma_found(vs, lhs@, f, result@, vx_ret->Ok_0@); assert(counted(*old(ctx), *ctx, args@, lhs@, nn)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_nthancestor
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> exists|s: S, n: usize| #[trigger] counted(*old(ctx), *final(ctx), args@, s, n) && image(s, |y: NonZeroOid| nth_first(&final(ctx).dag.inner, y, n), r->Ok_0@)
//@after_let commit_oids
    let ghost f = |y: NonZeroOid| nth_first(&ctx.dag.inner, y, n);
    let ghost vs = commit_oids@;
    let ghost nn = n;
//@loop 0
    invariant vx_it0@ == vs, found(vs, vx_i0 as int, f, result@), vx_i0 <= vs.len(), kept(*old(ctx), *ctx), ctx.dag.ok(), f == (|y: NonZeroOid| nth_first(&ctx.dag.inner, y, nn)), n as int == nn as int
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = result@;
//@body_end 0
    proof { lemma_found_step(vs, vx_i0 - 1, f, before, result@); }
//@after_loop 0
    proof { assert(vx_i0 == vs.len()); }
//@epilogue
    proof { if vx_ret is Ok { lemma_found(vs, lhs@, f, result@, vx_ret->Ok_0@); assert(counted(*old(ctx), *ctx, args@, lhs@, nn)); } }
//@end

// ---- patterns ----------------------------------------------------------------------
#[verifier::external_body]
pub struct GlobPattern { x: u64 }
#[verifier::external_body]
pub struct Regex { x: u64 }
pub struct Local {}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { x: std::marker::PhantomData<T> }
pub uninterp spec fn glob_of(t: Seq<char>) -> GlobPattern;
pub uninterp spec fn regex_of(t: Seq<char>) -> Regex;
pub uninterp spec fn date_of(t: Seq<char>, d: DateTime<Local>) -> bool;
impl GlobPattern {
    pub uninterp spec fn accepts(&self, t: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn new(t: &str) -> (r: Result<GlobPattern, VErr>) ensures r is Ok ==> r->Ok_0 == glob_of(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn matches(&self, t: &str) -> (r: bool) ensures r == self.accepts(t@) { unimplemented!() }
}
impl Regex {
    pub uninterp spec fn accepts(&self, t: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn new(t: &str) -> (r: Result<Regex, VErr>) ensures r is Ok ==> r->Ok_0 == regex_of(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, t: &str) -> (r: bool) ensures r == self.accepts(t@) { unimplemented!() }
}
impl DateTime<Local> { pub uninterp spec fn at(&self) -> int; }
impl Time {
    pub uninterp spec fn date(&self) -> Option<DateTime<Local>>;
    #[verifier::external_body]
    pub fn to_date_time(&self) -> (r: Option<DateTime<Local>>) ensures r == self.date() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_le(a: &DateTime<Local>, b: &DateTime<Local>) -> (r: bool) ensures r == (a.at() <= b.at()) { unimplemented!() }
pub open spec fn chomp(t: Seq<char>) -> Seq<char> { if t.len() > 0 && t.last() == '\n' { t.drop_last() } else { t } }
#[verifier::external_body]
pub fn vx_chomp<'a>(t: &'a str) -> (r: &'a str) ensures r@ == chomp(t@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn has(t: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= t.len() - p.len() && #[trigger] t.subrange(i, i + p.len()) == p }
#[verifier::external_body]
pub fn vx_has(t: &str, p: &String) -> (r: bool) ensures r == has(t@, p@) { unimplemented!() }
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { p.len() <= t.len() && t.subrange(0, p.len() as int) == p }
pub open spec fn after(t: Seq<char>, p: Seq<char>) -> Seq<char> { t.subrange(p.len() as int, t.len() as int) }
#[verifier::external_body]
pub fn vx_prefix<'a>(t: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some <==> starts(t@, p@), r is Some ==> r->Some_0@ == after(t@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn parse_date(t: &str) -> (r: Result<DateTime<Local>, VErr>) ensures r is Ok ==> date_of(t@, r->Ok_0) { unimplemented!() }
//@item git-branchless-revset/src/pattern.rs::Pattern
impl Pattern {
    pub open spec fn fits(&self, t: Seq<char>) -> bool {
        match self {
            Pattern::Exact(p) => p@ == chomp(t),
            Pattern::Substring(p) => has(chomp(t), p@),
            Pattern::Glob(p) => p.accepts(chomp(t)),
            Pattern::Regex(p) => p.accepts(chomp(t)),
            _ => false,
        }
    }
    pub open spec fn fits_date(&self, t: Time) -> bool {
        match self { Pattern::Before(d) => t.date() is Some && t.date()->Some_0.at() <= d.at(), Pattern::After(d) => t.date() is Some && t.date()->Some_0.at() >= d.at(), _ => false }
    }
//@fn git-branchless-revset/src/pattern.rs::Pattern::matches_text
//@contract
    ensures r == self.fits(subject@)
//@end
//@fn git-branchless-revset/src/pattern.rs::Pattern::matches_date
//@contract
    ensures r == self.fits_date(*time)
//@end
//@fn git-branchless-revset/src/pattern.rs::Pattern::new
//@contract
    ensures r is Ok ==> written(pattern@, r->Ok_0)
//@end
}
/// The pattern that is written as `t`.
pub open spec fn written(t: Seq<char>, p: Pattern) -> bool {
    if starts(t, "exact:"@) { p is Exact && p->Exact_0@ == after(t, "exact:"@) }
    else if starts(t, "substring:"@) { p is Substring && p->Substring_0@ == after(t, "substring:"@) }
    else if starts(t, "substr:"@) { p is Substring && p->Substring_0@ == after(t, "substr:"@) }
    else if starts(t, "glob:"@) { p is Glob && p->Glob_0 == glob_of(after(t, "glob:"@)) }
    else if starts(t, "regex:"@) { p is Regex && p->Regex_0 == regex_of(after(t, "regex:"@)) }
    else if starts(t, "before:"@) { p is Before && date_of(after(t, "before:"@), p->Before_0) }
    else if starts(t, "after:"@) { p is After && date_of(after(t, "after:"@), p->After_0) }
    else { p is Substring && p->Substring_0@ == t }
}
pub open spec fn asked(args: Seq<Expr>, p: Pattern) -> bool { args.len() == 1 && args[0] is Name && written(args[0]->Name_0@, p) }
//@fn git-branchless-revset/src/eval.rs::eval1_pattern
//@contract
    ensures *final(_ctx) == *old(_ctx), r is Ok ==> asked(args@, r->Ok_0)
//@end
//@fn git-branchless-revset/src/eval.rs::eval0_or_1_pattern
//@contract
    ensures *final(ctx) == *old(ctx), r is Ok ==> (r->Ok_0 is None <==> args@.len() == 0) && (r->Ok_0 is Some ==> asked(args@, r->Ok_0->Some_0))
//@end
/// The visible commits for which the closure holds.
#[verifier::external_body]
pub fn vx_matching<F: Fn(&Repo, &Commit) -> Result<bool, VErr>>(ctx: &mut Context, f: F) -> (r: EvalResult)
    requires old(ctx).dag.ok(), forall|a: &Repo, c: &Commit| #[trigger] f.requires((a, c))
    ensures *final(ctx) == *old(ctx), r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) ==> old(ctx).dag.is_visible(x) && f.ensures((old(ctx).repo, &old(ctx).repo.commit(x)), Ok(true)),
        r is Ok ==> forall|x: NonZeroOid| old(ctx).dag.is_visible(x) && !#[trigger] r->Ok_0@.contains(x) ==> f.ensures((old(ctx).repo, &old(ctx).repo.commit(x)), Ok(false))
{ unimplemented!() }
/// The visible commits for which `f` holds.
pub open spec fn those(c: Context, f: spec_fn(Commit) -> bool, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> c.dag.is_visible(x) && f(c.repo.commit(x)) }
//@fn git-branchless-revset/src/builtins.rs::fn_author_name
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| c.author().name() is Some && p.fits(c.author().name()->Some_0), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.author().name() is Some && pattern.fits($1.author().name()->Some_0))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| c.author().name() is Some && pt.fits(c.author().name()->Some_0), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_author_email
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| c.author().email() is Some && p.fits(c.author().email()->Some_0), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.author().email() is Some && pattern.fits($1.author().email()->Some_0))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| c.author().email() is Some && pt.fits(c.author().email()->Some_0), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_author_date
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| p.fits_date(c.author().time()), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>(pattern.fits_date($1.author().time()))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| pt.fits_date(c.author().time()), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_committer_name
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| c.committer().name() is Some && p.fits(c.committer().name()->Some_0), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.committer().name() is Some && pattern.fits($1.committer().name()->Some_0))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| c.committer().name() is Some && pt.fits(c.committer().name()->Some_0), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_committer_email
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| c.committer().email() is Some && p.fits(c.committer().email()->Some_0), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.committer().email() is Some && pattern.fits($1.committer().email()->Some_0))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| c.committer().email() is Some && pt.fits(c.committer().email()->Some_0), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_committer_date
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| p.fits_date(c.committer().time()), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>(pattern.fits_date($1.committer().time()))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| pt.fits_date(c.committer().time()), vx_ret->Ok_0@)); } }
//@end
//@fn git-branchless-revset/src/builtins.rs::fn_merges
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> args@.len() == 0 && those(*old(ctx), |c: Commit| c.parent_count() > 1, r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.parent_count() > 1)
//@end

// ---- what was tested ---------------------------------------------------------------
#[verifier::external_body]
pub struct TestCommand { x: u64 }
impl TestCommand {
    pub uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text<'a>(&'a self) -> (r: &'a str) ensures r@ == self.shown() { unimplemented!() }
}
pub struct SerializedNonZeroOid(pub NonZeroOid);
//@item git-branchless-lib/src/git/test.rs::SerializedTestResult
//@item git-branchless-lib/src/git/test.rs::TEST_SUCCESS_EXIT_CODE
//@item git-branchless-lib/src/git/test.rs::TEST_INDETERMINATE_EXIT_CODE
//@item git-branchless-lib/src/git/test.rs::TEST_ABORT_EXIT_CODE
impl Commit {
    /// The results recorded for the contents of the commit (read_all_test_results, assumed).
    pub uninterp spec fn results(&self) -> Seq<SerializedTestResult>;
    pub uninterp spec fn tree(&self) -> MaybeZeroOid;
    #[verifier::external_body]
    pub fn get_tree_oid(&self) -> (r: MaybeZeroOid) ensures r == self.tree() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_results(r: &Repo, c: &Commit) -> (v: It<SerializedTestResult>) ensures v@ == c.results() { unimplemented!() }
pub uninterp spec fn latest(r: &Repo) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_latest(c: &Repo) -> (r: Result<String, EvalError>) ensures r is Ok ==> latest(c) == Some(r->Ok_0@) { unimplemented!() }
/// The commands that are asked about: as given, or exactly the last one that was run.
pub open spec fn about(r: &Repo, args: Seq<Expr>, p: Pattern) -> bool { if args.len() == 0 { p is Exact && latest(r) == Some(p->Exact_0@) } else { asked(args, p) } }
//@fn git-branchless-revset/src/builtins.rs::eval_test_command_pattern
//@contract
    ensures *final(ctx) == *old(ctx), r is Ok ==> about(old(ctx).repo, args@, r->Ok_0)
//@end
pub open spec fn passed(t: SerializedTestResult, c: Commit, p: Pattern) -> bool { t.exit_code == 0 && p.fits(t.command.shown()) }
pub open spec fn failed(t: SerializedTestResult, c: Commit, p: Pattern) -> bool { t.exit_code != 0 && t.exit_code != 125 && t.exit_code != 127 && p.fits(t.command.shown()) }
pub open spec fn fixable(t: SerializedTestResult, c: Commit, p: Pattern) -> bool {
    passed(t, c, p) && t.snapshot_tree_oid is Some && c.tree() is NonZero && t.snapshot_tree_oid->Some_0.0 != c.tree()->NonZero_0
}
pub open spec fn any_passed(c: Commit, p: Pattern) -> bool { exists|i: int| 0 <= i < c.results().len() && passed(#[trigger] c.results()[i], c, p) }
//@fn git-branchless-revset/src/builtins.rs::fn_tests_passed
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] about(old(ctx).repo, args@, p) && those(*old(ctx), |c: Commit| any_passed(c, p), r->Ok_0@)
//@closures 2
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>(any_passed(*$1, pattern))
//@closure 1
    -> (b: bool) ensures b == passed($0, *commit, pattern)
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(about(old(ctx).repo, args@, pt)); assert(those(*old(ctx), |c: Commit| any_passed(c, pt), vx_ret->Ok_0@)); } }
//@end
pub open spec fn any_failed(c: Commit, p: Pattern) -> bool { exists|i: int| 0 <= i < c.results().len() && failed(#[trigger] c.results()[i], c, p) }
//@fn git-branchless-revset/src/builtins.rs::fn_tests_failed
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] about(old(ctx).repo, args@, p) && those(*old(ctx), |c: Commit| any_failed(c, p), r->Ok_0@)
//@closures 2
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>(any_failed(*$1, pattern))
//@closure 1
    -> (b: bool) ensures b == failed($0, *commit, pattern)
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(about(old(ctx).repo, args@, pt)); assert(those(*old(ctx), |c: Commit| any_failed(c, pt), vx_ret->Ok_0@)); } }
//@end
pub open spec fn any_fixable(c: Commit, p: Pattern) -> bool { exists|i: int| 0 <= i < c.results().len() && fixable(#[trigger] c.results()[i], c, p) }
//@fn git-branchless-revset/src/builtins.rs::fn_tests_fixable
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] about(old(ctx).repo, args@, p) && those(*old(ctx), |c: Commit| any_fixable(c, p), r->Ok_0@)
//@closures 2
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>(any_fixable(*$1, pattern))
//@closure 1
    -> (b: bool) ensures b == fixable($0, *commit, pattern)
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(about(old(ctx).repo, args@, pt)); assert(those(*old(ctx), |c: Commit| any_fixable(c, pt), vx_ret->Ok_0@)); } }
//@end

#[verifier::external_body]
pub struct Bytes { x: u64 }
impl Bytes {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str<'a>(&'a self) -> (r: Result<&'a str, VErr>) ensures r is Ok <==> self.text() is Some, r is Ok ==> r->Ok_0@ == self.text()->Some_0 { unimplemented!() }
}
#[verifier::external_body]
pub struct TouchedPath { x: u64 }
impl TouchedPath {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r is Some <==> self.text() is Some, r is Some ==> r->Some_0@ == self.text()->Some_0 { unimplemented!() }
}
impl Commit {
    pub uninterp spec fn message(&self) -> Bytes;
    pub uninterp spec fn paths(&self) -> Seq<TouchedPath>;
    #[verifier::external_body]
    pub fn get_message_raw(&self) -> (r: Bytes) ensures r == self.message() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_paths(r: &Repo, c: &Commit) -> (v: Result<It<TouchedPath>, VErr>) ensures v is Ok ==> v->Ok_0@ == c.paths() { unimplemented!() }
//@fn git-branchless-revset/src/builtins.rs::fn_message
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| c.message().text() is Some && p.fits(c.message().text()->Some_0), r->Ok_0@)
//@closure 0
    -> (b: Result<bool, VErr>) ensures b == Ok::<bool, VErr>($1.message().text() is Some && pattern.fits($1.message().text()->Some_0))
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| c.message().text() is Some && pt.fits(c.message().text()->Some_0), vx_ret->Ok_0@)); } }
//@end
pub open spec fn any_path(c: Commit, p: Pattern) -> bool { exists|i: int| 0 <= i < c.paths().len() && path_fits(#[trigger] c.paths()[i], p) }
pub open spec fn path_fits(t: TouchedPath, p: Pattern) -> bool { t.text() is Some && p.fits(t.text()->Some_0) }
//@fn git-branchless-revset/src/builtins.rs::fn_path_changed
//@contract
    requires old(ctx).dag.ok()
    ensures *final(ctx) == *old(ctx), r is Ok ==> exists|p: Pattern| #[trigger] asked(args@, p) && those(*old(ctx), |c: Commit| any_path(c, p), r->Ok_0@)
//@closures 2
//@closure 0
    -> (b: Result<bool, VErr>) ensures b is Ok ==> b == Ok::<bool, VErr>(any_path(*$1, pattern))
//@closure 1
    -> (b: bool) ensures b == path_fits($0, pattern)
//@after_let pattern
    let ghost pt = pattern;
//@epilogue
    proof { if vx_ret is Ok { assert(asked(args@, pt)); assert(those(*old(ctx), |c: Commit| any_path(c, pt), vx_ret->Ok_0@)); } }
//@end

// ---- current() ---------------------------------------------------------------------
#[verifier::external_body]
pub struct Conn { x: u64 }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub fn vx_conn(r: &Repo) -> Result<Conn, VErr> { unimplemented!() }
#[verifier::external_body]
pub fn vx_db(c: &Conn) -> EyreResult<EventLogDb> { unimplemented!() }
/// The timeline at the time of the call.
pub uninterp spec fn now_events() -> Seq<Event>;
#[verifier::external_body]
pub fn vx_replayer(r: &Repo) -> (e: EyreResult<EventReplayer>) ensures e is Ok ==> e->Ok_0.wf() && e->Ok_0.events@ == now_events() { unimplemented!() }
/// The graph opened again has the commits that were put into it (eden_dag, assumed).
#[verifier::external_body]
pub proof fn axiom_reopened(a: &Dag, b: &Dag)
    requires a.ready(), b.observed_commits@ == a.observed_commits@, b.head_commit@ == a.head_commit@, b.main_branch_commit@ == a.main_branch_commit@, b.branch_commits@ == a.branch_commits@
    ensures b.ready()
{}
/// What there is of a commit now: the commit itself, what it was rewritten into, or nothing.
pub open spec fn now(o: NonZeroOid) -> Option<NonZeroOid> {
    match newest(now_events(), o) { None => Some(o), Some(MaybeZeroOid::NonZero(n)) => Some(n), Some(MaybeZeroOid::Zero) => None }
}
/// `a` as if no commit were hidden.
pub open spec fn unhidden(a: &Dag, b: &Dag) -> bool {
    b.ok() && b.obsolete_commits@ == Set::<NonZeroOid>::empty() && b.observed_commits@ == a.observed_commits@ && b.head_commit@ == a.head_commit@ && b.main_branch_commit@ == a.main_branch_commit@ && b.branch_commits@ == a.branch_commits@
}
pub open spec fn one_of_all(a: Context, args: Seq<Expr>, s: S, d: Dag, e: Dag) -> bool { args.len() == 1 && unhidden(&a.dag, &d) && yields(a.repo, d, args[0], s, e) }
pub open spec fn gone(v: Seq<NonZeroOid>, k: int, r: Seq<NonZeroOid>) -> bool {
    &&& forall|i: int| 0 <= i < k && now(#[trigger] v[i]) is Some ==> r.contains(now(v[i])->Some_0)
    &&& forall|j: int| 0 <= j < r.len() ==> exists|i: int| 0 <= i < k && now(#[trigger] v[i]) == Some(#[trigger] r[j])
}
//@fn git-branchless-revset/src/builtins.rs::fn_current
//@contract
    requires old(ctx).dag.ok()
    ensures kept(*old(ctx), *final(ctx)), r is Ok ==> later(&old(ctx).dag, &final(ctx).dag) && exists|s: S, d: Dag, e: Dag| #[trigger] one_of_all(*old(ctx), args@, s, d, e) && image(s, |y: NonZeroOid| now(y), r->Ok_0@)
//@prologue
    let ghost ctx0 = *ctx;
//@after_let dag
    proof { axiom_reopened(original_dag, &dag); }
    let ghost first = dag;
//@after_let event_cursor
    proof { assert(event_replayer.upto(event_cursor) =~= now_events()); }
//@after_let commit_oids
    let ghost vs = commit_oids@;
    let ghost es = expr@;
    let ghost last = ctx.dag;
//@after_let result
    let ghost mut rs = Seq::<NonZeroOid>::empty();
//@loop 0
    invariant vx_it0@ == vs, vx_i0 <= vs.len(), gone(vs, vx_i0 as int, result@), event_replayer.wf(), event_replayer.cursor_ok(event_cursor), event_replayer.upto(event_cursor) == now_events()
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = result@;
//@body_end 0
    proof {
        let k = vx_i0 - 1;
        assert(result@ == (match now(vs[k]) { Some(x) => before.push(x), None => before }));
        assert forall|i: int| 0 <= i < k + 1 && now(#[trigger] vs[i]) is Some implies result@.contains(now(vs[i])->Some_0) by {
            if i < k { let w = choose|w: int| 0 <= w < before.len() && before[w] == now(vs[i])->Some_0; assert(result@[w] == before[w]); }
            else { assert(result@[before.len() as int] == now(vs[k])->Some_0); }
        }
        assert forall|j: int| 0 <= j < result@.len() implies exists|i: int| 0 <= i < k + 1 && now(#[trigger] vs[i]) == Some(#[trigger] result@[j]) by {
            if j < before.len() { assert(result@[j] == before[j]); let i = choose|i: int| 0 <= i < k && now(#[trigger] vs[i]) == Some(before[j]); assert(now(vs[i]) == Some(result@[j])); }
            else { assert(now(vs[k]) == Some(result@[j])); }
        }
    }
//@after_loop 0
    proof { rs = result@; }
//@epilogue
    proof {
        if vx_ret is Ok {
            let r = vx_ret->Ok_0@;
            assert(one_of_all(ctx0, args@, es, first, last));
            assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> exists|y: NonZeroOid| #![trigger es.contains(y)] es.contains(y) && now(y) == Some(x) by {
                if r.contains(x) { assert(rs.contains(x)); let j = choose|j: int| 0 <= j < rs.len() && rs[j] == x; let i = choose|i: int| 0 <= i < vs.len() && now(#[trigger] vs[i]) == Some(rs[j]); assert(vs.contains(vs[i])); assert(es.contains(vs[i])); }
                if exists|y: NonZeroOid| #![trigger es.contains(y)] es.contains(y) && now(y) == Some(x) {
                    let y = choose|y: NonZeroOid| #![trigger es.contains(y)] es.contains(y) && now(y) == Some(x);
                    assert(vs.contains(y)); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == y; assert(rs.contains(x));
                }
            }
            assert(image(es, |y: NonZeroOid| now(y), r));
        }
    }
//@end
} // verus!
