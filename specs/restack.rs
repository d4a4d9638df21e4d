// C14: which commits and branches `git restack` moves, and where to.

//@rule commits.into_iter().collect() => vx_set(commits)
//@rule builder.build(effects, thread_pool, repo_pool) => vx_build(&builder, effects, thread_pool, repo_pool)
//@rule execute_rebase_plan(effects, git_run_info, &repo, event_log_db, &rebase_plan, execute_options) => w.execute(&rebase_plan, execute_options)
//@rule EventReplayer::from_event_log_db(__A, __B, __C) => vx_replayer()
//@rule repo.get_all_local_branches() => w.get_all_local_branches()
//@rule repo.get_head_info() => w.get_head_info()
//@rule repo.find_commit_or_fail(*head_oid)?.get_tree_oid() => vx_tree(repo, *head_oid)?
//@rule repo.find_commit_or_fail(*new_oid)?.get_tree_oid() => vx_tree(repo, *new_oid)?
//@rule (old_tree_oid != new_tree_oid).then(__F) => vx_then(old_tree_oid != new_tree_oid, reference_name)
//@rule repo.detach_head(__X) => w.detach_head(__X)
//@rule repo.find_reference(__X) => w.find_reference(__X)
//@rule move_branches(__A, __B, __C, __D, __E) => w.move_branches(__D, __E)
//@rule check_out_commit(__A, __B, __C, __D, __E, __F, __G) => w.check_out_commit(__F)
//@drop_stmt err.describe(effects, &repo, dag)?
//@drop_stmt failed_merge_info.describe(__A, __B, __C)?
//@drop_macro warn
//@rule Dag::open_and_sync(__A, __B, &event_replayer, event_cursor, &references_snapshot) => vx_dag(&event_replayer, event_cursor, &references_snapshot)
//@rule local_main_branch_oid.into_iter().collect() => vx_opt_set(local_main_branch_oid)
//@rule __A.into_iter().exactly_one() => vx_exactly_one(__A)
//@rule head_info.reference_name.as_ref() == Some(&local_main_branch_reference_name) => vx_opt_is(&head_info.reference_name, &local_main_branch_reference_name)
//@rule local_main_branch_oid == Some(upstream_main_branch_oid) => vx_opt_oid(local_main_branch_oid, upstream_main_branch_oid)
//@rule git_run_info.run(effects, Some(__T), &["rebase", &__X.to_string()]) => w.git_rebase(__X)
//@rule repo.create_reference(__A, __B, __C, __D) => w.create_reference(__A, __B, __C)
//@rule execute_plans(__A, __B, __C, __D, __E, __F) => execute_plans(__A, __B, __C, __D, __E, __F, w)
//@rule execute_rebase_plan(&effects, git_run_info, repo, event_log_db, &rebase_plan, execute_options) => w.execute(&rebase_plan, execute_options)
//@rule root_commit_and_plans.into_iter().with_progress(progress) => root_commit_and_plans
//@rule dag.query_roots(stack_ancestors).map_err(__F) => dag.query_roots(stack_ancestors)
//@rule err.describe(effects, repo, &dag)? => ()
//@drop_let effects.start_operation(__A)
//@drop_let effects.get_glyphs().render(__A)?
//@rule thread_pool.install(__F) => vx_install(__F)
//@rule resolve_commits(__A, __B, __C, __D, __E) => vx_resolve(__C, __D)
//@rule err.describe(effects)? => ()
//@rule repo.find_commit_or_fail(root_commit_oid) => vx_commit(&repo, root_commit_oid)
//@rule root_commit.get_only_parent().map(__F) => root_commit.only_parent_oid()
//@rule only_parent_id == Some(main_branch_oid) => vx_opt_oid(only_parent_id, main_branch_oid)
verus! {
pub struct ExitCode(pub isize);
pub type EyreExitOr<T> = EyreResult<Result<T, ExitCode>>;
pub struct RebaseInfo { pub dest_oid: NonZeroOid, pub abandoned_child_oids: Vec<NonZeroOid> }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
pub enum FailedMergeInfo { Conflict { commit_oid: NonZeroOid, conflicting_paths: HashSet<PathBuf> }, CannotRebaseMergeInMemory { commit_oid: NonZeroOid } }
#[verifier::external_body]
pub struct MergeConflictRemediation { x: u64 }
#[verifier::external_body]
pub struct CheckOutCommitOptions { x: u64 }
pub struct ExecuteRebasePlanOptions { pub event_tx_id: EventTransactionId, pub check_out_commit_options: CheckOutCommitOptions }
pub enum ExecuteRebasePlanResult { Succeeded { rewritten_oids: Option<HashMap<NonZeroOid, MaybeZeroOid>> }, DeclinedToMerge { failed_merge_info: FailedMergeInfo }, Failed { exit_code: ExitCode } }
/// The plan was built from these constraints and replacements.
pub uninterp spec fn made_of(p: &RebasePlan, cs: Seq<Constraint>, rs: Map<NonZeroOid, NonZeroOid>) -> bool;
/// These constraints and replacements change nothing.
pub uninterp spec fn nothing_to_do(cs: Seq<Constraint>, rs: Map<NonZeroOid, NonZeroOid>) -> bool;
#[verifier::external_body]
pub fn vx_build(b: &RebasePlanBuilder, effects: &Effects, pool: &ThreadPool, repo_pool: &RepoPool) -> (r: EyreResult<Result<Option<RebasePlan>, BuildRebasePlanError>>)
    requires b.dag.wf()
    ensures r is Ok && r->Ok_0 is Ok && r->Ok_0->Ok_0 is Some ==> made_of(&r->Ok_0->Ok_0->Some_0, b.asked(), b.replacement_commits@),
        r is Ok && r->Ok_0 is Ok && r->Ok_0->Ok_0 is None ==> nothing_to_do(b.asked(), b.replacement_commits@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_set(v: Vec<NonZeroOid>) -> (r: CommitSet) ensures forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> v@.contains(x) { unimplemented!() }

pub type RW = Map<NonZeroOid, MaybeZeroOid>;
//@item git-branchless-lib/src/git/repo.rs::ResolvedReferenceInfo Clone
pub enum CheckoutTarget { Oid(NonZeroOid), Reference(ReferenceName), Unknown(u64) }
pub ghost enum Act { Run(RebasePlan), Branches(RW), Detach, CheckOut(Option<CheckoutTarget>), GitRebase(NonZeroOid), SetRef(ReferenceName, NonZeroOid) }
pub struct World { pub acts: Ghost<Seq<Act>>, pub head: Ghost<ResolvedReferenceInfo>, pub branches: Ghost<Seq<Option<NonZeroOid>>> }
#[verifier::external_body]
pub struct LocalBranch { x: u64 }
impl LocalBranch {
    pub uninterp spec fn target(&self) -> Option<NonZeroOid>;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok ==> r->Ok_0 == self.target() { unimplemented!() }
}
#[verifier::external_body]
pub struct Reference { x: u64 }
impl World {
    pub open spec fn did(self, o: World, a: Act) -> bool { self.acts@ == o.acts@.push(a) }
    #[verifier::external_body]
    pub fn execute(&mut self, p: &RebasePlan, o: &ExecuteRebasePlanOptions) -> (r: EyreResult<ExecuteRebasePlanResult>)
        ensures final(self).head == old(self).head, final(self).did(*old(self), Act::Run(*p))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_all_local_branches(&self) -> (r: EyreResult<Vec<LocalBranch>>)
        ensures r is Ok ==> r->Ok_0@.len() == self.branches@.len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).target() == self.branches@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<ResolvedReferenceInfo>) ensures r is Ok ==> r->Ok_0 == self.head@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find_reference(&self, n: &ReferenceName) -> EyreResult<Option<Reference>> { unimplemented!() }
    #[verifier::external_body]
    pub fn detach_head(&mut self, h: &ResolvedReferenceInfo) -> (r: EyreResult<()>) ensures r is Ok ==> final(self).did(*old(self), Act::Detach) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_branches(&mut self, tx: EventTransactionId, rw: &HashMap<NonZeroOid, MaybeZeroOid>) -> (r: EyreResult<()>) ensures r is Ok ==> final(self).did(*old(self), Act::Branches(rw@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn check_out_commit(&mut self, t: Option<CheckoutTarget>) -> (r: EyreExitOr<()>) ensures final(self).did(*old(self), Act::CheckOut(t)) { unimplemented!() }
}

/// Where the children of a rewritten commit belong.
pub open spec fn home(es: Seq<Event>, o: NonZeroOid) -> NonZeroOid { match newest(es, o)->Some_0 { MaybeZeroOid::NonZero(n) => n, MaybeZeroOid::Zero => o } }
pub open spec fn wants(d: &Dag, es: Seq<Event>, o: NonZeroOid, x: NonZeroOid) -> bool { newest(es, o) is Some && abandoned(d, o, x) }
pub open spec fn is_move(c: Constraint, x: NonZeroOid, to: NonZeroOid) -> bool { c matches Constraint::MoveSubtree { parent_oids, child_oid } && child_oid == x && parent_oids@ == seq![to] }
/// Exactly the abandoned children of the commits of `s` go to their parent's newest version.
#[verifier::opaque]
pub open spec fn restacks(d: &Dag, es: Seq<Event>, s: S, cs: Seq<Constraint>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> due(d, es, s, #[trigger] cs[i])
    &&& forall|o: NonZeroOid, x: NonZeroOid| s.contains(o) && #[trigger] wants(d, es, o, x) ==> got(cs, x, home(es, o))
}
pub open spec fn due(d: &Dag, es: Seq<Event>, s: S, c: Constraint) -> bool { exists|o: NonZeroOid, x: NonZeroOid| s.contains(o) && #[trigger] wants(d, es, o, x) && is_move(c, x, home(es, o)) }
/// `i` stands for a commit of `v`.
pub open spec fn info_of(d: &Dag, es: Seq<Event>, o: NonZeroOid, i: RebaseInfo) -> bool {
    newest(es, o) is Some && i.dest_oid == home(es, o) && forall|x: NonZeroOid| #[trigger] i.abandoned_child_oids@.contains(x) <==> abandoned(d, o, x)
}
#[verifier::opaque]
pub open spec fn infos(d: &Dag, es: Seq<Event>, v: Seq<NonZeroOid>, n: int, rs: Seq<RebaseInfo>) -> bool {
    &&& forall|j: int| 0 <= j < n && newest(es, #[trigger] v[j]) is Some ==> exists|k: int| 0 <= k < rs.len() && info_of(d, es, v[j], #[trigger] rs[k])
    &&& forall|k: int| 0 <= k < rs.len() ==> exists|j: int| 0 <= j < n && info_of(d, es, #[trigger] v[j], #[trigger] rs[k])
}
pub open spec fn chosen(d: &Dag, c: Option<Vec<NonZeroOid>>) -> spec_fn(NonZeroOid) -> bool { |x: NonZeroOid| match c { Some(v) => v@.contains(x), None => d.obsolete_commits@.contains(x) } }
pub open spec fn src(rs: Seq<RebaseInfo>, n: int, m: int, j: int, k: int) -> bool { 0 <= j < rs.len() && 0 <= k < rs[j].abandoned_child_oids@.len() && (j < n || (j == n && k < m)) }
pub open spec fn got(cs: Seq<Constraint>, x: NonZeroOid, to: NonZeroOid) -> bool { exists|i: int| 0 <= i < cs.len() && is_move(#[trigger] cs[i], x, to) }
#[verifier::opaque]
pub open spec fn cover(rs: Seq<RebaseInfo>, n: int, m: int, cs: Seq<Constraint>) -> bool {
    &&& forall|j: int, k: int| #[trigger] src(rs, n, m, j, k) ==> got(cs, rs[j].abandoned_child_oids@[k], rs[j].dest_oid)
    &&& forall|i: int| 0 <= i < cs.len() ==> origin(rs, n, m, #[trigger] cs[i])
}
pub open spec fn origin(rs: Seq<RebaseInfo>, n: int, m: int, c: Constraint) -> bool { exists|j: int, k: int| #[trigger] src(rs, n, m, j, k) && is_move(c, rs[j].abandoned_child_oids@[k], rs[j].dest_oid) }
pub proof fn lemma_cover_step(rs: Seq<RebaseInfo>, n: int, m: int, cs: Seq<Constraint>, c: Constraint)
    requires cover(rs, n, m, cs), 0 <= n < rs.len(), 0 <= m < rs[n].abandoned_child_oids@.len(), is_move(c, rs[n].abandoned_child_oids@[m], rs[n].dest_oid)
    ensures cover(rs, n, m + 1, cs.push(c))
{
    reveal(cover);
    let ds = cs.push(c);
    assert(ds[cs.len() as int] == c);
    assert forall|j: int, k: int| #[trigger] src(rs, n, m + 1, j, k) implies got(ds, rs[j].abandoned_child_oids@[k], rs[j].dest_oid) by {
        if src(rs, n, m, j, k) { let i = choose|i: int| 0 <= i < cs.len() && is_move(#[trigger] cs[i], rs[j].abandoned_child_oids@[k], rs[j].dest_oid); assert(ds[i] == cs[i]); }
        else { assert(is_move(ds[cs.len() as int], rs[j].abandoned_child_oids@[k], rs[j].dest_oid)); }
    }
    assert forall|i: int| 0 <= i < ds.len() implies origin(rs, n, m + 1, #[trigger] ds[i]) by {
        if i < cs.len() {
            let (j, k) = choose|j: int, k: int| #[trigger] src(rs, n, m, j, k) && is_move(cs[i], rs[j].abandoned_child_oids@[k], rs[j].dest_oid);
            assert(src(rs, n, m + 1, j, k) && is_move(ds[i], rs[j].abandoned_child_oids@[k], rs[j].dest_oid));
        } else { assert(src(rs, n, m + 1, n, m)); }
    }
}
pub proof fn lemma_cover_roll(rs: Seq<RebaseInfo>, n: int, cs: Seq<Constraint>)
    requires 0 <= n < rs.len(), cover(rs, n, rs[n].abandoned_child_oids@.len() as int, cs)
    ensures cover(rs, n + 1, 0, cs)
{
    reveal(cover);
    let l = rs[n].abandoned_child_oids@.len() as int;
    assert forall|j: int, k: int| #[trigger] src(rs, n + 1, 0, j, k) implies got(cs, rs[j].abandoned_child_oids@[k], rs[j].dest_oid) by { assert(src(rs, n, l, j, k)); }
    assert forall|i: int| 0 <= i < cs.len() implies origin(rs, n + 1, 0, #[trigger] cs[i]) by {
        let (j, k) = choose|j: int, k: int| #[trigger] src(rs, n, l, j, k) && is_move(cs[i], rs[j].abandoned_child_oids@[k], rs[j].dest_oid);
        assert(src(rs, n + 1, 0, j, k));
    }
}
pub proof fn lemma_restacks(d: &Dag, es: Seq<Event>, v: Seq<NonZeroOid>, s: S, rs: Seq<RebaseInfo>, cs: Seq<Constraint>)
    requires infos(d, es, v, v.len() as int, rs), cover(rs, rs.len() as int, 0, cs), forall|x: NonZeroOid| #[trigger] v.contains(x) <==> s.contains(x)
    ensures restacks(d, es, s, cs)
{
    reveal(cover); reveal(infos); reveal(restacks);
    let n = rs.len() as int;
    assert forall|i: int| 0 <= i < cs.len() implies due(d, es, s, #[trigger] cs[i]) by {
        let (j, k) = choose|j: int, k: int| #[trigger] src(rs, n, 0, j, k) && is_move(cs[i], rs[j].abandoned_child_oids@[k], rs[j].dest_oid);
        let a = choose|a: int| 0 <= a < v.len() && info_of(d, es, #[trigger] v[a], rs[j]);
        let x = rs[j].abandoned_child_oids@[k];
        assert(rs[j].abandoned_child_oids@.contains(x)); assert(v.contains(v[a])); assert(wants(d, es, v[a], x)); assert(s.contains(v[a]));
    }
    assert forall|o: NonZeroOid, x: NonZeroOid| s.contains(o) && #[trigger] wants(d, es, o, x) implies got(cs, x, home(es, o)) by {
        assert(v.contains(o));
        let a = choose|a: int| 0 <= a < v.len() && v[a] == o;
        let j = choose|j: int| 0 <= j < rs.len() && info_of(d, es, v[a], #[trigger] rs[j]);
        assert(rs[j].abandoned_child_oids@.contains(x));
        let k = choose|k: int| 0 <= k < rs[j].abandoned_child_oids@.len() && rs[j].abandoned_child_oids@[k] == x;
        assert(src(rs, n, 0, j, k));
    }
}
pub proof fn lemma_infos_step(d: &Dag, es: Seq<Event>, v: Seq<NonZeroOid>, n: int, a: Seq<RebaseInfo>, b: Seq<RebaseInfo>)
    requires infos(d, es, v, n, a), 0 <= n < v.len(), newest(es, v[n]) is None ==> b == a, newest(es, v[n]) is Some ==> b.len() == a.len() + 1 && b.take(a.len() as int) == a && info_of(d, es, v[n], b[a.len() as int])
    ensures infos(d, es, v, n + 1, b)
{
    reveal(infos);
    assert forall|k: int| 0 <= k < a.len() implies b[k] == #[trigger] a[k] by { if newest(es, v[n]) is Some { assert(b.take(a.len() as int)[k] == b[k]); } }
    assert forall|j: int| 0 <= j < n + 1 && newest(es, #[trigger] v[j]) is Some implies exists|k: int| 0 <= k < b.len() && info_of(d, es, v[j], #[trigger] b[k]) by {
        if j < n { let k = choose|k: int| 0 <= k < a.len() && info_of(d, es, v[j], #[trigger] a[k]); assert(b[k] == a[k]); }
        else { assert(info_of(d, es, v[n], b[a.len() as int])); }
    }
    assert forall|k: int| 0 <= k < b.len() implies exists|j: int| 0 <= j < n + 1 && info_of(d, es, #[trigger] v[j], #[trigger] b[k]) by {
        if k < a.len() { assert(b[k] == a[k]); let j = choose|j: int| 0 <= j < n && info_of(d, es, #[trigger] v[j], a[k]); assert(info_of(d, es, v[j], b[k])); }
        else { assert(info_of(d, es, v[n], b[k])); }
    }
}
pub proof fn lemma_infos_start(d: &Dag, es: Seq<Event>, v: Seq<NonZeroOid>) ensures infos(d, es, v, 0, Seq::empty()) { reveal(infos); }
pub proof fn lemma_cover_start(rs: Seq<RebaseInfo>, cs: Seq<Constraint>) requires cs.len() == 0 ensures cover(rs, 0, 0, cs) { reveal(cover); }
//@fn git-branchless/src/commands/restack.rs::restack_commits
//@sig
pub fn restack_commits(effects: &Effects, thread_pool: &ThreadPool, repo_pool: &RepoPool, dag: &Dag, event_replayer: &EventReplayer, event_log_db: &EventLogDb, event_cursor: EventCursor, git_run_info: &GitRunInfo,
    commits: Option<Vec<NonZeroOid>>, build_options: BuildRebasePlanOptions, execute_options: &ExecuteRebasePlanOptions, merge_conflict_remediation: MergeConflictRemediation, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    requires dag.wf(), event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures r is Ok ==> final(w).acts@ == old(w).acts@ || exists|s: S, cs: Seq<Constraint>, p: RebasePlan| (forall|x: NonZeroOid| #[trigger] s.contains(x) <==> chosen(dag, commits)(x))
        && #[trigger] restacks(dag, event_replayer.upto(event_cursor), s, cs) && #[trigger] made_of(&p, cs, Map::empty()) && final(w).did(*old(w), Act::Run(p))
//@closures 1
//@closure 0
    -> (b: It<NonZeroOid>) ensures forall|x: NonZeroOid| #[trigger] b@.contains(x) <==> $0.abandoned_child_oids@.contains(x)
//@prologue
    let ghost es = event_replayer.upto(event_cursor);
    let ghost ch = chosen(dag, commits);
//@after_let commits
    let ghost v = commits@;
    let ghost cset = commit_set@;
    proof { lemma_infos_start(dag, es, v); }
//@before_loop 0
    proof { assert(result@ =~= Seq::<RebaseInfo>::empty()); }
//@loop 0
    invariant vx_it0@ == v, vx_i0 <= v.len(), infos(dag, es, v, vx_i0 as int, result@), dag.wf(), event_replayer.wf(), event_replayer.cursor_ok(event_cursor), es == event_replayer.upto(event_cursor)
    decreases v.len() - vx_i0
//@body_start 0
    let ghost before = result@;
//@body_end 0
    proof {
        if newest(es, v[vx_i0 - 1]) is Some { assert(result@.take(before.len() as int) =~= before); }
        lemma_infos_step(dag, es, v, vx_i0 - 1, before, result@);
    }
//@after_let rebases
    let ghost rs = rebases@;
    proof { assert(infos(dag, es, v, v.len() as int, rs)); }
//@after_let builder
    proof { lemma_cover_start(rs, builder.asked()); }
//@loop 1
    invariant vx_it1@ == rs, vx_i1 <= rs.len(), cover(rs, vx_i1 as int, 0, builder.asked()), builder.dag == dag, builder.replacement_commits@ == Map::<NonZeroOid, NonZeroOid>::empty()
    decreases rs.len() - vx_i1
//@body_end 1
    proof { lemma_cover_roll(rs, vx_i1 - 1, builder.asked()); }
//@loop 2
    invariant 0 < vx_i1 <= rs.len(), vx_it2@ == rs[vx_i1 - 1].abandoned_child_oids@, dest_oid == rs[vx_i1 - 1].dest_oid, vx_i2 <= vx_it2@.len(), cover(rs, vx_i1 - 1, vx_i2 as int, builder.asked()), builder.dag == dag, builder.replacement_commits@ == Map::<NonZeroOid, NonZeroOid>::empty()
    decreases vx_it2@.len() - vx_i2
//@body_start 2
    let ghost asked0 = builder.asked();
//@body_end 2
    proof { lemma_cover_step(rs, vx_i1 - 1, vx_i2 - 1, asked0, builder.asked().last()); assert(builder.asked() =~= asked0.push(builder.asked().last())); }
//@after_loop 1
    proof { lemma_restacks(dag, es, v, cset, rs, builder.asked()); }
//@end

pub uninterp spec fn now_events() -> Seq<Event>;
#[verifier::external_body]
pub fn vx_replayer() -> (e: EyreResult<EventReplayer>) ensures e is Ok ==> e->Ok_0.wf() && e->Ok_0.events@ == now_events() { unimplemented!() }
pub uninterp spec fn tree_of(o: NonZeroOid) -> MaybeZeroOid;
#[verifier::external_body]
pub fn vx_tree(r: &Repo, o: NonZeroOid) -> (t: EyreResult<MaybeZeroOid>) ensures t is Ok ==> t->Ok_0 == tree_of(o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_then(b: bool, n: &ReferenceName) -> (r: Option<ReferenceName>) ensures r == (if b { Some(*n) } else { None }) { unimplemented!() }
pub mod rusqlite { pub struct Connection {} }
/// The branches among the first `n` whose commit was rewritten, and what it became.
pub open spec fn follow(bs: Seq<Option<NonZeroOid>>, n: int, m: RW) -> bool {
    &&& forall|t: NonZeroOid| #[trigger] m.dom().contains(t) ==> newest(now_events(), t) == Some(m[t]) && exists|i: int| 0 <= i < n && #[trigger] bs[i] == Some(t)
    &&& forall|i: int| 0 <= i < n && (#[trigger] bs[i]) is Some && newest(now_events(), bs[i]->Some_0) is Some ==> m.dom().contains(bs[i]->Some_0)
}
/// The branch HEAD is on, if its files change.
pub open spec fn head_follows(h: ResolvedReferenceInfo, m: RW) -> Option<ReferenceName> {
    if h.oid is Some && h.reference_name is Some && m.dom().contains(h.oid->Some_0) {
        match m[h.oid->Some_0] { MaybeZeroOid::NonZero(n) => if tree_of(h.oid->Some_0) != tree_of(n) { h.reference_name } else { None }, MaybeZeroOid::Zero => h.reference_name }
    } else { None }
}
pub open spec fn branches_done(h: ResolvedReferenceInfo, m: RW, a: Seq<Act>, b: Seq<Act>) -> bool {
    match head_follows(h, m) {
        None => b == a.push(Act::Branches(m)),
        Some(n) => b == a.push(Act::Detach).push(Act::Branches(m)) || b == a.push(Act::Detach).push(Act::Branches(m)).push(Act::CheckOut(Some(CheckoutTarget::Reference(n)))),
    }
}
//@fn git-branchless/src/commands/restack.rs::restack_branches
//@sig
pub fn restack_branches(effects: &Effects, repo: &Repo, conn: &rusqlite::Connection, git_run_info: &GitRunInfo, event_log_db: &EventLogDb, options: &ExecuteRebasePlanOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok ==> exists|m: RW| #[trigger] follow(old(w).branches@, old(w).branches@.len() as int, m) && if m.dom().len() == 0 { final(w).acts@ == old(w).acts@ } else { branches_done(old(w).head@, m, old(w).acts@, final(w).acts@) }
//@prologue
    let ghost bs = w.branches@;
//@after_let rewritten_oids
    let ghost mut mm = rewritten_oids@;
//@loop 0
    invariant vx_it0@.len() == bs.len(), forall|i: int| 0 <= i < bs.len() ==> (#[trigger] vx_it0@[i]).target() == bs[i], vx_i0 <= bs.len(), follow(bs, vx_i0 as int, rewritten_oids@), event_replayer.wf(), event_replayer.events@ == now_events(), *w == *old(w)
    decreases bs.len() - vx_i0
//@body_start 0
    proof { assert(event_replayer.events@.take(event_replayer.events@.len() as int) =~= now_events()); }
//@after_loop 0
    proof { assert(follow(bs, bs.len() as int, rewritten_oids@)); mm = rewritten_oids@; if mm.dom().len() == 0 { assert(mm.dom() =~= Set::empty()); } }
//@after_let head_branch_name
    proof { assert(head_branch_name == head_follows(old(w).head@, mm)); }
//@epilogue
    proof { assert(follow(bs, bs.len() as int, mm)); }
//@end

// ---- sync ----------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_dag(rep: &EventReplayer, c: EventCursor, s: &RepoReferencesSnapshot) -> (r: EyreResult<Dag>) requires rep.wf(), rep.cursor_ok(c) ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.ready() && told(&r->Ok_0, rep, c, s) { unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_set(o: Option<NonZeroOid>) -> (r: CommitSet) ensures r@ == opt_set(o) { unimplemented!() }
pub open spec fn opt_set(o: Option<NonZeroOid>) -> S { match o { Some(x) => Set::empty().insert(x), None => Set::empty() } }
#[verifier::external_body]
pub fn vx_exactly_one(v: Vec<NonZeroOid>) -> (r: Result<NonZeroOid, VErr>) ensures r is Ok <==> v@.len() == 1, r is Ok ==> r->Ok_0 == v@[0] { unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_is(a: &Option<ReferenceName>, b: &ReferenceName) -> (r: bool) ensures r == (*a == Some(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_oid(a: Option<NonZeroOid>, b: NonZeroOid) -> (r: bool) ensures r == (a == Some(b)) { unimplemented!() }
impl Repo {
    #[verifier::external_body]
    pub fn get_references_snapshot(&self) -> EyreResult<RepoReferencesSnapshot> { unimplemented!() }
    /// Where the main branch is, and what it tracks.
    pub uninterp spec fn main_at(&self) -> Option<NonZeroOid>;
    pub uninterp spec fn upstream(&self) -> Option<Branch>;
}
impl Branch {
    pub uninterp spec fn at(&self) -> Option<NonZeroOid>;
    pub uninterp spec fn tracks(&self) -> Option<Branch>;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok ==> r->Ok_0 == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_upstream_branch(&self) -> (r: EyreResult<Option<Branch>>) ensures r is Ok ==> r->Ok_0 == self.tracks() { unimplemented!() }
}
impl World {
    #[verifier::external_body]
    pub fn git_rebase(&mut self, o: NonZeroOid) -> (r: EyreExitOr<()>) ensures r is Ok ==> final(self).did(*old(self), Act::GitRebase(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_reference(&mut self, n: &ReferenceName, o: NonZeroOid, force: bool) -> (r: EyreResult<()>) ensures r is Ok && force ==> final(self).did(*old(self), Act::SetRef(*n, o)) { unimplemented!() }
}
/// The roots of the draft commits, or of those below the chosen commits.
pub open spec fn stack_roots(d: &Dag, cs: Seq<CommitSet>, r: S) -> bool {
    exists|a: S, b: S| #![trigger d.draft_ok(a), d.inner.are_roots(a, b)] d.draft_ok(a) && d.inner.are_roots(a, b)
        && if cs.len() == 0 { r == b } else { exists|c: S| #[trigger] d.inner.are_roots(c, r) && forall|x: NonZeroOid| #[trigger] c.contains(x) <==> d.inner.down(b, x) && d.inner.up(union_of(cs), x) }
}
//@fn git-branchless/src/commands/sync.rs::get_stack_roots
//@contract
    requires dag.wf()
    ensures r is Ok ==> stack_roots(dag, commit_sets@, r->Ok_0@)
//@end
pub type PP = (NonZeroOid, Option<RebasePlan>);
/// All plans are carried out, in order.
pub open spec fn all_run(ps: Seq<PP>, n: int, a: Seq<Act>) -> Seq<Act> decreases n {
    if n <= 0 { a } else { match ps[n - 1].1 { Some(p) => all_run(ps, n - 1, a).push(Act::Run(p)), None => all_run(ps, n - 1, a) } }
}
pub open spec fn some_run(ps: Seq<PP>, a: Seq<Act>, b: Seq<Act>) -> bool { exists|n: int| 0 <= n <= ps.len() && b == #[trigger] all_run(ps, n, a) }
pub proof fn lemma_some_run(ps: Seq<PP>, a: Seq<Act>, n: int) requires 0 <= n <= ps.len() ensures some_run(ps, a, all_run(ps, n, a)) {}
//@fn git-branchless/src/commands/sync.rs::execute_plans
//@sig
pub fn execute_plans(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, execute_options: &ExecuteRebasePlanOptions, root_commit_and_plans: Vec<(NonZeroOid, Option<RebasePlan>)>, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> final(w).acts@ == all_run(root_commit_and_plans@, root_commit_and_plans@.len() as int, old(w).acts@),
        r is Ok && r->Ok_0 is Err ==> some_run(root_commit_and_plans@, old(w).acts@, final(w).acts@)
//@prologue
    let ghost ps = root_commit_and_plans@;
//@after_let result
    proof { assert(w.acts@ == all_run(ps, vx_i0 as int, old(w).acts@)); lemma_some_run(ps, old(w).acts@, vx_i0 as int); }
//@loop 0
    invariant ps == root_commit_and_plans@, vx_it0@ == ps, vx_i0 <= ps.len(), w.acts@ == all_run(ps, vx_i0 as int, old(w).acts@)
    decreases ps.len() - vx_i0
//@loop 1
    invariant w.acts@ == all_run(ps, ps.len() as int, old(w).acts@)
    decreases vx_it1@.len() - vx_i1
//@loop 2
    invariant w.acts@ == all_run(ps, ps.len() as int, old(w).acts@)
    decreases vx_it2@.len() - vx_i2
//@loop 3
    invariant w.acts@ == all_run(ps, ps.len() as int, old(w).acts@)
    decreases vx_it3@.len() - vx_i3
//@end

pub open spec fn ahead(i: &Inner, l: Option<NonZeroOid>, u: NonZeroOid, x: NonZeroOid) -> bool { l is Some && i.anc(x, l->Some_0) && !i.anc(x, u) }
pub open spec fn to_upstream(cs: Seq<Constraint>, root: NonZeroOid, u: NonZeroOid) -> bool { cs.len() == 1 && is_move(cs[0], root, u) }
/// The main branch goes to where its upstream is, or its own commits go there.
pub open spec fn main_synced(i: &Inner, b: Branch, h: ResolvedReferenceInfo, u: NonZeroOid, a0: Seq<Act>, a1: Seq<Act>) -> bool {
    if forall|x: NonZeroOid| !#[trigger] ahead(i, b.at(), u, x) {
        a1 == a0.push(if h.reference_name == Some(b.name()) { Act::GitRebase(u) } else { Act::SetRef(b.name(), u) })
    } else {
        a1 == a0 || exists|root: NonZeroOid, p: RebasePlan, cs: Seq<Constraint>| #![trigger made_of(&p, cs, Map::empty()), to_upstream(cs, root, u)] ahead(i, b.at(), u, root) && to_upstream(cs, root, u) && made_of(&p, cs, Map::empty()) && a1 == a0.push(Act::Run(p))
    }
}
//@fn git-branchless/src/commands/sync.rs::execute_main_branch_sync_plan
//@sig
pub fn execute_main_branch_sync_plan(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, build_options: &BuildRebasePlanOptions, execute_options: &ExecuteRebasePlanOptions, thread_pool: &ThreadPool, repo_pool: &RepoPool, head_info: &ResolvedReferenceInfo, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> exists|b: Branch| #![trigger b.name()] b.name() == repo.main_name()
        && if b.tracks() is None || b.tracks()->Some_0.at() is None { final(w).acts@ == old(w).acts@ } else { exists|d: Dag| #[trigger] d.wf() && main_synced(&d.inner, b, *head_info, b.tracks()->Some_0.at()->Some_0, old(w).acts@, final(w).acts@) }
//@after_let local_main_branch_commits
    let ghost us = upstream_main_branch_oid;
    proof {
        assert(dag.wf());
        let i = dag.inner; let l = local_main_branch.at();
        let ls = Set::<NonZeroOid>::empty().insert(us);
        assert forall|x: NonZeroOid| #![trigger local_main_branch_commits@.contains(x)] #![trigger ahead(&i, l, us, x)] local_main_branch_commits@.contains(x) <==> ahead(&i, l, us, x) by {
            assert(ls.contains(us));
            if i.anc(x, us) { assert(i.up(ls, x)); }
            if l is Some { assert(opt_set(l).contains(l->Some_0)); if i.anc(x, l->Some_0) { assert(i.up(opt_set(l), x)); } }
        }
    }
//@after_let rebase_plan#1
    proof {
        let cs = builder.asked();
        assert(to_upstream(cs, root_commit_oid, us));
        assert(made_of(&rebase_plan, cs, Map::empty()));
        assert(all_run(seq![(root_commit_oid, Some(rebase_plan))], 0, w.acts@) == w.acts@);
        assert(all_run(seq![(root_commit_oid, Some(rebase_plan))], 1, w.acts@) == w.acts@.push(Act::Run(rebase_plan)));
    }
//@end

#[verifier::external_body]
pub struct Revset { x: u64 }
#[verifier::external_body]
pub struct ResolveRevsetOptions { x: u64 }
#[verifier::external_body]
pub struct ResolveError { x: u64 }
pub uninterp spec fn resolved(v: Seq<Revset>) -> Seq<CommitSet>;
#[verifier::external_body]
pub fn vx_resolve(dag: &mut Dag, v: &Vec<Revset>) -> (r: Result<Vec<CommitSet>, ResolveError>) requires old(dag).wf() ensures final(dag).wf(), r is Ok ==> r->Ok_0@ == resolved(v@) { unimplemented!() }
impl Commit {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
    #[verifier::external_body]
    pub fn only_parent_oid(&self) -> (r: Option<NonZeroOid>) ensures r == only_parent(self.oid()) { unimplemented!() }
}
pub uninterp spec fn only_parent(o: NonZeroOid) -> Option<NonZeroOid>;
#[verifier::external_body]
pub fn vx_commit(r: &Repo, o: NonZeroOid) -> (c: EyreResult<Commit>) ensures c is Ok ==> c->Ok_0.oid() == o { unimplemented!() }
/// The commits of a set in some order (assumed: sorting keeps them all).
#[verifier::external_body]
pub fn sorted_commit_set(repo: &Repo, dag: &Dag, s: &CommitSet) -> (r: EyreResult<Vec<Commit>>)
    ensures r is Ok ==> (forall|i: int| 0 <= i < r->Ok_0@.len() ==> s@.contains((#[trigger] r->Ok_0@[i]).oid())) && forall|x: NonZeroOid| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < r->Ok_0@.len() && (#[trigger] r->Ok_0@[i]).oid() == x { unimplemented!() }
#[verifier::external_body]
pub fn vx_install<T, F: FnOnce() -> T>(f: F) -> (r: T) requires f.requires(()) ensures f.ensures((), r) { unimplemented!() }
impl<T> VxFromIter<Result<T, BuildRebasePlanError>> for Result<Vec<T>, BuildRebasePlanError> {
    open spec fn vx_from(s: Seq<Result<T, BuildRebasePlanError>>, r: Self) -> bool {
        &&& r is Ok ==> r->Ok_0@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger r->Ok_0@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, BuildRebasePlanError>(r->Ok_0@[i])
        &&& r is Err ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err
    }
}
impl<'a> Clone for RebasePlanBuilder<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// This stack goes on top of the main branch, unless it is there already.
pub open spec fn stack_plan(p: PP, main: NonZeroOid) -> bool {
    match p.1 {
        Some(plan) => exists|cs: Seq<Constraint>| to_upstream(cs, p.0, main) && #[trigger] made_of(&plan, cs, Map::empty()),
        None => only_parent(p.0) == Some(main) || exists|cs: Seq<Constraint>| to_upstream(cs, p.0, main) && #[trigger] nothing_to_do(cs, Map::empty()),
    }
}
pub open spec fn sync_plans(roots: S, ps: Seq<PP>, main: NonZeroOid) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> roots.contains((#[trigger] ps[i]).0) && stack_plan(ps[i], main)
    &&& forall|x: NonZeroOid| #[trigger] roots.contains(x) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x
}
//@fn git-branchless/src/commands/sync.rs::execute_sync_plans
//@sig
pub fn execute_sync_plans(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, build_options: BuildRebasePlanOptions, execute_options: &ExecuteRebasePlanOptions, thread_pool: &ThreadPool, repo_pool: &RepoPool, revsets: Vec<Revset>, resolve_revset_options: &ResolveRevsetOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> exists|d: Dag, roots: S, ps: Seq<PP>| #![trigger stack_roots(&d, resolved(revsets@), roots), sync_plans(roots, ps, repo.main_oid_now())]
        stack_roots(&d, resolved(revsets@), roots) && sync_plans(roots, ps, repo.main_oid_now()) && final(w).acts@ == all_run(ps, ps.len() as int, old(w).acts@)
//@after_let root_commit_oids
    let ghost roots = root_commit_oids@;
    proof { assert(stack_roots(&dag, resolved(revsets@), roots)); }
//@after_let root_commits
    let ghost rc = root_commits@;
//@after_let root_commit_oids#1
    let ghost ro = root_commit_oids@;
    proof { assert(forall|i: int| 0 <= i < rc.len() ==> #[trigger] ro[i] == rc[i].oid()); }
//@after_let root_commit_and_plans#1
    proof {
        let ps = root_commit_and_plans@;
        assert forall|x: NonZeroOid| #[trigger] roots.contains(x) implies exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x by {
            let i = choose|i: int| 0 <= i < rc.len() && (#[trigger] rc[i]).oid() == x;
            assert(ps[i].0 == ro[i]);
        }
        assert forall|i: int| 0 <= i < ps.len() implies roots.contains((#[trigger] ps[i]).0) && stack_plan(ps[i], main_branch_oid) by { assert(ps[i].0 == ro[i]); assert(ro[i] == rc[i].oid()); }
        assert(sync_plans(roots, ps, main_branch_oid));
    }
//@closure 0
    -> (b: NonZeroOid) ensures b == $0.oid()
//@closure 1
    -> (b: EyreResult<Result<Vec<PP>, BuildRebasePlanError>>) ensures b is Ok && b->Ok_0 is Ok ==> b->Ok_0->Ok_0@.len() == root_commit_oids@.len() && forall|i: int| 0 <= i < b->Ok_0->Ok_0@.len() ==> (#[trigger] b->Ok_0->Ok_0@[i]).0 == root_commit_oids@[i] && stack_plan(b->Ok_0->Ok_0@[i], main_branch_oid)
//@closure 2
    -> (b: EyreResult<Result<PP, BuildRebasePlanError>>) ensures b is Ok && b->Ok_0 is Ok ==> b->Ok_0->Ok_0.0 == root_commit_oid && stack_plan(b->Ok_0->Ok_0, main_branch_oid)
//@end
} // verus!
