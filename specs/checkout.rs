// C18: what is checked out.

//@rule oid.to_string() => vx_oid_text(oid)
//@rule commit.get_oid().to_string() => vx_oid_text(commit.get_oid())
//@rule current_target == head_oid.map(__F) => vx_is_commit(&current_target, head_oid)
//@rule branch_names.iter().exactly_one() => vx_only(branch_names)
//@rule branch.to_owned() => *branch
//@rule branches.iter().next().unwrap() => vx_any(branches)
//@rule get_undo_create_snapshots(repo) => vx_snapshots_on(repo)
//@rule get_auto_switch_branches(repo) => vx_auto_switch(repo)
//@rule create_snapshot(__A, __B, __C, __D, __E) => w.create_snapshot()
//@rule git_run_info.run(effects, Some(event_tx_id), &["reset", target]) => w.git_reset(target)
//@rule git_run_info.run(effects, Some(event_tx_id), checkout_args.as_slice()) => w.git_checkout(&checkout_args)
//@rule git_run_info.run_direct_no_wrapping(Some(event_tx_id), &["branchless", "smartlog"]) => w.smartlog()
//@rule OsStr::new(__X) => vx_arg(__X)
//@rule args.extend(additional_args.iter().map(OsStr::new)) => vx_extend(&mut args, additional_args)
//@rule repo.get_head_info() => w.get_head_info()
//@rule WorkingCopySnapshot::try_from_base_commit(__A, __B) => vx_snapshot_at(__B)
//@rule restore_snapshot(__A, __B, __C, __D, __E) => w.restore_snapshot(__E)
//@rule __X.into() => vx_arg(__X)
//@rule SystemTime::now() => vx_now()
//@rule Repo::from_current_dir() => vx_repo()
//@rule repo.get_db_conn() => vx_conn()
//@rule EventLogDb::new(&conn) => vx_db(&conn)
//@rule EventReplayer::from_event_log_db(__A, __B, __C) => vx_replayer()
//@rule Dag::open_and_sync(__A, __B, __C, __D, __E) => vx_dag(__E)
//@rule advance(__A, __B, __C, __D, __E, __F, __G, __H) => advance(__A, __B, __C, __E, __F, __G, __H)
//@rule check_out_commit(__A, __B, __C, __D, __E, __F, __G) => check_out_commit(__A, __B, __C, __D, __E, __F, __G, w)
//@rule repo.revparse_single_commit(__T.to_string().as_ref()) => vx_revparse(&repo, __T)
//@rule target.to_string() => vx_revset_text(target)
//@rule prompt_select_commit(None, __S, graph.get_commits(), __D) => vx_prompt_any()
//@rule resolve_commits(effects, &repo, &mut dag, &[target.clone()], __O) => vx_resolve(&mut dag, &target)
//@rule target.clone() => vx_same_revset(target)
//@rule String::new() => vx_no_text()
//@drop_let resolve_default_smartlog_commits(__A, __B, __C)?
//@drop_let make_smartlog_graph(__A, __B, __C, __D, __E, __F, __G)?
//@drop_macro warn
verus! {
pub struct ExitCode(pub isize);
pub type EyreExitOr<T> = EyreResult<Result<T, ExitCode>>;
pub type Txt = Seq<char>;
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
#[verifier::external_body]
pub struct SystemTime { x: u64 }
#[verifier::external_body]
pub fn vx_now() -> SystemTime { unimplemented!() }
#[verifier::external_body]
pub struct Conn { x: u64 }
#[verifier::external_body]
pub fn vx_conn() -> EyreResult<Conn> { unimplemented!() }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub fn vx_db(c: &Conn) -> EyreResult<EventLogDb> { unimplemented!() }
impl EventLogDb {
    #[verifier::external_body]
    pub fn make_transaction_id(&self, now: SystemTime, m: &str) -> EyreResult<EventTransactionId> { unimplemented!() }
}
#[verifier::external_body]
pub struct Replayer { x: u64 }
#[verifier::external_body]
pub fn vx_replayer() -> EyreResult<Replayer> { unimplemented!() }
impl Replayer {
    #[verifier::external_body]
    pub fn make_default_cursor(&self) -> EventCursor { unimplemented!() }
}
pub uninterp spec fn the_repo() -> Repo;
#[verifier::external_body]
pub fn vx_repo() -> (r: EyreResult<Repo>) ensures r is Ok ==> r->Ok_0 == the_repo() { unimplemented!() }
/// The commit graph of these references (assumed here; see C09).
pub uninterp spec fn graph_of(s: RepoReferencesSnapshot) -> Dag;
#[verifier::external_body]
pub fn vx_dag(s: &RepoReferencesSnapshot) -> (r: EyreResult<Dag>) ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0 == graph_of(*s) { unimplemented!() }
impl Repo {
    /// The references before anything is checked out.
    pub uninterp spec fn refs_now(&self) -> RepoReferencesSnapshot;
    pub uninterp spec fn auto_switch(&self) -> bool;
    pub uninterp spec fn snapshots_on(&self) -> bool;
    #[verifier::external_body]
    pub fn get_references_snapshot(&self) -> (r: EyreResult<RepoReferencesSnapshot>) ensures r is Ok ==> r->Ok_0 == self.refs_now() { unimplemented!() }
    #[verifier::external_body]
    pub fn find_commit_or_fail(&self, o: NonZeroOid) -> (r: EyreResult<Commit>) ensures r is Ok ==> r->Ok_0.oid() == o { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_snapshots_on(r: &Repo) -> (b: EyreResult<bool>) ensures b is Ok ==> b->Ok_0 == r.snapshots_on() { unimplemented!() }
#[verifier::external_body]
pub fn vx_auto_switch(r: &Repo) -> (b: EyreResult<bool>) ensures b is Ok ==> b->Ok_0 == r.auto_switch() { unimplemented!() }

// ---- texts and arguments
pub uninterp spec fn oid_text(o: NonZeroOid) -> Txt;
#[verifier::external_body]
pub fn vx_oid_text(o: NonZeroOid) -> (r: String) ensures r@ == oid_text(o) { unimplemented!() }
pub open spec fn txt(o: Option<String>) -> Option<Txt> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body]
pub fn vx_is_commit(t: &Option<String>, h: Option<NonZeroOid>) -> (r: bool) ensures r == (txt(*t) == oid_txt(h)) { unimplemented!() }
pub open spec fn oid_txt(h: Option<NonZeroOid>) -> Option<Txt> { match h { Some(o) => Some(oid_text(o)), None => None } }
#[verifier::external_body]
pub struct OsString { x: u64 }
pub uninterp spec fn arg(s: Txt) -> OsString;
pub trait VxText { spec fn text(self) -> Txt; }
impl VxText for &str { open spec fn text(self) -> Txt { self@ } }
impl VxText for &String { open spec fn text(self) -> Txt { self@ } }
#[verifier::external_body]
pub fn vx_arg<S: VxText>(s: S) -> (r: OsString) ensures r == arg(s.text()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend(a: &mut Vec<OsString>, b: &Vec<OsString>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
impl VxDefault for CheckOutCommitOptions {
    open spec fn vx_is_default(&self) -> bool { self.additional_args@ == Seq::<OsString>::empty() && !self.reset && self.render_smartlog }
    fn vx_default() -> (r: Self) { CheckOutCommitOptions::default() }
}

// ---- what checking out does
#[verifier::external_body]
pub struct WorkingCopySnapshot { x: u64 }
pub uninterp spec fn snapshot_at(o: NonZeroOid) -> Option<WorkingCopySnapshot>;
#[verifier::external_body]
pub fn vx_snapshot_at(c: &Commit) -> (r: EyreResult<Option<WorkingCopySnapshot>>) ensures r is Ok ==> r->Ok_0 == snapshot_at(c.oid()) { unimplemented!() }
pub ghost enum Act { Snapshot, Reset(Txt), Checkout(Seq<OsString>), Restore(WorkingCopySnapshot), Smartlog }
/// What was done so far, and where HEAD is.
pub struct World { pub acts: Ghost<Seq<Act>>, pub head: Ghost<Option<NonZeroOid>> }
pub struct ResolvedReferenceInfo { pub oid: Option<NonZeroOid>, pub reference_name: Option<ReferenceName> }
impl World {
    pub open spec fn did(self, o: World, a: Act) -> bool { self.acts@ == o.acts@.push(a) }
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<ResolvedReferenceInfo>) ensures r is Ok ==> r->Ok_0.oid == self.head@ { unimplemented!() }
    #[verifier::external_body]
    pub fn create_snapshot(&mut self) -> (r: EyreResult<WorkingCopySnapshot>) ensures final(self).head == old(self).head, final(self).did(*old(self), Act::Snapshot) { unimplemented!() }
    #[verifier::external_body]
    pub fn git_reset(&mut self, t: &String) -> (r: EyreExitOr<()>) ensures final(self).did(*old(self), Act::Reset(t@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn git_checkout(&mut self, a: &Vec<OsString>) -> (r: EyreExitOr<()>) ensures final(self).did(*old(self), Act::Checkout(a@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn restore_snapshot(&mut self, s: &WorkingCopySnapshot) -> (r: EyreExitOr<()>) ensures final(self).did(*old(self), Act::Restore(*s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn smartlog(&mut self) -> (r: EyreExitOr<()>) ensures final(self).head == old(self).head, final(self).did(*old(self), Act::Smartlog) { unimplemented!() }
}
pub enum CheckoutTarget { Oid(NonZeroOid), Reference(ReferenceName), Unknown(String) }
//@item git-branchless-lib/src/core/check_out.rs::CheckOutCommitOptions
impl CheckOutCommitOptions {
//@fn git-branchless-lib/src/core/check_out.rs::CheckOutCommitOptions::default
//@contract
    ensures r.additional_args@ == Seq::<OsString>::empty(), !r.reset, r.render_smartlog
//@end
}
#[verifier::external_body]
pub fn vx_only(s: &HashSet<ReferenceName>) -> (r: Result<&ReferenceName, VErr>)
    ensures r is Ok ==> only(s@, *r->Ok_0), r is Err ==> forall|n: ReferenceName| !#[trigger] only(s@, n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_any(s: &HashSet<ReferenceName>) -> (r: &ReferenceName) requires s@.len() > 0 ensures s@.contains(*r) { unimplemented!() }
pub open spec fn only(s: Set<ReferenceName>, n: ReferenceName) -> bool { s == Set::<ReferenceName>::empty().insert(n) }
pub proof fn lemma_only(s: Set<ReferenceName>, n: ReferenceName, m: ReferenceName) requires only(s, n), only(s, m) ensures n == m { assert(s.contains(n)); }
pub proof fn lemma_one(s: Set<ReferenceName>)
    ensures s.len() == 1 ==> forall|n: ReferenceName| #[trigger] s.contains(n) ==> only(s, n), forall|n: ReferenceName| #[trigger] only(s, n) ==> s.len() == 1 && s.contains(n)
{
    assert forall|n: ReferenceName| s.len() == 1 && #[trigger] s.contains(n) implies only(s, n) by { assert(s.remove(n).len() == 0); assert(s.remove(n) =~= Set::<ReferenceName>::empty()); assert(s =~= s.remove(n).insert(n)); }
    assert forall|n: ReferenceName| #[trigger] only(s, n) implies s.len() == 1 && s.contains(n) by {}
}
pub open spec fn named(s: RepoReferencesSnapshot, o: NonZeroOid, n: ReferenceName) -> bool { s.branch_oid_to_names@.dom().contains(o) && only(s.branch_oid_to_names@[o]@, n) }
/// Nothing new is asked for.
pub open spec fn already(s: RepoReferencesSnapshot, t: Option<Txt>, oid: Option<NonZeroOid>) -> bool { t is Some && (s.head_oid is Some && s.head_oid == oid || t == oid_txt(s.head_oid)) }
/// The branch of the commit instead of the commit, if there is exactly one.
pub open spec fn branch_instead(s: RepoReferencesSnapshot, t: Option<Txt>, oid: Option<NonZeroOid>, r: Option<Txt>) -> bool {
    !already(s, t, oid) && by_branch(s, if t is Some { oid } else { s.head_oid }, t, r) || already(s, t, oid) && r == t
}
pub open spec fn by_branch(s: RepoReferencesSnapshot, o: Option<NonZeroOid>, t: Option<Txt>, r: Option<Txt>) -> bool {
    if o is Some && exists|n: ReferenceName| named(s, o->Some_0, n) { exists|n: ReferenceName| #[trigger] named(s, o->Some_0, n) && r == Some(short_name(n)) } else { r == t }
}
//@fn git-branchless-lib/src/core/check_out.rs::maybe_get_branch_name
//@contract
    ensures r is Ok ==> branch_instead(repo.refs_now(), txt(current_target), oid, txt(r->Ok_0))
//@prologue
    let ghost refs = repo.refs_now();
    let ghost ct = current_target;
    let ghost want = if current_target is Some { oid } else { refs.head_oid };
//@epilogue
    proof {
        if want is Some && refs.branch_oid_to_names@.dom().contains(want->Some_0) {
            let s = refs.branch_oid_to_names@[want->Some_0]@;
            assert forall|a: ReferenceName, b: ReferenceName| #[trigger] only(s, a) && #[trigger] only(s, b) implies a == b by { lemma_only(s, a, b); }
            if exists|n: ReferenceName| only(s, n) { let n = choose|n: ReferenceName| only(s, n); assert(named(refs, want->Some_0, n)); }
        }
        assert(vx_ret is Ok ==> by_branch(refs, want, txt(ct), txt(vx_ret->Ok_0)));
    }
//@end
pub open spec fn asked_text(t: Option<CheckoutTarget>) -> Option<Txt> { match t { None => None, Some(CheckoutTarget::Reference(n)) => Some(short_name(n)), Some(CheckoutTarget::Oid(o)) => Some(oid_text(o)), Some(CheckoutTarget::Unknown(s)) => Some(s@) } }
pub open spec fn asked_oid(t: Option<CheckoutTarget>) -> Option<NonZeroOid> { match t { Some(CheckoutTarget::Oid(o)) => Some(o), _ => None } }
/// What Git is told to go to.
pub open spec fn goal(r: &Repo, t: Option<CheckoutTarget>, reset: bool, g: Option<Txt>) -> bool {
    if r.auto_switch() && !reset { branch_instead(r.refs_now(), asked_text(t), asked_oid(t), g) } else { g == asked_text(t) }
}
pub open spec fn args_for(g: Option<Txt>, more: Seq<OsString>) -> Seq<OsString> { (match g { Some(t) => seq![arg("checkout"@), arg(t)], None => seq![arg("checkout"@)] }) + more }
pub open spec fn moved_head(g: Option<Txt>, o: &CheckOutCommitOptions, a: Seq<Act>) -> Seq<Act> {
    if o.reset { match g { Some(t) => a.push(Act::Reset(t)), None => a } } else { a.push(Act::Checkout(args_for(g, o.additional_args@))) }
}
pub open spec fn snapshotted(r: &Repo, a: Seq<Act>) -> Seq<Act> { if r.snapshots_on() { a.push(Act::Snapshot) } else { a } }
/// A snapshot is taken, HEAD goes there, and the snapshot found there, if any, is given back.
pub open spec fn checked_out(r: &Repo, t: Option<CheckoutTarget>, o: &CheckOutCommitOptions, a: Seq<Act>, b: Seq<Act>) -> bool {
    exists|g: Option<Txt>, h: Option<NonZeroOid>| #![trigger goal(r, t, o.reset, g), given_back(h, o, seq![])] goal(r, t, o.reset, g) && b == moved_head(g, o, snapshotted(r, a)) + given_back(h, o, seq![])
}
pub open spec fn given_back(h: Option<NonZeroOid>, o: &CheckOutCommitOptions, a: Seq<Act>) -> Seq<Act> {
    let b = if h is Some && snapshot_at(h->Some_0) is Some { a.push(Act::Restore(snapshot_at(h->Some_0)->Some_0)) } else { a };
    if o.render_smartlog { b.push(Act::Smartlog) } else { b }
}
/// It did not get further than moving HEAD.
pub open spec fn not_checked_out(r: &Repo, t: Option<CheckoutTarget>, o: &CheckOutCommitOptions, a: Seq<Act>, b: Seq<Act>) -> bool {
    exists|g: Option<Txt>| #[trigger] goal(r, t, o.reset, g) && moved_head(g, o, snapshotted(r, a)).is_prefix_of(b)
}
//@fn git-branchless-lib/src/core/check_out.rs::check_out_commit
//@sig
pub fn check_out_commit(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, event_tx_id: EventTransactionId, target: Option<CheckoutTarget>, options: &CheckOutCommitOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> checked_out(repo, target, options, old(w).acts@, final(w).acts@),
        r is Ok && r->Ok_0 is Err ==> not_checked_out(repo, target, options, old(w).acts@, final(w).acts@)
//@prologue
    let ghost t0 = target;
//@after_let target#1
    let ghost g = txt(target);
    let ghost a1 = w.acts@;
    let ghost mut h = None::<NonZeroOid>;
    let ghost mut a2 = a1;
    proof { assert(goal(repo, t0, options.reset, g)); assert(a1 == snapshotted(repo, old(w).acts@)); }
//@after_let checkout_args
    proof { assert(checkout_args@ =~= args_for(g, options.additional_args@)); }
//@after_let head_info
    proof { h = head_info.oid; a2 = w.acts@; assert(a2 == moved_head(g, options, a1)); }
//@epilogue
    proof { assert(goal(repo, t0, options.reset, g)); assert(w.acts@ =~= a2 + given_back(h, options, seq![])); }
//@end

// ---- next and prev
//@item git-branchless-opts/src/lib.rs::TraverseCommitsOptions Clone,Copy
pub open spec fn opt_distance(o: TraverseCommitsOptions) -> Distance {
    if o.all_the_way { Distance::AllTheWay { move_by_branches: o.move_by_branches } } else { Distance::NumCommits { amount: match o.num_commits { Some(n) => n, None => 1 }, move_by_branches: o.move_by_branches } }
}
pub open spec fn opt_towards(o: TraverseCommitsOptions) -> Option<Towards> { if o.oldest { Some(Towards::Oldest) } else if o.newest { Some(Towards::Newest) } else if o.interactive { Some(Towards::Interactive) } else { None } }
/// By branches: the branch there if there is just one.
pub open spec fn end_of_trip(s: RepoReferencesSnapshot, by_branches: bool, o: NonZeroOid, t: CheckoutTarget) -> bool {
    t == CheckoutTarget::Oid(o) && (by_branches ==> forall|n: ReferenceName| !#[trigger] named(s, o, n)) || by_branches && exists|n: ReferenceName| #[trigger] named(s, o, n) && t == CheckoutTarget::Reference(n)
}
pub open spec fn checkout_flags(merge: bool, force: bool) -> Seq<OsString> { (if merge { seq![arg("--merge"@)] } else { seq![] }) + (if force { seq![arg("--force"@)] } else { seq![] }) }
pub open spec fn plain(o: CheckOutCommitOptions, args: Seq<OsString>) -> bool { o.additional_args@ == args && !o.reset && o.render_smartlog }
/// The way from HEAD to where the command goes.
pub open spec fn traveled(c: Command, o: TraverseCommitsOptions, s: RepoReferencesSnapshot, x: NonZeroOid) -> bool {
    let r = the_repo();
    exists|p: Seq<NonZeroOid>| #[trigger] trip(&r, &graph_of(s), way(&r, c, opt_distance(o), opt_towards(o)), p) && Some(p[0]) == s.head_oid && p.last() == x && arrived(&r, &graph_of(s), way(&r, c, opt_distance(o), opt_towards(o)), opt_distance(o), p)
}
pub open spec fn went(c: Command, o: TraverseCommitsOptions, a: Seq<Act>, b: Seq<Act>) -> bool {
    let s = the_repo().refs_now();
    exists|x: NonZeroOid, t: CheckoutTarget, co: CheckOutCommitOptions| #![trigger traveled(c, o, s, x), checked_out(&the_repo(), Some(t), &co, a, b)]
        traveled(c, o, s, x) && end_of_trip(s, o.move_by_branches, x, t) && plain(co, checkout_flags(o.merge, o.force)) && checked_out(&the_repo(), Some(t), &co, a, b)
}
//@fn git-branchless-navigation/src/lib.rs::traverse_commits
//@sig
pub fn traverse_commits(effects: &Effects, git_run_info: &GitRunInfo, command: Command, options: &TraverseCommitsOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> went(command, *options, old(w).acts@, final(w).acts@)
//@after_let branches
    proof {
        lemma_one(branches@);
        assert forall|n: ReferenceName| #![trigger named(references_snapshot, current_oid, n)] #![trigger only(branches@, n)] named(references_snapshot, current_oid, n) <==> only(branches@, n) by { if only(branches@, n) { assert(branches@.contains(n)); } }
    }
//@after_let checkout_target
    proof { assert(end_of_trip(references_snapshot, move_by_branches, current_oid, checkout_target)); assert(traveled(command, *options, references_snapshot, current_oid)); }
//@after_let additional_args
    proof { assert(additional_args@ =~= checkout_flags(merge, force)); }
//@end

// ---- switch
#[verifier::external_body]
pub struct Revset { x: u64 }
//@item git-branchless-opts/src/lib.rs::SwitchOptions
pub enum Target { Interactive(String), Passthrough(String), Revset(Revset), None }
pub uninterp spec fn revset_text(r: Revset) -> Txt;
#[verifier::external_body]
pub fn vx_revset_text(r: &Revset) -> (s: String) ensures s@ == revset_text(*r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same_revset(r: &Revset) -> (s: Revset) ensures s == *r { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_text() -> (s: String) ensures s@ == Seq::<char>::empty() { unimplemented!() }
/// Whether Git itself knows a commit by this name.
pub uninterp spec fn known_to_git(t: Txt) -> bool;
#[verifier::external_body]
pub fn vx_revparse(repo: &Repo, t: &Revset) -> (r: EyreResult<Option<Commit>>) ensures (r is Ok && r->Ok_0 is Some) == known_to_git(revset_text(*t)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_prompt_any() -> EyreResult<Option<NonZeroOid>> { unimplemented!() }
pub uninterp spec fn meant(r: Revset) -> Seq<CommitSet>;
#[verifier::external_body]
pub fn vx_resolve(dag: &mut Dag, r: &Revset) -> (s: EyreResult<Vec<CommitSet>>) requires old(dag).wf() ensures final(dag).wf(), s is Ok ==> s->Ok_0@ == meant(*r) { unimplemented!() }
/// The one head of what the expression means.
pub open spec fn single_head(r: Revset, o: NonZeroOid) -> bool { exists|d: Dag, s: S| #[trigger] d.inner.are_heads(union_of(meant(r)), s) && by_age(&the_repo(), &d, s) == seq![o] }
pub open spec fn switch_goal(o: SwitchOptions, t: Option<CheckoutTarget>) -> bool {
    match (o.interactive, o.target) {
        (true, _) => t is Some && t->Some_0 is Oid,
        (false, None) => t is None,
        (false, Some(r)) => t is Some && t->Some_0 is Unknown && if known_to_git(revset_text(r)) { t->Some_0->Unknown_0@ == revset_text(r) } else { exists|h: NonZeroOid| #[trigger] single_head(r, h) && t->Some_0->Unknown_0@ == oid_text(h) },
    }
}
pub open spec fn switch_args(o: SwitchOptions) -> Seq<OsString> {
    (match o.branch_name { Some(b) => seq![arg("-b"@), arg(b@)], None => seq![] }) + (if o.force { seq![arg("--force"@)] } else { seq![] }) + (if o.merge { seq![arg("--merge"@)] } else { seq![] }) + (if o.detach { seq![arg("--detach"@)] } else { seq![] })
}
pub open spec fn switched(o: SwitchOptions, a: Seq<Act>, b: Seq<Act>) -> bool {
    exists|t: Option<CheckoutTarget>, co: CheckOutCommitOptions| #[trigger] checked_out(&the_repo(), t, &co, a, b) && switch_goal(o, t) && plain(co, switch_args(o))
}
//@fn git-branchless-navigation/src/lib.rs::switch
//@sig
pub fn switch(effects: &Effects, git_run_info: &GitRunInfo, switch_options: &SwitchOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> switched(*switch_options, old(w).acts@, final(w).acts@)
//@after_let commits
    proof { if commits@.len() == 1 { assert(oids(commits@) =~= seq![commits@[0].oid()]); assert(dag.inner.are_heads(union_of(meant(target)), commit_set@)); assert(single_head(target, commits@[0].oid())); } }
//@after_let target#1
    proof { assert(switch_goal(*switch_options, target)); }
//@after_let additional_args
    proof { assert(additional_args@ =~= switch_args(*switch_options)); }
//@end
} // verus!
