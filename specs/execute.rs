// C12-C14: carrying out a plan: the commits it makes, the branches it moves, where HEAD ends up.
//@format_args
//@type String => Text
//@type BString => Text
//@rule BString::from(__X) => __X
//@rule __X.to_str() => vx_to_str(__X)
//@rule __X.ok_or_else(__F) => vx_ok_or(__X)
//@rule names.sort_unstable() => vx_sort(&mut names)
//@rule __X.strip_prefix(__P) => vx_strip_prefix(__X, __P)
//@rule repo.get_head_info() => w.get_head_info()
//@rule repo.find_reference(__X) => w.find_reference(__X)
//@rule repo.resolve_reference(__X) => w.resolve_reference(__X)
//@rule repo.get_branch_oid_to_names() => w.get_branch_oid_to_names()
//@rule repo.create_reference(__A, __B, __C, __D) => w.create_reference(__A, __B, __C)
//@rule repo.find_branch(__A, __B) => w.find_branch(__A, __B)
//@rule main_branch_reference.delete() => w.delete_reference(&main_branch_reference)
//@rule branch.delete() => w.delete_branch(&branch)
//@rule repo.detach_head(__X) => w.detach_head(__X)
//@rule mark_commit_reachable(__R, __C) => w.mark_commit_reachable(__C)
//@rule git_run_info.run_hook(__A, __B, __C, __D, __E, __F) => w.run_hook(__C, __D, __E, __F)
//@rule check_out_commit(__A, __B, __C, __D, __E, __F, __G) => w.check_out_commit(__F, __G)
//@rule check_out_updated_head(__A, __B, __C, __D, __E, __F, __G, __H, __I) => check_out_updated_head(__A, __B, __C, __D, __E, __F, __G, __H, __I, w)
//@rule move_branches(__A, __B, __C, __D, __E) => move_branches(__A, __B, __C, __D, __E, w)
//@rule rebase_in_memory(__A, __B, __C, __D) => rebase_in_memory(__A, __B, __C, __D, w)
//@rule post_rebase_in_memory(__A, __B, __C, __D, __E, __F, __G) => post_rebase_in_memory(__A, __B, __C, __D, __E, __F, __G, w)
//@rule rebase_on_disk(__A, __B, __C, __D, __E) => w.rebase_on_disk(__D, __E)
//@rule progress.notify_progress(__A, __B) => vx_usize2(__A, __B)
//@drop_let __A.start_operation(__B)
//@drop_let __A.render(__B)?
//@drop_let __A.get_glyphs().render(__B)?
//@drop_let __A.friendly_describe(__B)?
//@drop_stmt progress.notify_status(__A, __B)
//@rule skipped_head_new_oid.get_or_insert(__X) => vx_get_or_insert(&mut skipped_head_new_oid, __X)
verus! {
/// Text: opaque values with equality and characters.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Text { pub id: u64 }
impl Text { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub broadcast proof fn axiom_text(a: Text, b: Text) ensures (#[trigger] a@) == (#[trigger] b@) ==> a == b {}
#[verifier::external_body]
pub fn vx_to_str(t: Text) -> (r: EyreResult<Text>) ensures r is Ok ==> r->Ok_0 == t { unimplemented!() }
#[verifier::external_body]
pub fn vx_ok_or<T>(o: Option<T>) -> (r: EyreResult<T>) ensures r is Ok <==> o is Some, r is Ok ==> r->Ok_0 == o->Some_0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_sort<T>(v: &mut Vec<T>) ensures final(v)@.len() == old(v)@.len(), forall|x: T| #![trigger final(v)@.contains(x)] #![trigger old(v)@.contains(x)] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
pub fn vx_usize2(a: usize, b: usize) {}
#[verifier::external_body]
pub fn vx_get_or_insert<T>(o: &mut Option<T>, x: T) ensures *final(o) == (if *old(o) is Some { *old(o) } else { Some(x) }) { unimplemented!() }

// ---- printed text
pub enum Disp { Oid(MaybeZeroOid), Chars(Seq<char>), Num(int) }
pub trait VxDisp { spec fn disp(&self) -> Disp; }
impl VxDisp for NonZeroOid { open spec fn disp(&self) -> Disp { Disp::Oid(MaybeZeroOid::NonZero(*self)) } }
impl VxDisp for MaybeZeroOid { open spec fn disp(&self) -> Disp { Disp::Oid(*self) } }
impl VxDisp for str { open spec fn disp(&self) -> Disp { Disp::Chars(self@) } }
impl VxDisp for Text { open spec fn disp(&self) -> Disp { Disp::Chars(self@) } }
impl VxDisp for usize { open spec fn disp(&self) -> Disp { Disp::Num(*self as int) } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Disp { (**self).disp() } }
/// What `format!` makes of its text and arguments.
pub uninterp spec fn printed(text: Seq<char>, args: Seq<Disp>) -> Text;
#[verifier::external_body]
pub fn vx_fmt1<A: VxDisp + ?Sized>(t: &str, a: &A) -> (r: Text) ensures r == printed(t@, seq![a.disp()]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt2<A: VxDisp + ?Sized, B: VxDisp + ?Sized>(t: &str, a: &A, b: &B) -> (r: Text) ensures r == printed(t@, seq![a.disp(), b.disp()]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt3<A: VxDisp + ?Sized, B: VxDisp + ?Sized, C: VxDisp + ?Sized>(t: &str, a: &A, b: &B, c: &C) -> (r: Text) ensures r == printed(t@, seq![a.disp(), b.disp(), c.disp()]) { unimplemented!() }
/// The lines one after the other.
pub uninterp spec fn joined(s: Seq<Text>) -> Text;
impl VxFromIter<Text> for Text { open spec fn vx_from(s: Seq<Text>, r: Self) -> bool { r == joined(s) } }

// ---- objects: a commit is identified by what it holds
#[verifier::external_body]
pub struct Tree<'r> { x: std::marker::PhantomData<&'r u8> }
pub struct TreeId { pub t: u128 }
impl<'r> Tree<'r> { pub uninterp spec fn id(&self) -> TreeId; }
#[derive(Clone, Copy)]
pub struct SystemTime { pub t: u64 }
pub struct Sig { pub name: Seq<char>, pub time: int }
#[verifier::external_body]
pub struct Signature<'r> { x: std::marker::PhantomData<&'r u8> }
pub uninterp spec fn at_time(s: Sig, t: SystemTime) -> Sig;
impl<'r> Signature<'r> {
    pub uninterp spec fn view(&self) -> Sig;
    #[verifier::external_body]
    pub fn update_timestamp(self, now: SystemTime) -> (r: EyreResult<Signature<'r>>) ensures r is Ok ==> r->Ok_0@ == at_time(self@, now) { unimplemented!() }
}
pub ghost struct Data { pub author: Sig, pub committer: Sig, pub message: Text, pub tree: TreeId, pub parents: Seq<NonZeroOid> }
/// What a commit holds, and the commit that holds it.
pub uninterp spec fn data(o: NonZeroOid) -> Data;
pub uninterp spec fn named(d: Data) -> NonZeroOid;
pub uninterp spec fn exists_(o: NonZeroOid) -> bool;
#[verifier::external_body]
pub struct Commit<'r> { x: std::marker::PhantomData<&'r u8> }
impl<'r> Commit<'r> {
    pub uninterp spec fn view(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_message_raw(&self) -> (r: Text) ensures r == data(self@).message { unimplemented!() }
    #[verifier::external_body]
    pub fn get_author(&self) -> (r: Signature<'r>) ensures r@ == data(self@).author { unimplemented!() }
    #[verifier::external_body]
    pub fn get_committer(&self) -> (r: Signature<'r>) ensures r@ == data(self@).committer { unimplemented!() }
    #[verifier::external_body]
    pub fn get_tree(&self) -> (r: EyreResult<Tree<'r>>) ensures r is Ok ==> r->Ok_0.id() == data(self@).tree { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parent_count(&self) -> (r: usize) ensures r == data(self@).parents.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == is_empty(self@) { unimplemented!() }
}
/// No change as compared with its only parent.
pub open spec fn is_empty(o: NonZeroOid) -> bool { data(o).parents.len() == 1 && data(o).tree == data(data(o).parents[0]).tree }
pub struct CherryPickFastOptions { pub reuse_parent_tree_if_possible: bool }
pub enum AmendFastOptions<'r> { FromCommit { commit: Commit<'r> } }
#[verifier::external_body]
pub struct PathBuf { x: u64 }
pub enum CreateCommitFastError { MergeConflict { conflicting_paths: HashSet<PathBuf> }, Other }
/// The files after applying a commit's change to another commit.
pub uninterp spec fn picked(apply: NonZeroOid, onto: NonZeroOid) -> TreeId;
/// The files of a commit with the change of another one as well.
pub uninterp spec fn with_change(commit: NonZeroOid, of: NonZeroOid) -> TreeId;
#[verifier::external_body]
pub struct Repo { x: u64 }
pub open spec fn oids(s: Seq<&Commit>) -> Seq<NonZeroOid> { Seq::new(s.len(), |i: int| s[i]@) }
impl Repo {
    #[verifier::external_body]
    pub fn find_commit_or_fail<'r>(&'r self, o: NonZeroOid) -> (r: EyreResult<Commit<'r>>) ensures r is Ok ==> r->Ok_0@ == o && exists_(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_commit<'r>(&'r self, o: NonZeroOid) -> (r: EyreResult<Option<Commit<'r>>>)
        ensures r is Ok ==> (r->Ok_0 is Some <==> exists_(o)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0@ == o) { unimplemented!() }
    #[verifier::external_body]
    pub fn cherry_pick_fast<'r>(&'r self, c: &Commit<'r>, onto: &Commit<'r>, o: &CherryPickFastOptions) -> (r: Result<Tree<'r>, CreateCommitFastError>)
        ensures r is Ok ==> r->Ok_0.id() == picked(c@, onto@) { unimplemented!() }
    #[verifier::external_body]
    pub fn amend_fast<'r>(&'r self, c: &Commit<'r>, o: &AmendFastOptions<'r>) -> (r: Result<Tree<'r>, CreateCommitFastError>)
        ensures r is Ok ==> r->Ok_0.id() == with_change(c@, o->FromCommit_commit@) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_commit<'r>(&'r self, update_ref: Option<&str>, author: &Signature<'r>, committer: &Signature<'r>, message: Text, tree: &Tree<'r>, parents: Vec<&Commit<'r>>) -> (r: EyreResult<NonZeroOid>)
        ensures r is Ok ==> exists_(r->Ok_0) && ({ let d = Data { author: author@, committer: committer@, message, tree: tree.id(), parents: oids(parents@) }; r->Ok_0 == named(d) && data(r->Ok_0) == d }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_main_branch<'r>(&'r self) -> (r: EyreResult<Branch<'r>>) ensures r is Ok ==> r->Ok_0.name() == main_name(self) && r->Ok_0.upstream() == main_upstream(self) { unimplemented!() }
}
pub uninterp spec fn main_name(r: &Repo) -> ReferenceName;
/// Where the branch that the main branch follows is.
pub uninterp spec fn main_upstream(r: &Repo) -> Option<NonZeroOid>;

// ---- references
#[verifier::external_body]
pub struct Branch<'r> { x: std::marker::PhantomData<&'r u8> }
#[verifier::external_body]
pub struct Reference<'r> { x: std::marker::PhantomData<&'r u8> }
impl<'r> Reference<'r> { pub uninterp spec fn name(&self) -> ReferenceName; }
impl<'r> Branch<'r> {
    pub uninterp spec fn name(&self) -> ReferenceName;
    pub uninterp spec fn upstream(&self) -> Option<NonZeroOid>;
    #[verifier::external_body]
    pub fn get_reference_name(&self) -> (r: EyreResult<ReferenceName>) ensures r is Ok ==> r->Ok_0 == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_upstream_branch_target(&self) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok ==> r->Ok_0 == self.upstream() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_reference(self) -> (r: Reference<'r>) ensures r.name() == self.name() { unimplemented!() }
}
pub enum BranchType { Local, Remote }
pub enum CategorizedReferenceName { LocalBranch { name: ReferenceName }, RemoteBranch { name: ReferenceName }, OtherRef { name: ReferenceName } }
pub uninterp spec fn category(n: ReferenceName) -> CategorizedReferenceName;
pub open spec fn local(n: ReferenceName) -> bool { category(n) is LocalBranch }
/// A branch's name without what all branches' names begin with.
pub uninterp spec fn suffix(n: ReferenceName) -> Text;
#[verifier::external_body]
pub proof fn axiom_suffix()
    ensures forall|a: ReferenceName, b: ReferenceName| local(a) && local(b) && #[trigger] suffix(a) == #[trigger] suffix(b) ==> a == b,
        forall|a: ReferenceName| local(a) ==> (#[trigger] category(a)) == (CategorizedReferenceName::LocalBranch { name: a }) {}
impl CategorizedReferenceName {
    #[verifier::external_body]
    pub fn new(n: &ReferenceName) -> (r: Self) ensures r == category(*n) { unimplemented!() }
    #[verifier::external_body]
    pub fn render_suffix(self) -> (r: Text) ensures self is LocalBranch ==> r == suffix(self->LocalBranch_name) { unimplemented!() }
}
pub open spec fn heads() -> Seq<char> { "refs/heads/"@ }
pub open spec fn short(t: Seq<char>) -> Seq<char> { if heads().is_prefix_of(t) { t.skip(heads().len() as int) } else { t } }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> p@.is_prefix_of(s@), r is Some ==> r->Some_0@ == s@.skip(p@.len() as int) { unimplemented!() }
impl ReferenceName {
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: ReferenceName) ensures ref_text(r) == s@ { unimplemented!() }
}
//@item git-branchless-lib/src/git/repo.rs::ResolvedReferenceInfo PartialEq, Eq, Structural
impl ResolvedReferenceInfo {
//@fn git-branchless-lib/src/git/repo.rs::ResolvedReferenceInfo::get_branch_name
//@sig
pub fn get_branch_name(&self) -> (r: EyreResult<Option<&str>>)
//@contract
    ensures r is Ok, r->Ok_0 is Some <==> self.reference_name is Some, r->Ok_0 is Some ==> r->Ok_0->Some_0@ == short(ref_text(self.reference_name->Some_0))
//@end
}

// ---- the world that is changed
#[verifier::external_body]
pub struct OsString { x: u64 }
//@item git-branchless-lib/src/core/check_out.rs::CheckoutTarget
//@item git-branchless-lib/src/core/check_out.rs::CheckOutCommitOptions
pub struct ExitCode(pub isize);
impl ExitCode { #[verifier::external_body] pub fn is_success(&self) -> (r: bool) ensures r == (self.0 == 0) { unimplemented!() } }
pub type EyreExitOr<T> = EyreResult<Result<T, ExitCode>>;
pub ghost struct HookCall { pub name: Seq<char>, pub tx: EventTransactionId, pub args: Seq<&'static str>, pub stdin: Option<Text> }
pub struct World {
    pub refs: Ghost<Map<ReferenceName, NonZeroOid>>, pub head: Ghost<ResolvedReferenceInfo>, pub hooks: Ghost<Seq<HookCall>>,
    pub kept: Ghost<Set<NonZeroOid>>, pub out: Ghost<Option<CheckoutTarget>>, pub on_disk: Ghost<bool>,
}
pub open spec fn at(m: Map<ReferenceName, NonZeroOid>, n: ReferenceName) -> MaybeZeroOid {
    if m.dom().contains(n) { MaybeZeroOid::NonZero(m[n]) } else { MaybeZeroOid::Zero }
}
impl World {
    pub open spec fn same_but_refs(self, o: World) -> bool { self.head == o.head && self.hooks == o.hooks && self.kept == o.kept && self.out == o.out && self.on_disk == o.on_disk }
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<ResolvedReferenceInfo>) ensures r is Ok ==> r->Ok_0 == self.head@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find_reference<'r>(&self, n: &ReferenceName) -> (r: EyreResult<Option<Reference<'r>>>)
        ensures r is Ok ==> (r->Ok_0 is Some <==> self.refs@.dom().contains(*n)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0.name() == *n) { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve_reference<'r>(&self, h: &Reference<'r>) -> (r: EyreResult<ResolvedReferenceInfo>)
        ensures r is Ok && self.refs@.dom().contains(h.name()) ==> r->Ok_0.oid == Some(self.refs@[h.name()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_branch_oid_to_names(&self) -> (r: EyreResult<HashMap<NonZeroOid, HashSet<ReferenceName>>>)
        ensures r is Ok ==> forall|o: NonZeroOid, n: ReferenceName| #[trigger] rmem(r->Ok_0@, o, n) <==> local(n) && self.refs@.dom().contains(n) && self.refs@[n] == o { unimplemented!() }
    #[verifier::external_body]
    pub fn create_reference(&mut self, n: &ReferenceName, o: NonZeroOid, force: bool) -> (r: EyreResult<()>)
        ensures final(self).same_but_refs(*old(self)), r is Ok && force ==> final(self).refs@ == old(self).refs@.insert(*n, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_branch<'r>(&self, t: &Text, b: BranchType) -> (r: EyreResult<Option<Branch<'r>>>)
        ensures r is Ok && b is Local ==> match r->Ok_0 {
            Some(h) => local(h.name()) && suffix(h.name()) == *t,
            None => forall|n: ReferenceName| local(n) && #[trigger] suffix(n) == *t ==> !self.refs@.dom().contains(n),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_branch<'r>(&mut self, h: &Branch<'r>) -> (r: EyreResult<()>)
        ensures final(self).same_but_refs(*old(self)), r is Ok ==> final(self).refs@ == old(self).refs@.remove(h.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_reference<'r>(&mut self, h: &Reference<'r>) -> (r: EyreResult<()>)
        ensures final(self).same_but_refs(*old(self)), r is Ok ==> final(self).refs@ == old(self).refs@.remove(h.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn detach_head(&mut self, h: &ResolvedReferenceInfo) -> (r: EyreResult<()>)
        ensures final(self).refs == old(self).refs, final(self).hooks == old(self).hooks, final(self).kept == old(self).kept, final(self).out == old(self).out, final(self).on_disk == old(self).on_disk,
            r is Ok && h.oid is Some ==> final(self).head@ == (ResolvedReferenceInfo { oid: h.oid, reference_name: None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_commit_reachable(&mut self, o: NonZeroOid) -> (r: EyreResult<()>)
        ensures final(self).refs == old(self).refs, final(self).head == old(self).head, final(self).hooks == old(self).hooks, final(self).out == old(self).out, final(self).on_disk == old(self).on_disk,
            r is Ok ==> final(self).kept@ == old(self).kept@.insert(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn run_hook(&mut self, name: &str, tx: EventTransactionId, args: &[&'static str], stdin: Option<Text>) -> (r: EyreResult<()>)
        ensures final(self).refs == old(self).refs, final(self).head == old(self).head, final(self).kept == old(self).kept, final(self).out == old(self).out, final(self).on_disk == old(self).on_disk,
            r is Ok ==> final(self).hooks@ == old(self).hooks@.push(HookCall { name: name@, tx, args: args@, stdin }) { unimplemented!() }
    #[verifier::external_body]
    pub fn check_out_commit(&mut self, t: Option<CheckoutTarget>, o: &CheckOutCommitOptions) -> (r: EyreExitOr<()>)
        ensures final(self).refs == old(self).refs, final(self).hooks == old(self).hooks, final(self).kept == old(self).kept, final(self).on_disk == old(self).on_disk,
            r is Ok ==> final(self).out@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn rebase_on_disk(&mut self, p: &RebasePlan, o: &ExecuteRebasePlanOptions) -> (r: EyreResult<Result<ExitCode, Error>>)
        ensures final(self).on_disk@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Effects { x: u64 }
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }

// ---- branches
pub type R = Map<NonZeroOid, MaybeZeroOid>;
/// Where the branch `n`, now at `k`, belongs.
pub open spec fn moved_to(repo: &Repo, rw: R, n: ReferenceName, k: NonZeroOid) -> MaybeZeroOid {
    if !rw.dom().contains(k) { MaybeZeroOid::NonZero(k) }
    else if rw[k] is NonZero { rw[k] }
    // its commit was dropped; the main branch then is where the one that it follows is
    else if n == main_name(repo) && main_upstream(repo) is Some { MaybeZeroOid::NonZero(main_upstream(repo)->Some_0) }
    else { MaybeZeroOid::Zero }
}
pub open spec fn goes(repo: &Repo, rw: R, refs: Map<ReferenceName, NonZeroOid>, n: ReferenceName) -> MaybeZeroOid {
    if local(n) && refs.dom().contains(n) { moved_to(repo, rw, n, refs[n]) } else { at(refs, n) }
}
pub type Mv<'a> = (NonZeroOid, MaybeZeroOid, &'a ReferenceName);
pub open spec fn move_line(m: Mv) -> Text { printed("{} {} {}\n"@, seq![Disp::Oid(MaybeZeroOid::NonZero(m.0)), Disp::Oid(m.1), Disp::Chars(ref_text(*m.2))]) }
/// The hook is told of every branch that moved, and of no other.
pub open spec fn told(repo: &Repo, rw: R, refs: Map<ReferenceName, NonZeroOid>, ms: Seq<Mv>) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> rec_ok(repo, rw, refs, #[trigger] ms[i])
    &&& forall|n: ReferenceName| local(n) && refs.dom().contains(n) && rw.dom().contains(#[trigger] refs[n]) ==> exists|i: int| 0 <= i < ms.len() && *(#[trigger] ms[i]).2 == n
}
pub open spec fn rec_ok(repo: &Repo, rw: R, refs: Map<ReferenceName, NonZeroOid>, m: Mv) -> bool {
    local(*m.2) && refs.dom().contains(*m.2) && m.0 == refs[*m.2] && rw.dom().contains(m.0) && m.1 == goes(repo, rw, refs, *m.2)
}
pub open spec fn lines(ms: Seq<Mv>) -> Seq<Text> { Seq::new(ms.len(), |i: int| move_line(ms[i])) }
pub open spec fn branches_moved(repo: &Repo, rw: R, tx: EventTransactionId, w0: World, w1: World) -> bool {
    &&& forall|n: ReferenceName| #[trigger] at(w1.refs@, n) == goes(repo, rw, w0.refs@, n)
    &&& w1.head == w0.head && w1.kept == w0.kept && w1.out == w0.out && w1.on_disk == w0.on_disk
    &&& exists|ms: Seq<Mv>| #[trigger] told(repo, rw, w0.refs@, ms)
        && w1.hooks@ == w0.hooks@.push(HookCall { name: "reference-transaction"@, tx, args: seq!["committed"], stdin: Some(joined(lines(ms))) })
}
/// The commits before the `i`-th.
pub open spec fn done(it: Seq<(&NonZeroOid, &HashSet<ReferenceName>)>, i: int, k: NonZeroOid) -> bool { exists|j: int| 0 <= j < i && *(#[trigger] it[j]).0 == k }
/// The branches `dn` are where they belong, and noted; the others are where they were.
pub open spec fn moved_so_far(repo: &Repo, rw: R, refs0: Map<ReferenceName, NonZeroOid>, refs: Map<ReferenceName, NonZeroOid>, ms: Seq<Mv>, dn: Set<ReferenceName>) -> bool {
    &&& forall|n: ReferenceName| #[trigger] dn.contains(n) ==> local(n) && refs0.dom().contains(n) && rw.dom().contains(refs0[n]) && noted(ms, n)
    &&& forall|n: ReferenceName| #[trigger] at(refs, n) == (if dn.contains(n) { goes(repo, rw, refs0, n) } else { at(refs0, n) })
    &&& forall|i: int| 0 <= i < ms.len() ==> rec_ok(repo, rw, refs0, #[trigger] ms[i])
}
pub open spec fn noted(ms: Seq<Mv>, n: ReferenceName) -> bool { exists|i: int| 0 <= i < ms.len() && *(#[trigger] ms[i]).2 == n }
pub proof fn lemma_move(repo: &Repo, rw: R, refs0: Map<ReferenceName, NonZeroOid>, r0: Map<ReferenceName, NonZeroOid>, r1: Map<ReferenceName, NonZeroOid>, m0: Seq<Mv>, m1: Seq<Mv>, dn: Set<ReferenceName>, m: Mv)
    requires moved_so_far(repo, rw, refs0, r0, m0, dn), m1 == m0.push(m), rec_ok(repo, rw, refs0, m), at(r1, *m.2) == m.1,
        r1 == r0.remove(*m.2) || r1 == r0 || (m.1 is NonZero && r1 == r0.insert(*m.2, m.1->NonZero_0))
    ensures moved_so_far(repo, rw, refs0, r1, m1, dn.insert(*m.2))
{
    let n = *m.2;
    assert(*m1[m0.len() as int].2 == n);
    assert(noted(m1, n));
    assert forall|x: ReferenceName| #[trigger] dn.contains(x) implies noted(m1, x) by {
        assert(noted(m0, x));
        let i = choose|i: int| 0 <= i < m0.len() && *(#[trigger] m0[i]).2 == x;
        assert(*m1[i].2 == x);
    }
    assert forall|x: ReferenceName| #[trigger] at(r1, x) == (if dn.insert(n).contains(x) { goes(repo, rw, refs0, x) } else { at(refs0, x) }) by {
        if x != n { assert(at(r0, x) == at(r1, x)); }
    }
    assert forall|i: int| 0 <= i < m1.len() implies rec_ok(repo, rw, refs0, #[trigger] m1[i]) by { if i < m0.len() { assert(m1[i] == m0[i]); } }
}

//@fn git-branchless-lib/src/core/rewrite/execute.rs::move_branches
//@sig
pub fn move_branches<'a>(
    effects: &Effects, git_run_info: &GitRunInfo, repo: &'a Repo, event_tx_id: EventTransactionId,
    rewritten_oids_map: &'a HashMap<NonZeroOid, MaybeZeroOid>, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures r is Ok ==> branches_moved(repo, rewritten_oids_map@, event_tx_id, *old(w), *final(w))
//@prologue
    proof { axiom_suffix(); broadcast use axiom_as_str; }
    let ghost refs0 = w.refs@;
    let ghost rw = rewritten_oids_map@;
//@after_let branch_move_err
    let ghost mut dn: Set<ReferenceName> = Set::empty();
//@loop 0 for (old_oid , names) in branch_oid_to_names . iter ()
    invariant_except_break
        branch_move_err is None,
        0 <= vx_i0 <= vx_it0@.len(), (&branch_oid_to_names).vx_seq(vx_it0@), w.same_but_refs(*old(w)),
        main_branch_name == main_name(repo), main_branch.upstream() == main_upstream(repo), rw == rewritten_oids_map@, refs0 == old(w).refs@,
        forall|o: NonZeroOid, n: ReferenceName| #[trigger] rmem(branch_oid_to_names@, o, n) <==> local(n) && refs0.dom().contains(n) && refs0[n] == o,
        moved_so_far(repo, rw, refs0, w.refs@, branch_moves@, dn),
        forall|n: ReferenceName| local(n) && refs0.dom().contains(n) ==> done(vx_it0@, vx_it0@.len() as int, #[trigger] refs0[n]),
        forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && rw.dom().contains(#[trigger] refs0[n]) && done(vx_it0@, vx_i0 as int, refs0[n]) ==> dn.contains(n),
    ensures
        branch_move_err is None ==> w.same_but_refs(*old(w)) && moved_so_far(repo, rw, refs0, w.refs@, branch_moves@, dn),
        branch_move_err is None ==> forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && rw.dom().contains(#[trigger] refs0[n]) ==> dn.contains(n),
    decreases vx_it0@.len() - vx_i0
//@before_loop 0
    proof {
        assert forall|n: ReferenceName| local(n) && refs0.dom().contains(n) implies done(vx_it0@, vx_it0@.len() as int, #[trigger] refs0[n]) by {
            assert(rmem(branch_oid_to_names@, refs0[n], n));
        }
    }
//@body_start 0
    proof {
        axiom_suffix();
        assert forall|k: NonZeroOid| done(vx_it0@, vx_i0 as int, k) <==> done(vx_it0@, vx_i0 - 1, k) || k == *old_oid by {
            if k == *old_oid { assert(*vx_it0@[vx_i0 - 1].0 == k); }
        }
        assert(branch_oid_to_names@.dom().contains(*old_oid) && branch_oid_to_names@[*old_oid] == *names);
    }
    let ghost names0 = names@;
//@loop 1 for reference_name in names
    invariant
        0 <= vx_i1 <= vx_it1@.len(), w.same_but_refs(*old(w)), branch_move_err is None, new_commit@ == *new_oid,
        rw == rewritten_oids_map@, refs0 == old(w).refs@, rw.dom().contains(*old_oid), rw[*old_oid] == MaybeZeroOid::NonZero(*new_oid),
        forall|n: ReferenceName| #[trigger] vx_it1@.contains(&n) ==> local(n) && refs0.dom().contains(n) && refs0[n] == *old_oid,
        moved_so_far(repo, rw, refs0, w.refs@, branch_moves@, dn),
        forall|j: int| 0 <= j < vx_i1 ==> dn.contains(*(#[trigger] vx_it1@[j])),
        forall|n: ReferenceName| #[trigger] dn0.contains(n) ==> dn.contains(n),
    decreases vx_it1@.len() - vx_i1
//@before_loop 1
    let ghost dn0 = dn;
    proof {
        assert forall|n: ReferenceName| #[trigger] vx_it1@.contains(&n) <==> local(n) && refs0.dom().contains(n) && refs0[n] == *old_oid by {
            assert(rmem(branch_oid_to_names@, *old_oid, n) <==> names0.contains(n));
        }
    }
//@body_start 1
    let ghost r0 = w.refs@; let ghost m0 = branch_moves@;
    proof { assert(vx_it1@.contains(reference_name)); }
//@body_end 0
    proof {
        assert forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && rw.dom().contains(#[trigger] refs0[n]) && done(vx_it0@, vx_i0 as int, refs0[n]) implies dn.contains(n) by {
            assert(rmem(branch_oid_to_names@, refs0[n], n));
        }
    }
//@body_end 1
    proof {
        lemma_move(repo, rw, refs0, r0, w.refs@, m0, branch_moves@, dn, branch_moves@.last());
        dn = dn.insert(*reference_name);
    }
//@after_loop 1
    proof {
        assert forall|n: ReferenceName| #[trigger] vx_it1@.contains(&n) implies dn.contains(n) by {
            let j = choose|j: int| 0 <= j < vx_it1@.len() && vx_it1@[j] == &n;
            assert(dn.contains(*vx_it1@[j]));
        }
        assert forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && #[trigger] refs0[n] == *old_oid implies dn.contains(n) by { assert(vx_it1@.contains(&n)); }
    }
//@loop 2 for reference_name in names
    invariant
        0 <= vx_i2 <= vx_it2@.len(), w.same_but_refs(*old(w)), branch_move_err is None,
        main_branch_name == main_name(repo), main_branch.upstream() == main_upstream(repo),
        rw == rewritten_oids_map@, refs0 == old(w).refs@, rw.dom().contains(*old_oid), rw[*old_oid] is Zero,
        forall|n: ReferenceName| #[trigger] vx_it2@.contains(&n) ==> local(n) && refs0.dom().contains(n) && refs0[n] == *old_oid,
        moved_so_far(repo, rw, refs0, w.refs@, branch_moves@, dn),
        forall|j: int| 0 <= j < vx_i2 ==> dn.contains(*(#[trigger] vx_it2@[j])),
        forall|n: ReferenceName| #[trigger] dn0.contains(n) ==> dn.contains(n),
    decreases vx_it2@.len() - vx_i2
//@before_loop 2
    let ghost dn0 = dn;
    proof {
        assert forall|n: ReferenceName| #[trigger] vx_it2@.contains(&n) <==> local(n) && refs0.dom().contains(n) && refs0[n] == *old_oid by {
            assert(rmem(branch_oid_to_names@, *old_oid, n) <==> names0.contains(n));
        }
    }
//@body_start 2
    let ghost r0 = w.refs@; let ghost m0 = branch_moves@;
    proof { axiom_suffix(); assert(vx_it2@.contains(reference_name)); }
//@body_end 2
    proof {
        assert(at(w.refs@, *reference_name) == branch_moves@.last().1);
        assert(r0.remove(*reference_name) =~= r0 || r0.dom().contains(*reference_name));
        lemma_move(repo, rw, refs0, r0, w.refs@, m0, branch_moves@, dn, branch_moves@.last());
        dn = dn.insert(*reference_name);
    }
//@after_loop 2
    proof {
        assert forall|n: ReferenceName| #[trigger] vx_it2@.contains(&n) implies dn.contains(n) by {
            let j = choose|j: int| 0 <= j < vx_it2@.len() && vx_it2@[j] == &n;
            assert(dn.contains(*vx_it2@[j]));
        }
        assert forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && #[trigger] refs0[n] == *old_oid implies dn.contains(n) by { assert(vx_it2@.contains(&n)); }
    }
//@after_let branch_moves_stdin
    proof {
        if branch_move_err is None {
            assert forall|n: ReferenceName| local(n) && refs0.dom().contains(n) && rw.dom().contains(#[trigger] refs0[n]) implies noted(branch_moves@, n) by { assert(dn.contains(n)); }
            assert(told(repo, rw, refs0, branch_moves@));
            assert forall|s: Seq<Text>| #[trigger] vx_mark(branch_moves@, s) && s.len() == branch_moves@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == move_line(branch_moves@[i]))
                implies s == lines(branch_moves@) by { assert(s =~= lines(branch_moves@)); }
            assert(branch_moves_stdin == joined(lines(branch_moves@)));
        }
    }
//@epilogue
    proof {
        if branch_move_err is None {
            assert forall|n: ReferenceName| #[trigger] at(w.refs@, n) == goes(repo, rw, old(w).refs@, n) by {
                if local(n) && refs0.dom().contains(n) && rw.dom().contains(refs0[n]) { assert(dn.contains(n)); }
            }
            assert(w.hooks@.last().args =~= seq!["committed"]);
            assert(w.hooks@.last().stdin == Some(joined(lines(branch_moves@))));
            assert(branches_moved(repo, rw, event_tx_id, *old(w), *w));
        }
    }
//@closures 1
//@closure 0
    -> (o: Text) ensures o == printed("{} {} {}\n"@, seq![Disp::Oid(MaybeZeroOid::NonZero($0.0)), Disp::Oid($0.1), Disp::Chars(ref_text(*$0.2))])
//@end

// ---- where HEAD ends up
/// Where HEAD belongs: on the branch that was checked out if there still is one, otherwise on the
/// new version of its commit, on what was chosen for it if that commit was dropped.
pub open spec fn head_target(prev: ResolvedReferenceInfo, rw: R, skipped: Option<NonZeroOid>, refs: Map<ReferenceName, NonZeroOid>) -> ResolvedReferenceInfo {
    match (prev.oid, prev.reference_name) {
        (None, None) => ResolvedReferenceInfo { oid: skipped, reference_name: None },
        (None, Some(n)) => ResolvedReferenceInfo { oid: None, reference_name: Some(n) },
        (Some(o), None) => ResolvedReferenceInfo {
            oid: if !rw.dom().contains(o) { Some(o) } else { match rw[o] { MaybeZeroOid::NonZero(x) => Some(x), MaybeZeroOid::Zero => skipped } },
            reference_name: None,
        },
        (Some(o), Some(n)) => if refs.dom().contains(n) { ResolvedReferenceInfo { oid: Some(refs[n]), reference_name: Some(n) } }
            else { ResolvedReferenceInfo { oid: skipped, reference_name: None } },
    }
}
pub open spec fn asked_for(t: ResolvedReferenceInfo, c: Option<CheckoutTarget>) -> bool {
    match (t.oid, t.reference_name) {
        (_, Some(n)) => c is Some && c->Some_0 is Reference && ref_text(c->Some_0->Reference_0) == short(ref_text(n)),
        (Some(o), None) => c == Some(CheckoutTarget::Oid(o)),
        (None, None) => false,
    }
}
/// HEAD was already there, or there was nothing to check out, or it was checked out.
pub open spec fn head_moved(prev: ResolvedReferenceInfo, rw: R, skipped: Option<NonZeroOid>, w0: World, w1: World) -> bool {
    let t = head_target(prev, rw, skipped, w0.refs@);
    &&& if t == w0.head@ || (t.oid is None && t.reference_name is None) { w1 == w0 } else { asked_for(t, w1.out@) }
    &&& w1.refs == w0.refs && w1.hooks == w0.hooks && w1.kept == w0.kept && w1.on_disk == w0.on_disk
}
//@fn git-branchless-lib/src/core/rewrite/execute.rs::check_out_updated_head
//@sig
pub fn check_out_updated_head(
    effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, event_tx_id: EventTransactionId,
    rewritten_oids: &HashMap<NonZeroOid, MaybeZeroOid>, previous_head_info: &ResolvedReferenceInfo,
    skipped_head_updated_oid: Option<NonZeroOid>, check_out_commit_options: &CheckOutCommitOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok ==> head_moved(*previous_head_info, rewritten_oids@, skipped_head_updated_oid, *old(w), *final(w))
//@prologue
    proof { broadcast use axiom_as_str; }
//@end

// ---- carrying out a plan in memory
//@item git-branchless-lib/src/core/rewrite/plan.rs::OidOrLabel
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebaseCommand
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebasePlan
//@item git-branchless-lib/src/core/rewrite/execute.rs::FailedMergeInfo
//@item git-branchless-lib/src/core/rewrite/execute.rs::ExecuteRebasePlanOptions
//@item git-branchless-lib/src/core/rewrite/execute.rs::ExecuteRebasePlanResult
//@item git-branchless-lib/src/core/rewrite/execute.rs::in_memory::RebaseInMemoryResult
//@item git-branchless-lib/src/core/rewrite/execute.rs::on_disk::Error
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: It<&'a V>)
        ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: K| #[trigger] self@.dom().contains(k) && self@[k] == *(#[trigger] r@[i]),
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k],
    { unimplemented!() }
}
pub open spec fn commit_of(c: Option<Commit>) -> NonZeroOid { c->Some_0@ }
pub open spec fn no_commit(c: Option<Commit>) -> bool { c is None }
/// How many of the parents were found (all of them in `result`).
pub open spec fn parents_found(result: Seq<Commit>, parents: Seq<OidOrLabel>, labels: Map<Text, NonZeroOid>) -> int {
    if result.len() <= parents.len() && forall|j: int| 0 <= j < result.len() ==> (#[trigger] result[j])@ == resolved(parents[j], labels) { result.len() as int } else { -1 }
}
/// Where carrying out a plan has got to.
pub ghost struct Rs { pub cur: NonZeroOid, pub labels: Map<Text, NonZeroOid>, pub rw: R, pub skipped: Option<NonZeroOid> }
pub open spec fn committer(o: NonZeroOid, opts: ExecuteRebasePlanOptions) -> Sig {
    if opts.preserve_timestamps { data(o).committer } else { at_time(data(o).committer, opts.now) }
}
/// The commit on top of `cur` with the changes of `aps`, and all else from `orig`.
pub open spec fn squashed(aps: Seq<NonZeroOid>, cur: NonZeroOid, orig: NonZeroOid, opts: ExecuteRebasePlanOptions) -> NonZeroOid
    decreases aps.len()
{
    named(Data {
        author: data(orig).author, committer: committer(orig, opts), message: data(orig).message,
        tree: if aps.len() <= 1 { picked(aps[0], cur) } else { with_change(squashed(aps.drop_last(), cur, orig, opts), aps.last()) },
        parents: seq![cur],
    })
}
pub open spec fn with_all(m: R, aps: Seq<NonZeroOid>, n: NonZeroOid) -> R
    decreases aps.len()
{ if aps.len() == 0 { m } else { with_all(m, aps.drop_last(), n).insert(aps.last(), MaybeZeroOid::NonZero(n)) } }
pub open spec fn resolved(p: OidOrLabel, labels: Map<Text, NonZeroOid>) -> NonZeroOid { match p { OidOrLabel::Oid(o) => o, OidOrLabel::Label(l) => labels[l] } }
/// HEAD's commit was dropped: HEAD belongs where its commit would have been.
pub open spec fn skip(s: Rs, o: NonZeroOid, head: Option<NonZeroOid>) -> Rs {
    Rs { rw: s.rw.insert(o, MaybeZeroOid::Zero), skipped: if Some(o) == head && s.skipped is None { Some(s.cur) } else { s.skipped }, ..s }
}
pub open spec fn step(c: RebaseCommand, s: Rs, head: Option<NonZeroOid>, opts: ExecuteRebasePlanOptions) -> Rs {
    match c {
        RebaseCommand::CreateLabel { label_name } => Rs { labels: s.labels.insert(label_name, s.cur), ..s },
        RebaseCommand::Reset { target: OidOrLabel::Label(l) } => Rs { cur: s.labels[l], ..s },
        RebaseCommand::Reset { target: OidOrLabel::Oid(o) } => Rs { cur: if s.rw.dom().contains(o) && s.rw[o] is NonZero { s.rw[o]->NonZero_0 } else { o }, ..s },
        RebaseCommand::Pick { original_commit_oid, commits_to_apply_oids } => {
            let n = squashed(commits_to_apply_oids@, s.cur, original_commit_oid, opts);
            if is_empty(n) { skip(s, original_commit_oid, head) }
            else { Rs { cur: n, rw: with_all(s.rw.insert(original_commit_oid, MaybeZeroOid::NonZero(n)), commits_to_apply_oids@, n), ..s } }
        },
        RebaseCommand::Replace { commit_oid, replacement_commit_oid, parents } => {
            let d = data(replacement_commit_oid);
            let n = named(Data { author: d.author, committer: committer(replacement_commit_oid, opts), message: d.message, tree: d.tree,
                parents: Seq::new(parents@.len(), |i: int| resolved(parents@[i], s.labels)) });
            Rs { cur: n, rw: s.rw.insert(commit_oid, MaybeZeroOid::NonZero(n)), ..s }
        },
        RebaseCommand::SkipUpstreamAppliedCommit { commit_oid } => skip(s, commit_oid, head),
        _ => s,
    }
}
pub open spec fn run(plan: &RebasePlan, i: int, head: Option<NonZeroOid>, opts: ExecuteRebasePlanOptions) -> Rs
    decreases i
{
    if i <= 0 { Rs { cur: plan.first_dest_oid, labels: Map::empty(), rw: Map::empty(), skipped: None } }
    else { step(plan.commands@[i - 1], run(plan, i - 1, head, opts), head, opts) }
}
pub open spec fn ran(plan: &RebasePlan, head: Option<NonZeroOid>, opts: ExecuteRebasePlanOptions) -> Rs { run(plan, plan.commands@.len() as int, head, opts) }
pub open spec fn new_head(head: Option<NonZeroOid>, s: Rs) -> Option<NonZeroOid> {
    match head {
        None => None,
        Some(h) => if !s.rw.dom().contains(h) { Some(h) } else { match s.rw[h] {
            MaybeZeroOid::NonZero(n) => Some(n),
            MaybeZeroOid::Zero => if s.skipped is Some { s.skipped } else { Some(h) },
        } },
    }
}
pub open spec fn well_made(plan: &RebasePlan) -> bool {
    plan.commands@.len() < usize::MAX && forall|i: int| 0 <= i < plan.commands@.len() && (#[trigger] plan.commands@[i]) is Pick ==> plan.commands@[i]->Pick_commits_to_apply_oids@.len() > 0
}
//@fn git-branchless-lib/src/core/rewrite/execute.rs::in_memory::rebase_in_memory
//@sig
pub fn rebase_in_memory(effects: &Effects, repo: &Repo, rebase_plan: &RebasePlan, options: &ExecuteRebasePlanOptions, w: &World) -> (r: EyreResult<RebaseInMemoryResult>)
//@contract
    requires well_made(rebase_plan)
    ensures r is Ok && r->Ok_0 is Succeeded ==> r->Ok_0->Succeeded_rewritten_oids@ == ran(rebase_plan, w.head@.oid, *options).rw
            && r->Ok_0->Succeeded_new_head_oid == new_head(w.head@.oid, ran(rebase_plan, w.head@.oid, *options)),
        // a merge that has to be made again, or a pause, is not for this
        r is Ok && r->Ok_0 is Succeeded ==> forall|i: int| 0 <= i < rebase_plan.commands@.len() ==> !((#[trigger] rebase_plan.commands@[i]) is Merge) && !(rebase_plan.commands@[i] is Break),
//@loop 0 for command in rebase_plan . commands . iter ()
    invariant
        0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == vx_refs(rebase_plan.commands@), well_made(rebase_plan), head_oid == w.head@.oid,
        i <= vx_i0, preserve_timestamps == options.preserve_timestamps, now == options.now,
        current_oid == run(rebase_plan, vx_i0 as int, head_oid, *options).cur,
        labels@ == run(rebase_plan, vx_i0 as int, head_oid, *options).labels,
        rewritten_oids@ == run(rebase_plan, vx_i0 as int, head_oid, *options).rw,
        skipped_head_new_oid == run(rebase_plan, vx_i0 as int, head_oid, *options).skipped,
        forall|j: int| 0 <= j < vx_i0 ==> !((#[trigger] rebase_plan.commands@[j]) is Merge) && !(rebase_plan.commands@[j] is Break),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost st = run(rebase_plan, vx_i0 - 1, head_oid, *options);
//@loop 1 for commit_oid in commits_to_apply_oids . iter ()
    invariant
        0 <= vx_i1 <= vx_it1@.len(), vx_it1@ == vx_refs(commits_to_apply_oids@), current_commit@ == st.cur,
        commit_message == data(*original_commit_oid).message, commit_author@ == data(*original_commit_oid).author, committer_signature@ == committer(*original_commit_oid, *options),
        vx_i1 == 0 <==> no_commit(rebased_commit), vx_i1 == 0 <==> rebased_commit_oid is None,
        vx_i1 > 0 ==> rebased_commit_oid->Some_0 == squashed(commits_to_apply_oids@.take(vx_i1 as int), st.cur, *original_commit_oid, *options) && commit_of(rebased_commit) == rebased_commit_oid->Some_0,
    decreases vx_it1@.len() - vx_i1
//@body_end 1
    proof {
        let t = commits_to_apply_oids@.take(vx_i1 as int);
        assert(t.drop_last() =~= commits_to_apply_oids@.take(vx_i1 - 1));
        assert(t.last() == *commit_oid);
        assert(oids(seq![&current_commit]) =~= seq![st.cur]);
    }
//@loop 2 for commit_oid in commits_to_apply_oids
    invariant
        0 <= vx_i2 <= vx_it2@.len(), vx_it2@ == vx_refs(commits_to_apply_oids@),
        rewritten_oids@ == with_all(st.rw.insert(*original_commit_oid, MaybeZeroOid::NonZero(rebased_commit_oid)), commits_to_apply_oids@.take(vx_i2 as int), rebased_commit_oid),
    decreases vx_it2@.len() - vx_i2
//@before_loop 2
    proof { assert(commits_to_apply_oids@.take(0) =~= Seq::empty()); assert(commits_to_apply_oids@.take(commits_to_apply_oids@.len() as int) =~= commits_to_apply_oids@); }
//@body_end 2
    proof {
        let t = commits_to_apply_oids@.take(vx_i2 as int);
        assert(t.drop_last() =~= commits_to_apply_oids@.take(vx_i2 - 1));
        assert(t.last() == *commit_oid);
    }
//@loop 3 for parent in parents
    invariant
        0 <= vx_i3 <= vx_it3@.len(), vx_it3@ == vx_refs(parents@), labels@ == st.labels, vx_i3 as int == parents_found(result@, parents@, st.labels),
    decreases vx_it3@.len() - vx_i3
//@after_let rebased_commit_oid#1
    proof { assert(commits_to_apply_oids@.take(commits_to_apply_oids@.len() as int) =~= commits_to_apply_oids@); }
//@after_let rebased_commit_oid#2
    proof {
        assert(command->Replace_parents@.len() == parents@.len());
        assert(oids(vx_refs(parents@)) =~= Seq::new(parents@.len(), |i: int| resolved(command->Replace_parents@[i], st.labels)));
    }
//@closures 2
//@closure 0
    -> (o: Option<&NonZeroOid>) ensures o is Some <==> $0 is Merge
//@closure 1
    -> (o: bool) ensures true
//@end

// ---- what follows once all commits are made
/// All new versions are kept from being collected.
pub open spec fn all_kept(rw: R, k0: Set<NonZeroOid>, k1: Set<NonZeroOid>) -> bool {
    &&& forall|o: NonZeroOid| #[trigger] k0.contains(o) ==> k1.contains(o)
    &&& forall|k: NonZeroOid| #[trigger] rw.dom().contains(k) && rw[k] is NonZero ==> k1.contains(rw[k]->NonZero_0)
}
pub open spec fn rewrite_line(k: NonZeroOid, n: MaybeZeroOid) -> Text { printed("{} {}\n"@, seq![Disp::Oid(MaybeZeroOid::NonZero(k)), Disp::Oid(n)]) }
/// The hook is told of every commit that was rewritten or dropped, once, and of no other.
pub open spec fn told_rewrites(rw: R, ks: Seq<NonZeroOid>) -> bool { ks.no_duplicates() && forall|k: NonZeroOid| #[trigger] ks.contains(k) <==> rw.dom().contains(k) }
pub open spec fn rewrite_lines(rw: R, ks: Seq<NonZeroOid>) -> Seq<Text> { Seq::new(ks.len(), |i: int| rewrite_line(ks[i], rw[ks[i]])) }
pub open spec fn lines_of(it: Seq<(&NonZeroOid, &MaybeZeroOid)>) -> Seq<Text> { Seq::new(it.len(), |i: int| rewrite_line(*it[i].0, *it[i].1)) }
pub open spec fn post_rewrite(rw: R, tx: EventTransactionId, w0: World, w1: World) -> bool {
    &&& w1.refs == w0.refs && w1.head == w0.head && w1.kept == w0.kept && w1.out == w0.out && w1.on_disk == w0.on_disk
    &&& exists|ks: Seq<NonZeroOid>| #[trigger] told_rewrites(rw, ks)
        && w1.hooks@ == w0.hooks@.push(HookCall { name: "post-rewrite"@, tx, args: seq!["rebase"], stdin: Some(joined(rewrite_lines(rw, ks))) })
}
pub open spec fn detached(rw: R, w0: World, w1: World) -> bool {
    &&& w1.refs == w0.refs && w1.hooks == w0.hooks && w1.out == w0.out && w1.on_disk == w0.on_disk && all_kept(rw, w0.kept@, w1.kept@)
    &&& w1.head@ == (if w0.head@.oid is Some { ResolvedReferenceInfo { oid: w0.head@.oid, reference_name: None } } else { w0.head@ })
}
/// New versions kept, HEAD detached, branches moved, hook told, HEAD put where it belongs, in this order.
pub open spec fn settled(repo: &Repo, rw: R, skipped: Option<NonZeroOid>, tx: EventTransactionId, w0: World, w1: World, a: World, b: World, c: World) -> bool {
    detached(rw, w0, a) && branches_moved(repo, rw, tx, a, b) && post_rewrite(rw, tx, b, c) && head_moved(w0.head@, rw, skipped, c, w1)
}
//@fn git-branchless-lib/src/core/rewrite/execute.rs::in_memory::post_rebase_in_memory
//@sig
pub fn post_rebase_in_memory(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, rewritten_oids: &HashMap<NonZeroOid, MaybeZeroOid>,
    skipped_head_updated_oid: Option<NonZeroOid>, options: &ExecuteRebasePlanOptions, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    ensures r is Ok ==> exists|a: World, b: World, c: World| settled(repo, rewritten_oids@, skipped_head_updated_oid, options.event_tx_id, *old(w), *final(w), a, b, c)
//@loop 0 for new_oid in rewritten_oids . values ()
    invariant
        0 <= vx_i0 <= vx_it0@.len(), w.refs == old(w).refs, w.head == old(w).head, w.hooks == old(w).hooks, w.out == old(w).out, w.on_disk == old(w).on_disk,
        forall|o: NonZeroOid| #[trigger] old(w).kept@.contains(o) ==> w.kept@.contains(o),
        forall|j: int| 0 <= j < vx_i0 && *(#[trigger] vx_it0@[j]) is NonZero ==> w.kept@.contains(vx_it0@[j]->NonZero_0),
    decreases vx_it0@.len() - vx_i0
//@after_let head_info
    let ghost a = World { head: Ghost(if old(w).head@.oid is Some { ResolvedReferenceInfo { oid: old(w).head@.oid, reference_name: None } } else { old(w).head@ }), ..*w };
    proof {
        assert forall|k: NonZeroOid| #[trigger] rewritten_oids@.dom().contains(k) && rewritten_oids@[k] is NonZero implies w.kept@.contains(rewritten_oids@[k]->NonZero_0) by {}
        assert(detached(rewritten_oids@, *old(w), a));
    }
//@after_let post_rewrite_stdin#0
    let ghost b = *w;
    let ghost ks: Seq<NonZeroOid>;
    proof {
        assert(branches_moved(repo, rewritten_oids@, *event_tx_id, a, b));
        assert forall|it: Seq<(&NonZeroOid, &MaybeZeroOid)>, s: Seq<Text>| #[trigger] vx_mark(it, s) && s.len() == it.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == rewrite_line(*it[i].0, *it[i].1))
            implies s == lines_of(it) by { assert(s =~= lines_of(it)); }
        let it = choose|it: Seq<(&NonZeroOid, &MaybeZeroOid)>| (rewritten_oids).vx_seq(it) && post_rewrite_stdin == joined(#[trigger] lines_of(it));
        ks = Seq::new(it.len(), |i: int| *it[i].0);
        assert forall|k: NonZeroOid| #[trigger] ks.contains(k) <==> rewritten_oids@.dom().contains(k) by {
            if rewritten_oids@.dom().contains(k) { let i = choose|i: int| 0 <= i < it.len() && *(#[trigger] it[i]).0 == k; assert(ks[i] == k); }
        }
        assert(told_rewrites(rewritten_oids@, ks));
        assert(rewrite_lines(rewritten_oids@, ks) =~= lines_of(it));
    }
//@after_let exit_code
    proof {
        let call = HookCall { name: "post-rewrite"@, tx: *event_tx_id, args: seq!["rebase"], stdin: Some(joined(rewrite_lines(rewritten_oids@, ks))) };
        let c = World { hooks: Ghost(b.hooks@.push(call)), ..b };
        assert(w.hooks@.last().args =~= seq!["rebase"]);
        assert(post_rewrite(rewritten_oids@, *event_tx_id, b, c));
        assert(head_moved(old(w).head@, rewritten_oids@, skipped_head_updated_oid, c, *w));
        assert(settled(repo, rewritten_oids@, skipped_head_updated_oid, options.event_tx_id, *old(w), *w, a, b, c));
    }
//@closures 1
//@closure 0
    -> (o: Text) ensures o == rewrite_line(*$0.0, *$0.1)
//@end

/// The plan was carried out in memory.
pub open spec fn carried_out(repo: &Repo, plan: &RebasePlan, opts: ExecuteRebasePlanOptions, rw: R, w0: World, w1: World) -> bool {
    let s = ran(plan, w0.head@.oid, opts);
    rw == s.rw && exists|a: World, b: World, c: World| settled(repo, s.rw, new_head(w0.head@.oid, s), opts.event_tx_id, w0, w1, a, b, c)
}
//@fn git-branchless-lib/src/core/rewrite/execute.rs::execute_rebase_plan
//@sig
pub fn execute_rebase_plan(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_log_db: &EventLogDb, rebase_plan: &RebasePlan,
    options: &ExecuteRebasePlanOptions, w: &mut World) -> (r: EyreResult<ExecuteRebasePlanResult>)
//@contract
    requires well_made(rebase_plan)
    ensures
        // carried out in memory, completely
        r is Ok && r->Ok_0 is Succeeded && r->Ok_0->rewritten_oids is Some ==> carried_out(repo, rebase_plan, *options, r->Ok_0->rewritten_oids->Some_0@, *old(w), *final(w)),
        // or not at all
        r is Ok && r->Ok_0 is DeclinedToMerge ==> *final(w) == *old(w),
        // or by git, if that was asked for or the conflicts are to be resolved
        r is Ok && (r->Ok_0 is Failed || (r->Ok_0 is Succeeded && r->Ok_0->rewritten_oids is None)) ==> !options.force_in_memory && (options.force_on_disk || options.resolve_merge_conflicts),
//@end
} // verus!
