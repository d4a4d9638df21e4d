// C07: which references keep commits alive.
//@rule format!("refs/branchless/{commit_oid}") => vx_keep_text(commit_oid)
//@rule Reference::is_valid_name(__X) => vx_valid_name(__X)
//@rule &ref_name.into() => &vx_name(ref_name)
//@rule Repo::from_current_dir() => vx_repo()
//@rule repo.get_db_conn() => vx_conn()
//@rule EventLogDb::new(&conn) => vx_db(&conn)
//@rule EventReplayer::from_event_log_db(__A, __B, __C) => vx_replayer()
//@drop_let Pluralize { determiner: __A, amount: __B, unit: __C }.to_string()
//@rule reference.delete() => reference.delete(w)
//@rule repo.get_all_references() => repo.get_all_references(w)
//@rule find_dangling_references(__A, __B, __C) => find_dangling_references(__A, __B, __C, w)
//@rule repo.create_reference(__A, __B, __C, __D) => repo.create_reference(__A, __B, __C, w)
//@drop_macro writeln
verus! {
#[verifier::external_body]
pub struct Effects { x: u64 }
#[verifier::external_body]
pub struct Conn { x: u64 }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub fn vx_conn() -> EyreResult<Conn> { unimplemented!() }
#[verifier::external_body]
pub fn vx_db(c: &Conn) -> EyreResult<EventLogDb> { unimplemented!() }
/// The timeline at the time of the call.
pub uninterp spec fn now_events() -> Seq<Event>;
#[verifier::external_body]
pub fn vx_replayer() -> (r: EyreResult<EventReplayer>) ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.events@ == now_events() { unimplemented!() }
/// The references of the repository.
pub struct World { pub refs: Ghost<Map<ReferenceName, NonZeroOid>> }
/// The commit an object is or (a tag) refers to, if any.
pub uninterp spec fn commit_at(o: NonZeroOid) -> Option<NonZeroOid>;
/// The commit is in the repository.
pub uninterp spec fn present(o: NonZeroOid) -> bool;
#[verifier::external_body]
pub struct Reference<'a> { x: &'a u64 }
#[verifier::external_body]
pub struct Commit<'a> { x: &'a u64 }
impl<'a> Commit<'a> {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
}
impl<'a> Reference<'a> {
    pub uninterp spec fn name(&self) -> ReferenceName;
    pub uninterp spec fn target(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_name(&self) -> (r: EyreResult<ReferenceName>) ensures r is Ok ==> r->Ok_0 == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn peel_to_commit(&self) -> (r: EyreResult<Option<Commit<'a>>>)
        ensures r is Ok ==> match r->Ok_0 { Some(c) => commit_at(self.target()) == Some(c.oid()), None => commit_at(self.target()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn delete(&mut self, w: &mut World) -> (r: EyreResult<()>)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(w).refs@ == old(w).refs@.remove(old(self).name()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Repo { x: u64 }
#[verifier::external_body]
pub fn vx_repo() -> EyreResult<Repo> { unimplemented!() }
impl Repo {
    #[verifier::external_body]
    pub fn get_all_references<'a>(&'a self, w: &World) -> (r: EyreResult<Vec<Reference<'a>>>)
        ensures r is Ok ==> {
            &&& forall|i: int| 0 <= i < r->Ok_0@.len() ==> w.refs@.dom().contains((#[trigger] r->Ok_0@[i]).name()) && r->Ok_0@[i].target() == w.refs@[r->Ok_0@[i].name()]
            &&& forall|n: ReferenceName| #[trigger] w.refs@.dom().contains(n) ==> exists|i: int| 0 <= i < r->Ok_0@.len() && (#[trigger] r->Ok_0@[i]).name() == n
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_commit<'a>(&'a self, o: NonZeroOid) -> (r: EyreResult<Option<Commit<'a>>>) ensures r is Ok ==> (r->Ok_0 is Some <==> present(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_reference<'a>(&'a self, n: &ReferenceName, o: NonZeroOid, force: bool, w: &mut World) -> (r: EyreResult<Reference<'a>>)
        ensures r is Ok ==> final(w).refs@ == old(w).refs@.insert(*n, o), r is Err ==> final(w).refs@ == old(w).refs@,
            !force && old(w).refs@.dom().contains(*n) ==> r is Err
    { unimplemented!() }
}
pub uninterp spec fn keep_text(o: NonZeroOid) -> Seq<char>;
pub uninterp spec fn named(s: Seq<char>) -> ReferenceName;
/// The reference that keeps a commit alive.
pub open spec fn keep_name(o: NonZeroOid) -> ReferenceName { named(keep_text(o)) }
#[verifier::external_body]
pub fn vx_keep_text(o: NonZeroOid) -> (r: String) ensures r@ == keep_text(o), "refs/branchless/"@.is_prefix_of(r@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_valid_name(s: &String) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_name(s: String) -> (r: ReferenceName) ensures r == named(s@), ref_text(r) == s@ { unimplemented!() }

/// A reference that no longer keeps anything the user wants.
pub open spec fn dangling(refs: Map<ReferenceName, NonZeroOid>, es: Seq<Event>, n: ReferenceName) -> bool {
    &&& refs.dom().contains(n) && is_gc_name(n) && commit_at(refs[n]) is Some
    &&& status_of(hist(es, commit_at(refs[n])->Some_0)) == CommitActivityStatus::Obsolete
}
pub open spec fn has_name(s: Seq<Reference>, n: ReferenceName) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name() == n }
pub open spec fn all_dangling(s: Seq<Reference>, refs: Map<ReferenceName, NonZeroOid>, es: Seq<Event>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> dangling(refs, es, (#[trigger] s[i]).name())
}
/// Exactly the dangling references are gone; every other one is where it was.
pub open spec fn collected(before: Map<ReferenceName, NonZeroOid>, after: Map<ReferenceName, NonZeroOid>, es: Seq<Event>) -> bool {
    &&& forall|n: ReferenceName| #[trigger] after.dom().contains(n) <==> before.dom().contains(n) && !dangling(before, es, n)
    &&& forall|n: ReferenceName| #[trigger] after.dom().contains(n) ==> after[n] == before[n]
}
//@fn git-branchless-lib/src/core/gc.rs::find_dangling_references
//@sig
pub fn find_dangling_references<'repo>(repo: &'repo Repo, event_replayer: &EventReplayer, event_cursor: EventCursor, w: &World) -> (r: EyreResult<Vec<Reference<'repo>>>)
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures r is Ok ==> forall|n: ReferenceName| #[trigger] has_name(r->Ok_0@, n) <==> dangling(w.refs@, event_replayer.upto(event_cursor), n)
//@loop 0 for reference in repo . get_all_references () ?
    invariant
        event_replayer.wf(), event_replayer.cursor_ok(event_cursor),
        0 <= vx_i0 <= vx_it0@.len(),
        forall|i: int| 0 <= i < vx_it0@.len() ==> w.refs@.dom().contains((#[trigger] vx_it0@[i]).name()) && vx_it0@[i].target() == w.refs@[vx_it0@[i].name()],
        forall|n: ReferenceName| #[trigger] w.refs@.dom().contains(n) ==> has_name(vx_it0@, n),
        all_dangling(result@, w.refs@, event_replayer.upto(event_cursor)),
        forall|i: int| 0 <= i < vx_i0 && dangling(w.refs@, event_replayer.upto(event_cursor), (#[trigger] vx_it0@[i]).name()) ==> has_name(result@, vx_it0@[i].name()),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = result@;
    assert(vx_it0@[vx_i0 - 1] == reference);
//@body_end 0
    proof {
        assert forall|n: ReferenceName| has_name(before, n) implies #[trigger] has_name(result@, n) by {
            let i = choose|i: int| 0 <= i < before.len() && (#[trigger] before[i]).name() == n;
            assert(result@[i].name() == n);
        }
        if result@.len() > before.len() { assert(result@[before.len() as int].name() == reference.name()); }
    }
//@end
//@fn git-branchless-lib/src/core/gc.rs::mark_commit_reachable
//@sig
pub fn mark_commit_reachable(repo: &Repo, commit_oid: NonZeroOid, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        is_gc_name(keep_name(commit_oid)) || r is Err || !present(commit_oid),
        r is Ok && present(commit_oid) ==> final(w).refs@ == old(w).refs@.insert(keep_name(commit_oid), commit_oid),
        r is Ok && !present(commit_oid) ==> final(w).refs@ == old(w).refs@,
//@prologue
    broadcast use axiom_as_str;
//@end
//@fn git-branchless-lib/src/core/gc.rs::gc
//@sig
pub fn gc(effects: &Effects, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures r is Ok ==> collected(old(w).refs@, final(w).refs@, now_events())
//@loop 0 for mut reference in dangling_references . into_iter ()
    invariant
        0 <= vx_i0 <= vx_it0@.len(),
        forall|n: ReferenceName| #[trigger] has_name(vx_it0@, n) <==> dangling(old(w).refs@, now_events(), n),
        forall|n: ReferenceName| #[trigger] w.refs@.dom().contains(n) <==> old(w).refs@.dom().contains(n) && !has_name(vx_it0@.take(vx_i0 as int), n),
        forall|n: ReferenceName| #[trigger] w.refs@.dom().contains(n) ==> w.refs@[n] == old(w).refs@[n],
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost gone = vx_it0@[vx_i0 - 1].name();
    proof {
        let a = vx_it0@.take(vx_i0 - 1); let b = vx_it0@.take(vx_i0 as int);
        assert forall|n: ReferenceName| #[trigger] has_name(b, n) <==> has_name(a, n) || n == gone by {
            if has_name(b, n) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).name() == n; if i < vx_i0 - 1 { assert(a[i].name() == n); } }
            if has_name(a, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name() == n; assert(b[i].name() == n); }
            assert(b[vx_i0 - 1].name() == gone);
        }
    }
//@after_loop 0
    proof {
        assert(vx_it0@.take(vx_it0@.len() as int) =~= vx_it0@);
    }
//@after_let dangling_references
    proof { assert(now_events().take(now_events().len() as int) =~= now_events()); assert(dangling_references@.take(0) =~= Seq::empty()); }
//@end
} // verus!
