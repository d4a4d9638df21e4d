// What commands are built from: the clock, the database, commit sets and the commit graph.
//@rule SystemTime::now() => vx_now()
//@rule __N.duration_since(__E) => vx_since(__N)
//@rule __N.as_secs_f64() => vx_f64(__N)
//@rule Repo::from_current_dir() => vx_repo()
//@rule repo.get_db_conn() => vx_conn()
//@rule EventLogDb::new(&conn) => vx_db(&conn)
//@rule EventReplayer::from_event_log_db(__A, __B, __C) => vx_replayer()
//@rule event_log_db.add_events(__X) => w.add_events(__X)
//@rule resolve_commits(__A, __B, __C, __D, __E) => vx_resolve(__D)
//@rule mark_commit_reachable(__A, __B) => w.mark_commit_reachable(__B)
//@rule move_branches(__A, __B, __C, __D, __E) => w.move_branches(__E)
//@rule repo.detach_head(__A) => w.detach_head(__A)
//@drop_let Glyphs::detect()
//@drop_macro writeln
//@drop_macro write
verus! {
#[verifier::external_body]
pub struct SystemTime { x: u64 }
impl Clone for SystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SystemTime {}
#[verifier::external_body]
pub struct Duration { x: u64 }
#[verifier::external_body]
pub fn vx_now() -> SystemTime { unimplemented!() }
#[verifier::external_body]
pub fn vx_since(t: SystemTime) -> EyreResult<Duration> { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64(t: Duration) -> Ts { unimplemented!() }
#[verifier::external_body]
pub struct Effects { x: u64 }
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
#[verifier::external_body]
pub struct Conn { x: u64 }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub fn vx_conn() -> EyreResult<Conn> { unimplemented!() }
#[verifier::external_body]
pub fn vx_db(c: &Conn) -> EyreResult<EventLogDb> { unimplemented!() }
impl EventLogDb {
    #[verifier::external_body]
    pub fn make_transaction_id(&self, now: SystemTime, m: &str) -> EyreResult<EventTransactionId> { unimplemented!() }
}
#[verifier::external_body]
pub struct Replayer { x: u64 }
#[verifier::external_body]
pub fn vx_replayer() -> EyreResult<Replayer> { unimplemented!() }
impl Replayer {
    #[verifier::external_body]
    pub fn make_default_cursor(&self) -> EventCursor { unimplemented!() }
    #[verifier::external_body]
    pub fn get_cursor_commit_activity_status(&self, c: EventCursor, o: NonZeroOid) -> CommitActivityStatus { unimplemented!() }
}
pub struct ExitCode(pub isize);
pub struct ResolvedReferenceInfo { pub oid: Option<NonZeroOid> }
#[verifier::external_body]
pub struct Commit { x: u64 }
impl Commit {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
}
#[verifier::external_body]
pub struct RefsSnapshot { x: u64 }
#[verifier::external_body]
pub struct Repo { x: u64 }
pub uninterp spec fn the_repo() -> Repo;
#[verifier::external_body]
pub fn vx_repo() -> (r: EyreResult<Repo>) ensures r is Ok ==> r->Ok_0 == the_repo() { unimplemented!() }
impl Repo {
    pub uninterp spec fn head(&self) -> Option<NonZeroOid>;
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<ResolvedReferenceInfo>) ensures r is Ok ==> r->Ok_0.oid == self.head() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_references_snapshot(&self) -> EyreResult<RefsSnapshot> { unimplemented!() }
    #[verifier::external_body]
    pub fn find_commit_or_fail(&self, o: NonZeroOid) -> (r: EyreResult<Commit>) ensures r is Ok ==> r->Ok_0.oid() == o { unimplemented!() }
}
#[verifier::external_body]
pub struct Revset { x: u64 }
#[verifier::external_body]
pub struct ResolveRevsetOptions { x: u64 }
#[verifier::external_body]
pub struct ResolveError { x: u64 }
impl ResolveError { #[verifier::external_body] pub fn describe(self, e: &Effects) -> EyreResult<()> { unimplemented!() } }
pub uninterp spec fn resolved(v: Seq<Revset>) -> Seq<CommitSet>;
#[verifier::external_body]
pub fn vx_resolve(v: &Vec<Revset>) -> (r: Result<Vec<CommitSet>, ResolveError>) ensures r is Ok ==> r->Ok_0@ == resolved(v@) { unimplemented!() }
/// The commit graph.
#[verifier::external_body]
pub struct Dag { x: u64 }
pub uninterp spec fn the_dag() -> Dag;
#[verifier::external_body]
pub fn vx_dag() -> (r: EyreResult<Dag>) ensures r is Ok ==> r->Ok_0 == the_dag() { unimplemented!() }
//@rule Dag::open_and_sync(__A, __B, __C, __D, __E) => vx_dag()
impl Dag {
    /// The commits and everything below them.
    pub uninterp spec fn descendants(&self, s: Set<NonZeroOid>) -> Set<NonZeroOid>;
    pub uninterp spec fn visible(&self) -> Set<NonZeroOid>;
    pub uninterp spec fn obsolete(&self) -> Set<NonZeroOid>;
    #[verifier::external_body]
    pub fn query_descendants(&self, s: CommitSet) -> (r: EyreResult<CommitSet>) ensures r is Ok ==> r->Ok_0@ == self.descendants(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_visible_commits(&self, s: CommitSet) -> (r: EyreResult<CommitSet>) ensures r is Ok ==> r->Ok_0@ == s@.intersect(self.visible()) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_obsolete_commits(&self) -> (r: CommitSet) ensures r@ == self.obsolete() { unimplemented!() }
    /// Each commit of the set once, parents first.
    #[verifier::external_body]
    pub fn sort(&self, s: &CommitSet) -> (r: EyreResult<Vec<NonZeroOid>>)
        ensures r is Ok ==> r->Ok_0@.no_duplicates() && forall|o: NonZeroOid| #[trigger] r->Ok_0@.contains(o) <==> s@.contains(o) { unimplemented!() }
}
/// What a command changes: the log, the references that keep commits alive, branches and HEAD (as requests to move them).
pub struct World {
    pub log: Ghost<Seq<Event>>, pub kept: Ghost<Set<NonZeroOid>>,
    pub moves: Ghost<Seq<Map<NonZeroOid, MaybeZeroOid>>>, pub detached: Ghost<nat>,
}
impl World {
    #[verifier::external_body]
    pub fn add_events(&mut self, es: Vec<Event>) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).log@ == old(self).log@ + es@, r is Err ==> final(self).log == old(self).log,
            final(self).kept == old(self).kept, final(self).moves == old(self).moves, final(self).detached == old(self).detached
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_commit_reachable(&mut self, o: NonZeroOid) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).kept@ == old(self).kept@.insert(o), final(self).log == old(self).log,
            final(self).moves == old(self).moves, final(self).detached == old(self).detached
    { unimplemented!() }
    #[verifier::external_body]
    pub fn move_branches(&mut self, m: &HashMap<NonZeroOid, MaybeZeroOid>) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).moves@ == old(self).moves@.push(m@), final(self).log == old(self).log,
            final(self).kept == old(self).kept, final(self).detached == old(self).detached
    { unimplemented!() }
    #[verifier::external_body]
    pub fn detach_head(&mut self, i: &ResolvedReferenceInfo) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).detached@ == old(self).detached@ + 1, final(self).log == old(self).log,
            final(self).kept == old(self).kept, final(self).moves == old(self).moves
    { unimplemented!() }
}
} // verus!
