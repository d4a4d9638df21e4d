// C06: what the hooks record.
//@rule SystemTime::now() => vx_now()
//@rule __N.duration_since(__E) => vx_since(__N)
//@rule __N.as_secs_f64() => vx_f64(__N)
//@rule __N.as_secs_f64() => vx_f64(__N)
//@rule Repo::from_current_dir() => vx_repo()
//@rule repo.get_db_conn() => vx_conn()
//@rule EventLogDb::new(&conn) => vx_db(&conn)
//@rule event_log_db.add_events(__X) => w.add_events(__X)
//@rule previous_head_oid.parse()? => vx_parse_oid(previous_head_oid)?
//@rule current_head_oid.parse()? => vx_parse_oid(current_head_oid)?
//@rule ReferenceName::from("HEAD") => vx_head_name()
//@rule stdin().lock().split(b'\n') => vx_stdin_lines(w)
//@rule std::str::from_utf8(__X) => vx_from_utf8(__X)
//@rule read_packed_refs_file(__X) => vx_packed_refs(__X, w)
//@rule mark_commit_reachable(__R, __C) => w.mark_commit_reachable(__C)
//@drop_let Pluralize { determiner: __A, amount: __B, unit: __C }
//@drop_let Glyphs::detect()
verus! {
#[verifier::external_body]
pub struct SystemTime { x: u64 }
impl Clone for SystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SystemTime {}
#[verifier::external_body]
pub struct Duration { x: u64 }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
#[verifier::external_body]
pub fn vx_now() -> SystemTime { unimplemented!() }
#[verifier::external_body]
pub fn vx_since(t: SystemTime) -> EyreResult<Duration> { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64(t: Duration) -> Ts { unimplemented!() }
#[verifier::external_body]
pub struct Effects { x: u64 }
#[verifier::external_body]
pub struct Conn { x: u64 }
#[verifier::external_body]
pub fn vx_conn() -> EyreResult<Conn> { unimplemented!() }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
#[verifier::external_body]
pub fn vx_db(c: &Conn) -> EyreResult<EventLogDb> { unimplemented!() }
impl EventLogDb {
    #[verifier::external_body]
    pub fn make_transaction_id(&self, now: SystemTime, m: &str) -> EyreResult<EventTransactionId> { unimplemented!() }
}
/// What a hook reads (its input, the packed references, HEAD) and changes (the log, references that keep commits alive).
pub struct World {
    pub log: Ghost<Seq<Event>>, pub kept: Ghost<Set<NonZeroOid>>,
    pub lines: Ghost<Seq<EyreResult<Vec<u8>>>>, pub packed: Ghost<Map<ReferenceName, MaybeZeroOid>>,
    pub deferred: Ghost<Seq<NonZeroOid>>,
}
impl World {
    #[verifier::external_body]
    pub fn add_events(&mut self, es: Vec<Event>) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).log@ == old(self).log@ + es@, r is Err ==> final(self).log == old(self).log,
            final(self).kept == old(self).kept, final(self).lines == old(self).lines, final(self).packed == old(self).packed, final(self).deferred == old(self).deferred
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_commit_reachable(&mut self, o: NonZeroOid) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).kept@ == old(self).kept@.insert(o), final(self).log == old(self).log,
            final(self).lines == old(self).lines, final(self).packed == old(self).packed, final(self).deferred == old(self).deferred
    { unimplemented!() }
    #[verifier::external_body]
    pub fn defer(&mut self, o: NonZeroOid) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).deferred@ == old(self).deferred@.push(o), final(self).log == old(self).log,
            final(self).lines == old(self).lines, final(self).packed == old(self).packed, final(self).kept == old(self).kept
    { unimplemented!() }
}
pub uninterp spec fn oid_of_text(s: Seq<char>) -> Option<MaybeZeroOid>;
#[verifier::external_body]
pub fn vx_parse_oid(s: &str) -> (r: EyreResult<MaybeZeroOid>)
    ensures r is Ok ==> oid_of_text(s@) == Some(r->Ok_0), r is Err ==> oid_of_text(s@) is None { unimplemented!() }
pub uninterp spec fn head_name() -> ReferenceName;
#[verifier::external_body]
pub broadcast proof fn axiom_head_name() ensures #[trigger] ref_text(head_name()) == "HEAD"@ {}
#[verifier::external_body]
pub fn vx_head_name() -> (r: ReferenceName) ensures r == head_name() { unimplemented!() }

/// The one event a checkout adds.
pub open spec fn moved(log0: Seq<Event>, log1: Seq<Event>, name: ReferenceName, old: MaybeZeroOid, new: MaybeZeroOid) -> bool {
    log1.len() == log0.len() + 1 && log1.drop_last() == log0 && match log1.last() {
        Event::RefUpdateEvent { ref_name, old_oid, new_oid, message, .. } => ref_name == name && old_oid == old && new_oid == new && message is None,
        _ => false,
    }
}
//@fn git-branchless-hook/src/lib.rs::hook_post_checkout
//@sig
pub fn hook_post_checkout(effects: &Effects, previous_head_oid: &str, current_head_oid: &str, is_branch_checkout: isize, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        // restoring files is not a checkout
        is_branch_checkout == 0 ==> final(w).log == old(w).log,
        r is Ok && is_branch_checkout != 0 ==> oid_of_text(previous_head_oid@) is Some && oid_of_text(current_head_oid@) is Some
            && moved(old(w).log@, final(w).log@, head_name(), oid_of_text(previous_head_oid@)->Some_0, oid_of_text(current_head_oid@)->Some_0),
//@epilogue
    proof { assert(w.log@.drop_last() =~= old(w).log@); }
//@end

// ---- commits
#[verifier::external_body]
pub struct Repo { x: u64 }
#[verifier::external_body]
pub fn vx_repo() -> (r: EyreResult<Repo>) ensures r is Ok ==> r->Ok_0 == the_repo() { unimplemented!() }
pub uninterp spec fn the_repo() -> Repo;
pub struct HeadInfo { pub oid: Option<NonZeroOid> }
#[verifier::external_body]
pub struct Commit { x: u64 }
#[verifier::external_body]
pub struct Time { x: u64 }
impl Time { #[verifier::external_body] pub fn to_system_time(&self) -> EyreResult<SystemTime> { unimplemented!() } }
impl Commit {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_time(&self) -> Time { unimplemented!() }
}
pub uninterp spec fn sym_oid(r: Repo, n: ReferenceName) -> Option<MaybeZeroOid>;
impl Repo {
    pub uninterp spec fn head(&self) -> Option<NonZeroOid>;
    pub uninterp spec fn rebasing(&self) -> bool;
    #[verifier::external_body]
    pub fn get_head_info(&self) -> (r: EyreResult<HeadInfo>) ensures r is Ok ==> r->Ok_0.oid == self.head() { unimplemented!() }
    #[verifier::external_body]
    pub fn find_commit_or_fail(&self, o: NonZeroOid) -> (r: EyreResult<Commit>) ensures r is Ok ==> r->Ok_0.oid() == o { unimplemented!() }
    #[verifier::external_body]
    pub fn is_rebase_underway(&self) -> (r: EyreResult<bool>) ensures r is Ok ==> r->Ok_0 == self.rebasing() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_references_snapshot(&self) -> EyreResult<RefsSnapshot> { unimplemented!() }
    #[verifier::external_body]
    pub fn reference_name_to_oid(&self, n: &ReferenceName) -> (r: EyreResult<MaybeZeroOid>)
        ensures r is Ok ==> sym_oid(*self, *n) == Some(r->Ok_0), r is Err ==> sym_oid(*self, *n) is None { unimplemented!() }
}
#[verifier::external_body]
pub struct RefsSnapshot { x: u64 }
#[verifier::external_body]
pub struct Replayer { x: u64 }
#[verifier::external_body]
pub fn vx_replayer(w: &mut World) -> (r: EyreResult<Replayer>) ensures *final(w) == *old(w) { unimplemented!() }
impl Replayer { #[verifier::external_body] pub fn make_default_cursor(&self) -> EventCursor { unimplemented!() } }
#[verifier::external_body]
pub struct DeferredFile { x: u64 }
#[verifier::external_body]
pub fn vx_dag() -> EyreResult<u64> { unimplemented!() }
//@drop_let get_deferred_commits_path(__X)
//@drop_stmt warn!(__X, __Y)
//@rule EventReplayer::from_event_log_db(__A, __B, __C) => vx_replayer(w)
//@rule Dag::open_and_sync(__A, __B, __C, __D, __E) => vx_dag()
//@drop_let File::options().create(true).append(true).open(__P).with_context(__C)?
//@rule writeln!(deferred_commits_file, __X)? => w.defer(commit_oid)?
//@fn git-branchless-hook/src/lib.rs::hook_post_commit_common
//@sig
pub fn hook_post_commit_common(effects: &Effects, hook_name: &str, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        // the commit is kept from garbage collection ...
        r is Ok && the_repo().head() is Some ==> final(w).kept@ == old(w).kept@.insert(the_repo().head()->Some_0),
        // ... and recorded, or set aside until the rebase that makes it is finished
        r is Ok && the_repo().head() is Some && !the_repo().rebasing() ==> final(w).log@.len() == old(w).log@.len() + 1
            && final(w).log@.drop_last() == old(w).log@ && final(w).log@.last() is CommitEvent
            && final(w).log@.last()->CommitEvent_commit_oid == the_repo().head()->Some_0 && final(w).deferred == old(w).deferred,
        r is Ok && the_repo().head() is Some && the_repo().rebasing() ==> final(w).log == old(w).log && final(w).deferred@ == old(w).deferred@.push(the_repo().head()->Some_0),
        the_repo().head() is None ==> *final(w) == *old(w),
//@epilogue
    proof { assert(w.log@.drop_last() =~= old(w).log@); }
//@end

// ---- reference updates
//@item git-branchless-hook/src/lib.rs::reference_transaction::ReferenceTarget
//@item git-branchless-hook/src/lib.rs::reference_transaction::ParsedReferenceTransactionLine
impl Clone for ReferenceTarget { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ReferenceTarget {
pub open spec fn to_oid(self, repo: Repo) -> Option<MaybeZeroOid> {
    match self { ReferenceTarget::Direct { oid } => Some(oid), ReferenceTarget::Symbolic { name } => sym_oid(repo, name) }
}
//@fn git-branchless-hook/src/lib.rs::reference_transaction::ReferenceTarget::as_oid
//@contract
    ensures r is Ok ==> self.to_oid(*$0) == Some(r->Ok_0), r is Err ==> self.to_oid(*$0) is None
//@end
}
/// The value is the one the reference has in `packed-refs` (or refers to the reference itself).
pub open spec fn is_packed(t: ReferenceTarget, n: ReferenceName, packed: Map<ReferenceName, MaybeZeroOid>) -> bool {
    match t {
        ReferenceTarget::Direct { oid } => packed.dom().contains(n) && packed[n] == oid,
        ReferenceTarget::Symbolic { name } => name == n,
    }
}
//@fn git-branchless-hook/src/lib.rs::reference_transaction::reftarget_matches_refname
//@contract
    ensures r == is_packed(*$0, *$1, $2@)
//@end
pub open spec fn zero_target(t: ReferenceTarget) -> bool { t is Direct && t->Direct_oid is Zero }
/// Packing a reference shows up as a creation followed by a deletion; neither is one.
pub open spec fn fixed(l: ParsedReferenceTransactionLine, packed: Map<ReferenceName, MaybeZeroOid>) -> ParsedReferenceTransactionLine {
    if zero_target(l.old_value) && is_packed(l.new_value, l.ref_name, packed) {
        ParsedReferenceTransactionLine { ref_name: l.ref_name, old_value: l.new_value, new_value: l.new_value }
    } else if zero_target(l.new_value) && is_packed(l.old_value, l.ref_name, packed) {
        ParsedReferenceTransactionLine { ref_name: l.ref_name, old_value: l.old_value, new_value: l.old_value }
    } else { l }
}
//@fn git-branchless-hook/src/lib.rs::reference_transaction::fix_packed_reference_oid
//@contract
    ensures r == fixed($2, $1@)
//@end
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn split_space(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn name_of_text(s: Seq<char>) -> ReferenceName;
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn vx_split_space<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == split_space(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_name(s: &str) -> (r: ReferenceName) ensures r == name_of_text(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> p@.is_prefix_of(s@), r is Some ==> r->Some_0@ == s@.skip(p@.len() as int) { unimplemented!() }
/// `ref:NAME` or an object id.
pub open spec fn target_of_text(s: Seq<char>) -> Option<ReferenceTarget> {
    if "ref:"@.is_prefix_of(s) { Some(ReferenceTarget::Symbolic { name: name_of_text(s.skip("ref:"@.len() as int)) }) }
    else { match oid_of_text(s) { Some(oid) => Some(ReferenceTarget::Direct { oid }), None => None } }
}
/// OLD NEW NAME
pub open spec fn line_of(s: Seq<char>) -> Option<ParsedReferenceTransactionLine> {
    let f = split_space(s);
    if f.len() == 3 && target_of_text(f[0]) is Some && target_of_text(f[1]) is Some {
        Some(ParsedReferenceTransactionLine { ref_name: name_of_text(f[2]), old_value: target_of_text(f[0])->Some_0, new_value: target_of_text(f[1])->Some_0 })
    } else { None }
}
//@rule line.split(' ').collect_vec() => vx_split_space(line)
//@rule ReferenceName::from(*ref_name) => vx_name(*ref_name)
//@rule ReferenceName::from(refname) => vx_name(refname)
//@rule __X.strip_prefix(__P) => vx_strip_prefix(__X, __P)
//@rule value.parse()? => vx_parse_oid(value)?
impl ReferenceTarget {
//@fn git-branchless-hook/src/lib.rs::reference_transaction::FromStr@ReferenceTarget::from_str
//@sig
pub fn from_str(value: &str) -> (r: EyreResult<ReferenceTarget>)
//@contract
    ensures r is Ok ==> target_of_text(value@) == Some(r->Ok_0), r is Err ==> target_of_text(value@) is None
//@end
}
//@fn git-branchless-hook/src/lib.rs::reference_transaction::parse_reference_transaction_line
//@contract
    ensures r is Ok ==> line_of($0@) == Some(r->Ok_0), r is Err ==> line_of($0@) is None
//@after_let fields
    proof { assert forall|i: int| 0 <= i < fields@.len() implies (#[trigger] fields@[i])@ == split_space(line@)[i] by { assert(texts(fields@)[i] == fields@[i]@); } assert(fields@.len() == split_space(line@).len()) by { assert(texts(fields@).len() == fields@.len()); } }
//@end
#[verifier::external_body]
pub fn vx_from_utf8(b: &Vec<u8>) -> (r: EyreResult<&str>)
    ensures r is Ok ==> utf8(b@) == Some(r->Ok_0@), r is Err ==> utf8(b@) is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_stdin_lines(w: &mut World) -> (r: It<EyreResult<Vec<u8>>>) ensures *final(w) == *old(w), r@ == old(w).lines@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_packed_refs(r: &Repo, w: &mut World) -> (m: EyreResult<HashMap<ReferenceName, MaybeZeroOid>>)
    ensures *final(w) == *old(w), m is Ok ==> m->Ok_0@ == old(w).packed@ { unimplemented!() }

pub open spec fn parse(l: EyreResult<Vec<u8>>) -> Option<ParsedReferenceTransactionLine> {
    if l is Ok && utf8(l->Ok_0@) is Some { line_of(utf8(l->Ok_0@)->Some_0) } else { None }
}
/// The updates that get recorded: every well-formed line about a reference that matters, in order.
pub open spec fn updates(lines: Seq<EyreResult<Vec<u8>>>) -> Seq<ParsedReferenceTransactionLine> {
    vx_fm(lines, |l: EyreResult<Vec<u8>>| parse(l)).filter(|p: ParsedReferenceTransactionLine| !special_ref(p.ref_name))
}
pub open spec fn records(e: Event, l: ParsedReferenceTransactionLine, repo: Repo) -> bool {
    match e {
        Event::RefUpdateEvent { ref_name, old_oid, new_oid, message, .. } =>
            ref_name == l.ref_name && Some(old_oid) == l.old_value.to_oid(repo) && Some(new_oid) == l.new_value.to_oid(repo) && message is None,
        _ => false,
    }
}
pub open spec fn parsed_by(lines: Seq<EyreResult<Vec<u8>>>, r: Seq<ParsedReferenceTransactionLine>) -> bool { vx_fm_ok(lines, r, |l: EyreResult<Vec<u8>>| parse(l)) }
pub open spec fn kept_by(s: Seq<ParsedReferenceTransactionLine>, r: Seq<ParsedReferenceTransactionLine>) -> bool {
    &&& vx_subseq(s, r, vx_idx(s, r))
    &&& forall|i: int| 0 <= i < r.len() ==> !special_ref((#[trigger] r[i]).ref_name)
    &&& forall|j: int| 0 <= j < s.len() && !vx_idx(s, r).contains(j) ==> special_ref((#[trigger] s[j]).ref_name)
}
pub proof fn lemma_updates(lines: Seq<EyreResult<Vec<u8>>>)
    ensures
        forall|r: Seq<ParsedReferenceTransactionLine>| #[trigger] vx_mark(lines, r) && parsed_by(lines, r) ==> r == vx_fm(lines, |l: EyreResult<Vec<u8>>| parse(l)),
        forall|s: Seq<ParsedReferenceTransactionLine>, r: Seq<ParsedReferenceTransactionLine>| #[trigger] vx_mark(s, r) && kept_by(s, r)
            ==> r == s.filter(|p: ParsedReferenceTransactionLine| !special_ref(p.ref_name)),
{
    assert forall|r: Seq<ParsedReferenceTransactionLine>| #[trigger] vx_mark(lines, r) && parsed_by(lines, r) implies r == vx_fm(lines, |l: EyreResult<Vec<u8>>| parse(l)) by {
        lemma_fm_is(lines, r, |l: EyreResult<Vec<u8>>| parse(l));
    }
    assert forall|s: Seq<ParsedReferenceTransactionLine>, r: Seq<ParsedReferenceTransactionLine>| #[trigger] vx_mark(s, r) && kept_by(s, r)
        implies r == s.filter(|p: ParsedReferenceTransactionLine| !special_ref(p.ref_name)) by {
        lemma_filter_is(s, r, vx_idx(s, r), |p: ParsedReferenceTransactionLine| !special_ref(p.ref_name));
    }
}
//@fn git-branchless-hook/src/lib.rs::hook_reference_transaction
//@sig
pub fn hook_reference_transaction(effects: &Effects, transaction_state: &str, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        // only a transaction that took effect
        transaction_state@ != "committed"@ ==> *final(w) == *old(w),
        r is Ok && transaction_state@ == "committed"@ ==> {
            let us = updates(old(w).lines@);
            &&& final(w).log@.len() == old(w).log@.len() + us.len()
            &&& final(w).log@.take(old(w).log@.len() as int) == old(w).log@
            &&& forall|i: int| 0 <= i < us.len() ==> records(#[trigger] final(w).log@[old(w).log@.len() + i], fixed(us[i], old(w).packed@), the_repo())
        },
//@after_let parsed_lines
    proof {
        lemma_updates(old(w).lines@);
        let us = updates(old(w).lines@);
        assert(parsed_lines@.len() == us.len());
        assert(forall|i: int| 0 <= i < us.len() ==> #[trigger] parsed_lines@[i] == fixed(us[i], old(w).packed@));
        assert(old(w).log@.take(old(w).log@.len() as int) =~= old(w).log@);
    }
//@epilogue
    proof { assert(w.log@.take(old(w).log@.len() as int) =~= old(w).log@); }
//@closures 4
//@closure 0
    -> (o: Option<ParsedReferenceTransactionLine>) ensures o == parse($0)
//@closure 1
    -> (b: bool) ensures b == !special_ref($0.ref_name)
//@closure 2
    -> (o: ParsedReferenceTransactionLine) ensures o == fixed($0, packed_references@)
//@closure 3
    -> (o: EyreResult<Event>) ensures o is Ok ==> records(o->Ok_0, $0, the_repo())
//@end

// ---- rewritten commits
#[verifier::external_body]
pub struct Stream { x: u64 }
#[verifier::external_body]
pub struct Reader { x: u64 }
impl Stream { pub uninterp spec fn lines(&self) -> Seq<EyreResult<String>>; }
impl Reader {
    pub uninterp spec fn of(&self) -> Seq<EyreResult<String>>;
    #[verifier::external_body]
    pub fn lines(self) -> (r: It<EyreResult<String>>) ensures r@ == self.of() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_reader(s: &mut Stream) -> (r: Reader) ensures r.of() == old(s).lines() { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_trim<'a>(s: String) -> (r: &'a str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_parse_nz(s: &str) -> (r: EyreResult<NonZeroOid>)
    ensures r is Ok ==> oid_of_text(s@) == Some(MaybeZeroOid::NonZero(r->Ok_0)), r is Err ==> !(oid_of_text(s@) is Some && oid_of_text(s@)->Some_0 is NonZero) { unimplemented!() }
//@rule BufReader::new(__X) => vx_reader(__X)
//@rule line.trim() => vx_trim(line)
//@rule line.split(' ').collect::<Vec<_>>() => vx_split_space(line)
//@rule old_commit_oid.parse()? => vx_parse_nz(old_commit_oid)?
//@rule new_commit_oid.parse()? => vx_parse_oid(new_commit_oid)?
/// OLD NEW [anything]
pub open spec fn entry_of(l: EyreResult<String>) -> Option<(NonZeroOid, MaybeZeroOid)> {
    let f = split_space(trimmed(l->Ok_0@));
    if l is Ok && f.len() >= 2 && oid_of_text(f[0]) is Some && oid_of_text(f[0])->Some_0 is NonZero && oid_of_text(f[1]) is Some {
        Some((oid_of_text(f[0])->Some_0->NonZero_0, oid_of_text(f[1])->Some_0))
    } else { None }
}
//@fn git-branchless-lib/src/core/rewrite/rewrite_hooks.rs::read_rewritten_list_entries
//@sig
pub fn read_rewritten_list_entries(stream: &mut Stream) -> (r: EyreResult<Vec<(NonZeroOid, MaybeZeroOid)>>)
//@contract
    ensures r is Ok ==> r->Ok_0@.len() == old(stream).lines().len()
        && forall|i: int| 0 <= i < r->Ok_0@.len() ==> Some(#[trigger] r->Ok_0@[i]) == entry_of(old(stream).lines()[i])
//@loop 0 for line in reader . lines ()
    invariant
        vx_it0@ == old(stream).lines(), 0 <= vx_i0 <= vx_it0@.len(), rewritten_oids@.len() == vx_i0,
        forall|i: int| 0 <= i < rewritten_oids@.len() ==> Some(#[trigger] rewritten_oids@[i]) == entry_of(old(stream).lines()[i]),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof { assert(vx_it0@[vx_i0 - 1] == line); lemma_texts(); }
//@end
pub proof fn lemma_texts()
    ensures forall|v: Seq<&str>, i: int| 0 <= i < v.len() ==> #[trigger] v[i]@ == texts(v)[i], forall|v: Seq<&str>| #[trigger] texts(v).len() == v.len()
{}

//@drop_let Pluralize { determiner: __A, amount: __B, unit: __C }.to_string()
//@rule read_deferred_commits(__X) => vx_deferred(w)
//@rule read_rewritten_list_entries(&mut stdin().lock()) => vx_rewritten(w)
//@rule old_commit_oid.into() => MaybeZeroOid::NonZero(old_commit_oid)
//@rule repo.get_rebase_state_dir_path().join(__X).exists() => vx_extra()
//@rule load_original_head_info(__X) => vx_head_before()
//@rule load_updated_head_oid(__X) => vx_head_skipped()
//@rule move_branches(__A, __B, __C, __D, __E) => w.move_branches(__E)
//@rule check_out_updated_head(__A, __B, __C, __D, __E, __F, __G, __H, __I) => w.check_out(__F)
//@rule get_hint_enabled(__A, __B) => vx_hint()
//@rule warn_abandoned(__A, __B, __C, __D, __E) => vx_warn(w)
//@drop_stmt print_hint_suppression_notice(__A, __B)?
pub struct Opaque { pub x: u64 }
pub struct ExitCode(pub isize);
impl World {
    pub uninterp spec fn rewritten(&self) -> Seq<(NonZeroOid, MaybeZeroOid)>;
    /// moves branches through git, whose hooks may record more
    #[verifier::external_body]
    pub fn move_branches(&mut self, m: &HashMap<NonZeroOid, MaybeZeroOid>) -> (r: EyreResult<()>)
        ensures old(self).log@.is_prefix_of(final(self).log@), final(self).kept == old(self).kept { unimplemented!() }
    #[verifier::external_body]
    pub fn check_out(&mut self, m: &HashMap<NonZeroOid, MaybeZeroOid>) -> (r: EyreResult<Result<(), ExitCode>>)
        ensures old(self).log@.is_prefix_of(final(self).log@), final(self).kept == old(self).kept { unimplemented!() }
}
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
#[verifier::external_body]
pub fn vx_deferred(w: &mut World) -> (r: EyreResult<Vec<NonZeroOid>>) ensures *final(w) == *old(w), r is Ok ==> r->Ok_0@ == old(w).deferred@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_rewritten(w: &mut World) -> (r: EyreResult<Vec<(NonZeroOid, MaybeZeroOid)>>)
    ensures *final(w) == *old(w), r is Ok ==> r->Ok_0@ == the_rewritten() { unimplemented!() }
pub uninterp spec fn the_rewritten() -> Seq<(NonZeroOid, MaybeZeroOid)>;
#[verifier::external_body]
pub fn vx_extra() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_head_before() -> EyreResult<Opaque> { unimplemented!() }
#[verifier::external_body]
pub fn vx_head_skipped() -> EyreResult<Opaque> { unimplemented!() }
#[verifier::external_body]
pub fn vx_hint() -> EyreResult<bool> { unimplemented!() }
#[verifier::external_body]
pub fn vx_warn(w: &mut World) -> (r: EyreResult<bool>) ensures *final(w) == *old(w) { unimplemented!() }

/// What a finished rewrite adds: the commits set aside during a rebase, then one rewrite per reported pair.
pub open spec fn rewrite_logged(l0: Seq<Event>, l1: Seq<Event>, def: Seq<NonZeroOid>, rw: Seq<(NonZeroOid, MaybeZeroOid)>) -> bool {
    let (n, d) = (l0.len() as int, def.len() as int);
    &&& l1.len() >= n + d + rw.len()
    &&& l0.is_prefix_of(l1)
    &&& forall|i: int| 0 <= i < d ==> (#[trigger] l1[n + i]) is CommitEvent && l1[n + i]->CommitEvent_commit_oid == def[i]
    &&& forall|i: int| 0 <= i < rw.len() ==> (#[trigger] l1[n + d + i]) is RewriteEvent
        && l1[n + d + i]->RewriteEvent_old_commit_oid == MaybeZeroOid::NonZero(rw[i].0) && l1[n + d + i]->RewriteEvent_new_commit_oid == rw[i].1
}
//@fn git-branchless-lib/src/core/rewrite/rewrite_hooks.rs::hook_post_rewrite
//@sig
pub fn hook_post_rewrite(effects: &Effects, git_run_info: &GitRunInfo, rewrite_type: &str, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        // an amend reported in the middle of a rebase says nothing by itself
        rewrite_type@ == "amend"@ && the_repo().rebasing() ==> *final(w) == *old(w),
        r is Ok && !(rewrite_type@ == "amend"@ && the_repo().rebasing()) ==> rewrite_logged(old(w).log@, final(w).log@, old(w).deferred@, the_rewritten()),
//@prologue
    let ghost mut cs: Seq<Event> = Seq::empty();
//@after_let commit_events
    proof { cs = commit_events@; }
//@epilogue
    proof {
        if !is_spurious_event {
            let l = old(w).log@ + cs + rewrite_events@;
            assert(l.is_prefix_of(w.log@));
            assert forall|i: int| 0 <= i < l.len() implies l[i] == w.log@[i] by { assert(w.log@.subrange(0, l.len() as int)[i] == w.log@[i]); }
            assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] w.log@[old(w).log@.len() + i]) == cs[i] by { assert(l[old(w).log@.len() + i] == cs[i]); }
            assert forall|i: int| 0 <= i < rewrite_events@.len() implies (#[trigger] w.log@[old(w).log@.len() + cs.len() + i]) == rewrite_events@[i] by { assert(l[old(w).log@.len() + cs.len() + i] == rewrite_events@[i]); }
            assert(old(w).log@ =~= w.log@.subrange(0, old(w).log@.len() as int));
        }
    }
//@closures 2
//@closure 0
    -> (e: Event) ensures e is CommitEvent, e->CommitEvent_commit_oid == $0
//@closure 1
    -> (e: Event) ensures e is RewriteEvent, e->RewriteEvent_old_commit_oid == MaybeZeroOid::NonZero($0.0), e->RewriteEvent_new_commit_oid == $0.1
//@end
} // verus!
