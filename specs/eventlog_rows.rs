// C01: an event becomes a row and the row becomes the same event again.
//@rule String::from(__X) => vx_string(__X)
//@rule __X.into() => vx_oid_ref(__X)
//@rule __X.to_string().into() => vx_oid_ref(__X)
//@rule __X.parse() => vx_parse_oid(__X)
//@rule __X.ok_or_else(__F) => vx_ok_or(__X)
//@rule __X.try_into() => nonzero_try_from(__X)
verus! {
//@item git-branchless-lib/src/core/eventlog.rs::Row
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub fn vx_ok_or<T>(o: Option<T>) -> (r: EyreResult<T>)
    ensures o is Some ==> r == Ok::<T, VErr>(o->Some_0), o is None ==> r is Err
{ match o { Some(x) => Ok(x), None => Err(vx_err()) } }

/// The textual form of an object id (git2's `Display`), as a reference name.
pub uninterp spec fn oid_ref(o: MaybeZeroOid) -> ReferenceName;
pub trait VxOid { spec fn m(self) -> MaybeZeroOid; }
impl VxOid for MaybeZeroOid { open spec fn m(self) -> MaybeZeroOid { self } }
impl VxOid for NonZeroOid { open spec fn m(self) -> MaybeZeroOid { MaybeZeroOid::NonZero(self) } }
#[verifier::external_body]
pub fn vx_oid_ref<O: VxOid>(o: O) -> (r: ReferenceName) ensures r == oid_ref(o.m()) { unimplemented!() }
/// Assumed of git2's oid parser: parsing the printed form gives the oid back.
#[verifier::external_body]
pub fn vx_parse_oid(s: &str) -> (r: EyreResult<MaybeZeroOid>)
    ensures forall|o: MaybeZeroOid| #[trigger] ref_text(oid_ref(o)) == s@ ==> r == Ok::<MaybeZeroOid, VErr>(o)
{ unimplemented!() }

impl Clone for Row {
    #[verifier::external_body]
    fn clone(&self) -> (r: Row) ensures r == *self { unimplemented!() }
}

pub open spec fn row_of(row: Row, e: Event) -> bool {
    match e {
        Event::RewriteEvent { timestamp, event_tx_id, old_commit_oid, new_commit_oid } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "rewrite"@
            && row.ref1 == Some(oid_ref(old_commit_oid)) && row.ref2 == Some(oid_ref(new_commit_oid)),
        Event::RefUpdateEvent { timestamp, event_tx_id, ref_name, old_oid, new_oid, message } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "ref-move"@
            && row.ref1 == Some(oid_ref(old_oid)) && row.ref2 == Some(oid_ref(new_oid)) && row.ref_name == Some(ref_name) && row.message == message,
        Event::CommitEvent { timestamp, event_tx_id, commit_oid } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "commit"@
            && row.ref1 == Some(oid_ref(MaybeZeroOid::NonZero(commit_oid))),
        Event::ObsoleteEvent { timestamp, event_tx_id, commit_oid } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "hide"@
            && row.ref1 == Some(oid_ref(MaybeZeroOid::NonZero(commit_oid))),
        Event::UnobsoleteEvent { timestamp, event_tx_id, commit_oid } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "unhide"@
            && row.ref1 == Some(oid_ref(MaybeZeroOid::NonZero(commit_oid))),
        Event::WorkingCopySnapshot { timestamp, event_tx_id, head_oid, commit_oid, ref_name } =>
            event_tx_id == EventTransactionId::Id(row.event_tx_id) && row.timestamp == timestamp && row.type_@ == "snapshot"@
            && row.ref1 == Some(oid_ref(head_oid)) && row.ref2 == Some(oid_ref(MaybeZeroOid::NonZero(commit_oid))) && row.ref_name == ref_name,
    }
}
pub open spec fn tx_of(e: Event) -> EventTransactionId {
    match e {
        Event::RewriteEvent { event_tx_id, .. } => event_tx_id,
        Event::RefUpdateEvent { event_tx_id, .. } => event_tx_id,
        Event::CommitEvent { event_tx_id, .. } => event_tx_id,
        Event::ObsoleteEvent { event_tx_id, .. } => event_tx_id,
        Event::UnobsoleteEvent { event_tx_id, .. } => event_tx_id,
        Event::WorkingCopySnapshot { event_tx_id, .. } => event_tx_id,
    }
}

//@fn git-branchless-lib/src/git/oid.rs::TryFrom<MaybeZeroOid>@NonZeroOid::try_from as nonzero_try_from
//@sig
pub fn nonzero_try_from(value: MaybeZeroOid) -> (r: EyreResult<NonZeroOid>)
//@contract
    ensures $0 is NonZero ==> r == Ok::<NonZeroOid, VErr>($0->NonZero_0), $0 is Zero ==> r is Err
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::TryFrom<Event>@Row::try_from as row_try_from
//@sig
pub fn row_try_from(event: Event) -> (r: Result<Row, ()>)
//@contract
    ensures
        r is Err <==> tx_of($0) is Suppressed,
        r is Ok ==> row_of(r->Ok_0, $0),
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::try_from_row_helper
//@contract
    ensures forall|e: Event| #[trigger] row_of(*$0, e) ==> r == Ok::<Event, VErr>(e)
//@prologue
    broadcast use axiom_as_str;
    proof {
        reveal_strlit("rewrite"); reveal_strlit("ref-move"); reveal_strlit("commit"); reveal_strlit("hide"); reveal_strlit("unhide"); reveal_strlit("snapshot");
        assert("rewrite"@.len() == 7 && "hide"@.len() == 4);
        assert("commit"@.len() == 6 && "unhide"@.len() == 6 && "commit"@[0] != "unhide"@[0]);
        assert("ref-move"@.len() == 8 && "snapshot"@.len() == 8 && "ref-move"@[0] != "snapshot"@[0]);
    }
//@closures 1
//@closure 0
    -> (o: EyreResult<MaybeZeroOid>) ensures forall|m: MaybeZeroOid| *$0 == Some(#[trigger] oid_ref(m)) ==> o == Ok::<MaybeZeroOid, VErr>(m)
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::TryFrom<Row>@Event::try_from as event_try_from
//@sig
pub fn event_try_from(row: Row) -> (r: EyreResult<Event>)
//@contract
    ensures forall|e: Event| #[trigger] row_of($0, e) ==> r == Ok::<Event, VErr>(e)
//@end
} // verus!
