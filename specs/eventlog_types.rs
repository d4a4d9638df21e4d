verus! {
//@item git-branchless-lib/src/core/eventlog.rs::EventTransactionId Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::Event Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::EventClassification Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::CommitActivityStatus Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::EventInfo Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::EventCursor Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/core/eventlog.rs::EventReplayer

// ---------------- the abstract timeline --------------------------------------
/// What one event says about one commit, in order.
pub open spec fn touches(id: int, e: Event, oid: NonZeroOid) -> Seq<EventInfo> {
    match e {
        Event::RewriteEvent { timestamp, event_tx_id, old_commit_oid, new_commit_oid } =>
            (if old_commit_oid == MaybeZeroOid::NonZero(oid) {
                seq![EventInfo { id: id as isize, event: e, event_classification: EventClassification::Hide }]
            } else { Seq::empty() })
            + (if new_commit_oid == MaybeZeroOid::NonZero(oid) {
                seq![EventInfo { id: id as isize, event: e, event_classification: EventClassification::Show }]
            } else { Seq::empty() }),
        Event::CommitEvent { timestamp, event_tx_id, commit_oid } => if commit_oid == oid {
            seq![EventInfo { id: id as isize, event: e, event_classification: EventClassification::Show }]
        } else { Seq::empty() },
        Event::ObsoleteEvent { timestamp, event_tx_id, commit_oid } => if commit_oid == oid {
            seq![EventInfo { id: id as isize, event: e, event_classification: EventClassification::Hide }]
        } else { Seq::empty() },
        Event::UnobsoleteEvent { timestamp, event_tx_id, commit_oid } => if commit_oid == oid {
            seq![EventInfo { id: id as isize, event: e, event_classification: EventClassification::Show }]
        } else { Seq::empty() },
        _ => Seq::empty(),
    }
}

/// Everything a sequence of events says about one commit, in order.
pub open spec fn hist(es: Seq<Event>, oid: NonZeroOid) -> Seq<EventInfo>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() } else {
        hist(es.drop_last(), oid) + touches(es.len() - 1, es.last(), oid)
    }
}

/// Where a reference points after a sequence of events.
pub open spec fn loc_step(m: Map<ReferenceName, NonZeroOid>, e: Event) -> Map<ReferenceName, NonZeroOid> {
    match e {
        Event::RefUpdateEvent { timestamp, event_tx_id, ref_name, old_oid, new_oid, message } => match new_oid {
            MaybeZeroOid::NonZero(o) => m.insert(ref_name, o),
            MaybeZeroOid::Zero => m.remove(ref_name),
        },
        _ => m,
    }
}
pub open spec fn locs(es: Seq<Event>) -> Map<ReferenceName, NonZeroOid>
    decreases es.len()
{
    if es.len() == 0 { Map::empty() } else { loc_step(locs(es.drop_last()), es.last()) }
}

pub open spec fn status_of(h: Seq<EventInfo>) -> CommitActivityStatus {
    if h.len() == 0 { CommitActivityStatus::Inactive }
    else if h.last().event_classification == EventClassification::Show { CommitActivityStatus::Active }
    else { CommitActivityStatus::Obsolete }
}

impl EventReplayer {
    pub open spec fn hist_of(&self, oid: NonZeroOid) -> Seq<EventInfo> {
        if self.commit_history@.dom().contains(oid) { self.commit_history@[oid]@ } else { Seq::empty() }
    }
    /// The replayer's data invariant: everything it stores is determined by the event list.
    pub open spec fn wf(&self) -> bool {
        &&& self.events@.len() < 0x3fff_ffff_ffff_ffff
        &&& self.id_counter == self.events@.len()
        &&& forall|oid: NonZeroOid| #[trigger] self.hist_of(oid) == hist(self.events@, oid)
        &&& forall|oid: NonZeroOid| #[trigger] self.commit_history@.dom().contains(oid) ==> self.commit_history@[oid]@.len() > 0
        &&& self.ref_locations@ == locs(self.events@)
    }
    pub open spec fn cursor_ok(&self, c: EventCursor) -> bool { 0 <= c.event_id <= self.events@.len() }
    pub open spec fn upto(&self, c: EventCursor) -> Seq<Event> { self.events@.take(c.event_id as int) }
}

pub proof fn lemma_hist_split(es: Seq<Event>, c: int, oid: NonZeroOid)
    requires 0 <= c <= es.len(), es.len() < 0x3fff_ffff_ffff_ffff
    ensures
        hist(es.take(c), oid).len() <= hist(es, oid).len(),
        hist(es, oid).take(hist(es.take(c), oid).len() as int) == hist(es.take(c), oid),
        forall|i: int| 0 <= i < hist(es.take(c), oid).len() ==> (#[trigger] hist(es, oid)[i]).id < c,
        forall|i: int| hist(es.take(c), oid).len() <= i < hist(es, oid).len() ==> (#[trigger] hist(es, oid)[i]).id >= c,
        forall|i: int| 0 <= i < hist(es, oid).len() ==> 0 <= (#[trigger] hist(es, oid)[i]).id < es.len() && es[hist(es, oid)[i].id as int] == hist(es, oid)[i].event,
    decreases es.len()
{
    if es.len() > 0 {
        let p = es.drop_last();
        if c == es.len() {
            assert(es.take(c) =~= es);
            lemma_hist_split(p, p.len() as int, oid);
            assert(p.take(p.len() as int) =~= p);
            assert(hist(es, oid).take(hist(es, oid).len() as int) =~= hist(es, oid));
        } else {
            lemma_hist_split(p, c, oid);
            assert(p.take(c) =~= es.take(c));
            let k = hist(es.take(c), oid).len() as int;
            assert(hist(es, oid).take(k) =~= hist(p, oid).take(k));
        }
    } else {
        assert(es.take(c) =~= es);
        assert(hist(es, oid).take(0) =~= hist(es, oid));
    }
}
} // verus!
