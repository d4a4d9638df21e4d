verus! {
/// The correction applied to deletions whose old value Git did not report.
pub open spec fn fix_old(es: Seq<Event>, e: Event) -> Event {
    match e {
        Event::RefUpdateEvent { timestamp, event_tx_id, ref_name, old_oid: MaybeZeroOid::Zero, new_oid: MaybeZeroOid::Zero, message } =>
            Event::RefUpdateEvent {
                timestamp, event_tx_id, ref_name,
                old_oid: if locs(es).dom().contains(ref_name) { MaybeZeroOid::NonZero(locs(es)[ref_name]) } else { MaybeZeroOid::Zero },
                new_oid: MaybeZeroOid::Zero, message },
        _ => e,
    }
}
pub open spec fn is_del(e: Event, name: ReferenceName, msg: Option<ReferenceName>) -> bool {
    match e {
        Event::RefUpdateEvent { ref_name, new_oid: MaybeZeroOid::Zero, message, .. } => ref_name == name && message == msg,
        _ => false,
    }
}
/// A deletion immediately repeated is dropped.
pub open spec fn dup_delete(es: Seq<Event>, e: Event) -> bool {
    match e {
        Event::RefUpdateEvent { ref_name, new_oid: MaybeZeroOid::Zero, message, .. } => es.len() > 0 && is_del(es.last(), ref_name, message),
        _ => false,
    }
}
pub open spec fn ignored(e: Event) -> bool {
    match e { Event::RefUpdateEvent { ref_name, .. } => special_ref(ref_name), _ => false }
}
/// The timeline after one more recorded event.
pub open spec fn step(es: Seq<Event>, e: Event) -> Seq<Event> {
    if ignored(e) || dup_delete(es, e) { es } else { es.push(fix_old(es, e)) }
}

pub proof fn lemma_hist_push(es: Seq<Event>, e: Event)
    ensures forall|oid: NonZeroOid| #[trigger] hist(es.push(e), oid) == hist(es, oid) + touches(es.len() as int, e, oid),
        locs(es.push(e)) == loc_step(locs(es), e)
{
    assert(es.push(e).drop_last() =~= es);
}

//@rule __A.get(__B).copied().into() => vx_opt_to_maybe(__A.get(__B).copied())
pub fn vx_opt_to_maybe(o: Option<NonZeroOid>) -> (r: MaybeZeroOid)
    ensures r == (match o { Some(x) => MaybeZeroOid::NonZero(x), None => MaybeZeroOid::Zero })
{ match o { Some(x) => MaybeZeroOid::NonZero(x), None => MaybeZeroOid::Zero } }

impl EventReplayer {
//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::new
//@contract
    ensures r.wf(), r.events@.len() == 0
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::fix_event_git_v2_31
//@contract
    requires self.wf()
    ensures r == (if dup_delete(self.events@, $0) { None::<Event> } else { Some(fix_old(self.events@, $0)) })
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::process_event
//@contract
    requires old(self).wf(), old(self).events@.len() + 1 < 0x3fff_ffff_ffff_ffff
    ensures final(self).wf(), final(self).events@ == step(old(self).events@, *$0),
        final(self).main_branch_reference_name == old(self).main_branch_reference_name,
//@prologue
    proof { lemma_hist_push(old(self).events@, fix_old(old(self).events@, *$0)); }
//@epilogue
    proof {
        let es0 = old(self).events@;
        let es1 = self.events@;
        assert(es1 == es0.push(fix_old(es0, *event)) );
        assert forall|oid: NonZeroOid| #[trigger] self.hist_of(oid) == hist(es1, oid) by {
            assert(old(self).hist_of(oid) == hist(es0, oid));
            assert(self.hist_of(oid) =~= hist(es0, oid) + touches(es0.len() as int, fix_old(es0, *event), oid));
        }
    }
//@end
}
} // verus!
