// C10: what became of a rewritten commit.
verus! {
pub open spec fn last_event(es: Seq<Event>, oid: NonZeroOid) -> Option<EventInfo> { if hist(es, oid).len() == 0 { None } else { Some(hist(es, oid).last()) } }
/// What the last event about the commit says it was rewritten into, if it says so.
pub open spec fn became(es: Seq<Event>, oid: NonZeroOid) -> Option<MaybeZeroOid> {
    match last_event(es, oid) {
        Some(i) => match i.event {
            Event::RewriteEvent { old_commit_oid: MaybeZeroOid::NonZero(o), new_commit_oid, .. } => if o == oid && new_commit_oid != MaybeZeroOid::NonZero(oid) { Some(new_commit_oid) } else { None },
            _ => None,
        },
        None => None,
    }
}
pub open spec fn age(es: Seq<Event>, oid: NonZeroOid) -> int { match last_event(es, oid) { Some(i) => es.len() - i.id, None => es.len() as int + 1 } }
pub open spec fn moved(es: Seq<Event>, oid: NonZeroOid) -> int { if became(es, oid) is Some { 1 } else { 0 } }
/// The newest version: followed until a commit that was not itself rewritten since.
pub open spec fn newest(es: Seq<Event>, oid: NonZeroOid) -> Option<MaybeZeroOid>
    decreases age(es, oid), moved(es, oid) when es.len() < 0x3fff_ffff_ffff_ffff via newest_decreases
{
    match became(es, oid) {
        None => None,
        Some(MaybeZeroOid::Zero) => Some(MaybeZeroOid::Zero),
        Some(MaybeZeroOid::NonZero(n)) => match newest(es, n) { Some(m) => Some(m), None => Some(MaybeZeroOid::NonZero(n)) },
    }
}
#[via_fn]
proof fn newest_decreases(es: Seq<Event>, oid: NonZeroOid) {
    if let Some(MaybeZeroOid::NonZero(n)) = became(es, oid) {
        lemma_later(es, oid, n);
        lemma_last_id(es, n);
        if became(es, n) is None { }
    }
}
pub proof fn lemma_last_id(es: Seq<Event>, oid: NonZeroOid)
    requires es.len() < 0x3fff_ffff_ffff_ffff
    ensures hist(es, oid).len() > 0 ==> 0 <= hist(es, oid).last().id < es.len() && es[hist(es, oid).last().id as int] == hist(es, oid).last().event
{
    lemma_hist_split(es, es.len() as int, oid);
    if hist(es, oid).len() > 0 { let k = hist(es, oid).len() - 1; assert(hist(es, oid)[k] == hist(es, oid).last()); }
}
/// The last event about a commit is the last event of the timeline that touches it.
pub proof fn lemma_last_is_last(es: Seq<Event>, oid: NonZeroOid, j: int)
    requires es.len() < 0x3fff_ffff_ffff_ffff, 0 <= j < es.len(), touches(j, es[j], oid).len() > 0
    ensures hist(es, oid).len() > 0, hist(es, oid).last().id >= j
    decreases es.len()
{
    let p = es.drop_last();
    if j < p.len() {
        assert(p[j] == es[j]);
        lemma_last_is_last(p, oid, j);
    }
    if touches(p.len() as int, es.last(), oid).len() > 0 { lemma_touch_id(p.len() as int, es.last(), oid); }
    else { assert(hist(es, oid) =~= hist(p, oid)); }
}
pub proof fn lemma_touch_id(i: int, e: Event, oid: NonZeroOid)
    requires touches(i, e, oid).len() > 0, 0 <= i < 0x3fff_ffff_ffff_ffff
    ensures touches(i, e, oid).last().id == i
{}
/// A rewrite is itself an event about the new commit, so what the new commit became happened later.
pub proof fn lemma_later(es: Seq<Event>, oid: NonZeroOid, n: NonZeroOid)
    requires es.len() < 0x3fff_ffff_ffff_ffff, became(es, oid) == Some(MaybeZeroOid::NonZero(n))
    ensures age(es, n) <= age(es, oid), became(es, n) is Some ==> age(es, n) < age(es, oid)
{
    lemma_last_id(es, oid);
    lemma_last_id(es, n);
    let j = hist(es, oid).last().id as int;
    lemma_last_is_last(es, n, j);
}

//@fn git-branchless-lib/src/core/rewrite/evolve.rs::find_rewrite_target
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures r == newest(event_replayer.upto(event_cursor), oid)
    decreases age(event_replayer.upto(event_cursor), oid), moved(event_replayer.upto(event_cursor), oid)
//@prologue
    proof {
        let es = event_replayer.upto(event_cursor);
        lemma_last_id(es, oid);
        if let Some(MaybeZeroOid::NonZero(n)) = became(es, oid) { lemma_later(es, oid, n); lemma_last_id(es, n); }
    }
//@end

pub open spec fn abandoned(d: &Dag, oid: NonZeroOid, x: NonZeroOid) -> bool { d.inner.parent(oid, x) && d.is_visible(x) && !d.obsolete_commits@.contains(x) }
//@fn git-branchless-lib/src/core/rewrite/evolve.rs::find_abandoned_children
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor), dag.wf()
    ensures r is Ok ==> {
        let t = newest(event_replayer.upto(event_cursor), oid);
        match r->Ok_0 {
            None => t is None,
            Some(p) => t is Some && p.0 == (match t->Some_0 { MaybeZeroOid::NonZero(n) => n, MaybeZeroOid::Zero => oid })
                && p.1@.no_duplicates() && forall|x: NonZeroOid| #[trigger] p.1@.contains(x) <==> abandoned(dag, oid, x),
        }
    }
//@prologue
    assert(Set::<NonZeroOid>::empty().insert(oid).contains(oid));
//@end
} // verus!
