verus! {
pub proof fn lemma_cut(rep: &EventReplayer, c: EventCursor, oid: NonZeroOid, r: Seq<&EventInfo>)
    requires
        rep.wf(), rep.cursor_ok(c),
        ({ let s = vx_refs(rep.hist_of(oid));
           &&& vx_subseq(s, r, vx_idx(s, r))
           &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).id < c.event_id
           &&& forall|j: int| 0 <= j < s.len() && !vx_idx(s, r).contains(j) ==> !((#[trigger] s[j]).id < c.event_id) }),
    ensures r == vx_refs(hist(rep.upto(c), oid))
{
    let es = rep.events@;
    let h = hist(es, oid);
    assert(rep.hist_of(oid) == h);
    let s = vx_refs(h);
    lemma_hist_split(es, c.event_id as int, oid);
    let k = hist(rep.upto(c), oid).len() as int;
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] vx_idx(s, r)[i] < k by {
        let x = vx_idx(s, r)[i];
        assert(r[i] == s[x]);
        if x >= k { assert(h[x].id >= c.event_id); }
    }
    assert forall|j: int| 0 <= j < k implies vx_idx(s, r).contains(j) by { assert(h[j].id < c.event_id); assert(s[j].id < c.event_id); }
    lemma_filter_prefix(s, r, k);
    assert(s.take(k) =~= vx_refs(h.take(k)));
}

impl EventReplayer {
//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_commit_history
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r@ == vx_refs(hist(self.upto($0), $1))
//@prologue
    proof {
        assert(self.hist_of($1) == hist(self.events@, $1));
        lemma_hist_split(self.events@, $0.event_id as int, $1);
    }
//@epilogue
    proof {
        if self.commit_history@.dom().contains($1) { lemma_cut(self, $0, $1, vx_ret@); }
        else { assert(vx_ret@ =~= vx_refs(hist(self.upto($0), $1))); }
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_commit_activity_status
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r == status_of(hist(self.upto($0), $1))
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_commit_latest_event
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures
        hist(self.upto($0), $1).len() == 0 ==> r is None,
        hist(self.upto($0), $1).len() > 0 ==> r is Some && *(r->Some_0) == hist(self.upto($0), $1).last().event,
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_oids
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures forall|oid: NonZeroOid| #[trigger] r@.contains(oid) <==> hist(self.upto($0), oid).len() > 0
//@closures 2
//@closure 0
    -> (o: Option<NonZeroOid>)
      ensures o == (if has_before(vx_p0_0.1@, cursor.event_id) { Some(*vx_p0_0.0) } else { None::<NonZeroOid> })
//@epilogue
    proof {
        lemma_oids(self, $0, vx_ret@);
    }
//@end
}
pub open spec fn has_before(h: Seq<EventInfo>, c: isize) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] vx_refs(h)[i]).id < c }
pub proof fn lemma_oids(rep: &EventReplayer, c: EventCursor, s: Set<NonZeroOid>)
    requires rep.wf(), rep.cursor_ok(c),
       forall|oid: NonZeroOid| #[trigger] s.contains(oid) <==> rep.commit_history@.dom().contains(oid) && has_before(rep.commit_history@[oid]@, c.event_id)
    ensures forall|oid: NonZeroOid| #[trigger] s.contains(oid) <==> hist(rep.upto(c), oid).len() > 0
{
    assert forall|oid: NonZeroOid| #[trigger] s.contains(oid) <==> hist(rep.upto(c), oid).len() > 0 by {
        assert(rep.hist_of(oid) == hist(rep.events@, oid));
        lemma_hist_split(rep.events@, c.event_id as int, oid);
        if hist(rep.upto(c), oid).len() > 0 { assert(vx_refs(rep.hist_of(oid))[0].id < c.event_id); }
    }
}
} // verus!
