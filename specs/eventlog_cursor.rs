verus! {
//@type RepoReferencesSnapshot => RepoReferencesSnapshot
pub open spec fn tx_of(e: Event) -> EventTransactionId {
    match e {
        Event::RewriteEvent { event_tx_id, .. } => event_tx_id,
        Event::RefUpdateEvent { event_tx_id, .. } => event_tx_id,
        Event::CommitEvent { event_tx_id, .. } => event_tx_id,
        Event::ObsoleteEvent { event_tx_id, .. } => event_tx_id,
        Event::UnobsoleteEvent { event_tx_id, .. } => event_tx_id,
        Event::WorkingCopySnapshot { event_tx_id, .. } => event_tx_id,
    }
}
impl Event {
    pub open spec fn spec_tx(&self) -> EventTransactionId { tx_of(*self) }
//@fn git-branchless-lib/src/core/eventlog.rs::Event::get_event_tx_id
//@attrs #[verifier::when_used_as_spec(spec_tx)]
//@contract
    ensures r == tx_of(*self)
//@end
}

/// Transaction of the event just before position `c`.
pub open spec fn tb(es: Seq<Event>, c: int) -> Option<EventTransactionId> {
    if c <= 0 || c > es.len() { None } else { Some(tx_of(es[c - 1])) }
}
/// Position `c` lies between two transactions (or at an end of the timeline).
pub open spec fn is_boundary(es: Seq<Event>, c: int) -> bool {
    c == es.len() || tb(es, c) != tb(es, c + 1)
}
/// Number of transactions entered when walking from `a` forward to `b`.
pub open spec fn changes(es: Seq<Event>, a: int, b: int) -> int
    decreases b - a
{
    if a >= b { 0 } else { changes(es, a, b - 1) + (if tb(es, b) != tb(es, b - 1) { 1int } else { 0 }) }
}
pub proof fn lemma_changes_front(es: Seq<Event>, a: int, b: int)
    requires a < b
    ensures changes(es, a, b) == changes(es, a + 1, b) + (if tb(es, a + 1) != tb(es, a) { 1int } else { 0 })
    decreases b - a
{
    reveal_with_fuel(changes, 2);
    if a + 1 < b { lemma_changes_front(es, a, b - 1); }
}
pub proof fn lemma_changes_nonneg(es: Seq<Event>, a: int, b: int)
    ensures changes(es, a, b) >= 0
    decreases b - a
{ if a < b { lemma_changes_nonneg(es, a, b - 1); } }
pub proof fn lemma_changes_zero(es: Seq<Event>, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> #[trigger] tb(es, k) == tb(es, k + 1)
    ensures changes(es, a, b) == 0, tb(es, a) == tb(es, b)
    decreases b - a
{ if a < b { lemma_changes_zero(es, a, b - 1); assert(tb(es, b - 1) == tb(es, b)); } }
pub proof fn lemma_changes_split(es: Seq<Event>, a: int, m: int, b: int)
    requires a <= m <= b
    ensures changes(es, a, b) == changes(es, a, m) + changes(es, m, b)
    decreases b - m
{ if m < b { lemma_changes_split(es, a, m, b - 1); } }
pub proof fn lemma_changes_same(es: Seq<Event>, a: int, b: int)
    requires a <= b, changes(es, a, b) == 0
    ensures forall|k: int| a <= k <= b ==> #[trigger] tb(es, k) == tb(es, b)
    decreases b - a
{
    lemma_changes_nonneg(es, a, b - 1);
    if a < b { lemma_changes_same(es, a, b - 1); }
}

/// What moving by `n` transactions from `c` must return.
pub open spec fn stepped(es: Seq<Event>, c: int, n: int, r: int) -> bool {
    &&& 0 <= r <= es.len()
    &&& is_boundary(es, r)
    &&& n > 0 ==> c <= r && (changes(es, c, r) == n || (r == es.len() && changes(es, c, r) < n))
    &&& n < 0 ==> r <= c && (changes(es, r, c) == -n || (r == 0 && changes(es, r, c) < -n))
    &&& n == 0 ==> snapped(es, c, r)
}
pub open spec fn snapped(es: Seq<Event>, c: int, r: int) -> bool {
    c <= r <= es.len() && is_boundary(es, r) && (forall|k: int| c <= k < r ==> !#[trigger] is_boundary(es, k))
}

impl EventReplayer {
//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::make_cursor
//@contract
    requires self.wf()
    ensures self.cursor_ok(r),
        r.event_id == (if $0 < 0 { 0 } else if $0 > self.events@.len() { self.events@.len() as isize } else { $0 }),
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::make_default_cursor
//@contract
    requires self.wf()
    ensures r.event_id == self.events@.len()
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::advance_cursor
//@contract
    requires self.wf(), self.cursor_ok($0), -0x3fff_ffff_ffff_ffff <= $1 <= 0x3fff_ffff_ffff_ffff
    ensures self.cursor_ok(r),
        r.event_id == (if $0.event_id + $1 < 0 { 0 } else if $0.event_id + $1 > self.events@.len() { self.events@.len() as int } else { $0.event_id + $1 }),
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_event_before_cursor
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures
        $0.event_id == 0 ==> r is None,
        $0.event_id > 0 ==> r is Some && r->Some_0.0 == $0.event_id && *(r->Some_0.1) == self.events@[$0.event_id - 1],
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_event_tx_id_before_cursor
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r == tb(self.events@, $0.event_id as int)
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::snap_to_transaction_boundary
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures self.cursor_ok(r), snapped(self.events@, $0.event_id as int, r.event_id as int)
    decreases self.events@.len() - $0.event_id
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::advance_cursor_by_transaction_helper
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures self.cursor_ok(r), stepped(self.events@, $0.event_id as int, $1 as int, r.event_id as int),
    decreases (if $1 == 0 { 0int } else if $1 > 0 { self.events@.len() - $0.event_id } else { $0.event_id as int })
//@prologue
    proof {
        assert forall|b: int| $0.event_id < b implies #[trigger] changes(self.events@, $0.event_id as int, b)
            == changes(self.events@, $0.event_id + 1, b) + (if tb(self.events@, $0.event_id + 1) != tb(self.events@, $0.event_id as int) { 1int } else { 0 })
        by { lemma_changes_front(self.events@, $0.event_id as int, b); }
        assert forall|a: int, b: int| a <= b && (forall|k: int| a <= k < b ==> !#[trigger] is_boundary(self.events@, k)) implies #[trigger] changes(self.events@, a, b) == 0
        by {
            assert forall|k: int| a <= k < b implies #[trigger] tb(self.events@, k) == tb(self.events@, k + 1) by { assert(!is_boundary(self.events@, k)); }
            lemma_changes_zero(self.events@, a, b);
        }
        let c = $0.event_id as int;
        let es = self.events@;
        assert(c > 0 && tb(es, c) != tb(es, c - 1) ==> is_boundary(es, c - 1));
        assert(is_boundary(es, 0));
        assert forall|a: int| a < c implies #[trigger] changes(es, a, c) == changes(es, a, c - 1) + (if tb(es, c) != tb(es, c - 1) { 1int } else { 0 }) by {}
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::advance_cursor_by_transaction
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures self.cursor_ok(r),
        self.events@.len() > 0 ==> exists|s: int| snapped(self.events@, $0.event_id as int, s) && #[trigger] stepped(self.events@, s, $1 as int, r.event_id as int),
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_tx_events_before_cursor
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures
        $0.event_id == 0 <==> r is None,
        r is Some ==> {
            let first = r->Some_0.0 - 1;
            &&& 0 <= first < $0.event_id
            &&& r->Some_0.1@ == self.events@.subrange(first, $0.event_id as int)
            // one transaction, and all of it up to the cursor
            &&& forall|k: int| first <= k < $0.event_id ==> tx_of(#[trigger] self.events@[k]) == tx_of(self.events@[$0.event_id - 1])
            &&& first > 0 ==> tx_of(self.events@[first - 1]) != tx_of(self.events@[$0.event_id - 1])
        },
//@prologue
    proof {
        let es = self.events@;
        let c = $0.event_id as int;
        assert forall|s: int, r: int| snapped(es, c, s) && es.len() > 0 && #[trigger] stepped(es, s, -1, r) implies one_tx_back(es, c, r)
        by { lemma_one_tx_back(es, c, s, r); }
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_events_since_cursor
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r@ == self.events@.subrange($0.event_id as int, self.events@.len() as int)
//@end
}

pub open spec fn one_tx_back(es: Seq<Event>, c: int, r: int) -> bool {
    &&& 0 <= r <= c
    &&& c > 0 ==> r < c
    &&& forall|k: int| r <= k < c ==> tx_of(#[trigger] es[k]) == tx_of(es[c - 1])
    &&& 0 < r < c ==> tx_of(es[r - 1]) != tx_of(es[c - 1])
}
pub proof fn lemma_one_tx_back(es: Seq<Event>, c: int, s: int, r: int)
    requires es.len() > 0, 0 <= c <= es.len(), snapped(es, c, s), stepped(es, s, -1, r)
    ensures one_tx_back(es, c, r)
{
    assert forall|k: int| c <= k < s implies #[trigger] tb(es, k) == tb(es, k + 1) by { assert(!is_boundary(es, k)); }
    lemma_changes_zero(es, c, s);
    if c == 0 {
        assert(is_boundary(es, 0));
        assert(s == 0);
    } else {
        if r > c { lemma_changes_split(es, c, r, s); lemma_changes_nonneg(es, c, r); assert(changes(es, r, s) <= 0); assert(false); }
        lemma_changes_split(es, r, c, s);
        lemma_changes_nonneg(es, r, c);
        if r == c { assert(changes(es, r, c) == 0); assert(false); }
        lemma_changes_front(es, r, c);
        assert(tb(es, r) != tb(es, r + 1));
        lemma_changes_nonneg(es, r + 1, c);
        lemma_changes_same(es, r + 1, c);
        assert forall|k: int| r <= k < c implies tx_of(#[trigger] es[k]) == tx_of(es[c - 1]) by { assert(tb(es, k + 1) == tb(es, c)); }
        if r > 0 { assert(tb(es, r + 1) == tb(es, c)); assert(tb(es, r) == Some(tx_of(es[r - 1]))); }
    }
}
} // verus!
