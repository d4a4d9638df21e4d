// C05: undoing applies the inverse of every event since the chosen point.
//@rule __N.duration_since(__E)?.as_secs_f64() => vx_secs(__N)?
//@rule SystemTime::now() => vx_now()
//@rule BufReader::new(__X) => vx_reader(__X)
//@rule __R.read_line(&mut __U) => vx_read_line(&mut __U, w)
//@rule __U.trim() => vx_trim(__U)
//@rule String::new() => vx_new_string()
//@rule repo.detach_head(__H) => w.detach_head(__H)
//@rule repo.find_reference(__R) => w.find_reference(__R)
//@rule reference.delete() => w.delete_reference(&reference)
//@rule repo.create_reference(__A, __B, __C, __D) => w.create_reference(__A, __B, __C)
//@rule check_out_commit(__A, __B, __C, __D, __E, __F, __G) => w.check_out_commit(__F, __G)
//@rule __X.into() => vx_into_arg(__X)
//@rule __X.render_suffix() => vx_render_suffix(__X)
//@rule Default::default() => Vec::new()
//@drop_let __X.to_string()
//@type CheckOutCommitOptions => CheckOutCommitOptions
verus! {
#[verifier::external_body]
pub struct SystemTime { x: u64 }
impl Clone for SystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SystemTime {}
pub uninterp spec fn secs_of(t: SystemTime) -> Ts;
#[verifier::external_body]
pub fn vx_secs(t: SystemTime) -> (r: EyreResult<Ts>) ensures r is Ok ==> r->Ok_0 == secs_of(t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_now() -> SystemTime { unimplemented!() }
#[verifier::external_body]
pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub struct ExitCode(pub isize);
pub type EyreExitOr<T> = EyreResult<Result<T, ExitCode>>;

/// What the inverse of an event is.
pub open spec fn inv(e: Event, ts: Ts, tx: EventTransactionId) -> Event {
    match e {
        Event::CommitEvent { commit_oid, .. } => Event::ObsoleteEvent { timestamp: ts, event_tx_id: tx, commit_oid },
        Event::UnobsoleteEvent { commit_oid, .. } => Event::ObsoleteEvent { timestamp: ts, event_tx_id: tx, commit_oid },
        Event::ObsoleteEvent { commit_oid, .. } => Event::UnobsoleteEvent { timestamp: ts, event_tx_id: tx, commit_oid },
        Event::RewriteEvent { old_commit_oid, new_commit_oid, .. } =>
            Event::RewriteEvent { timestamp: ts, event_tx_id: tx, old_commit_oid: new_commit_oid, new_commit_oid: old_commit_oid },
        Event::RefUpdateEvent { ref_name, old_oid, new_oid, .. } =>
            Event::RefUpdateEvent { timestamp: ts, event_tx_id: tx, ref_name, old_oid: new_oid, new_oid: old_oid, message: None },
        Event::WorkingCopySnapshot { .. } => e,
    }
}

//@fn git-branchless-undo/src/lib.rs::inverse_event
//@contract
    ensures r is Ok ==> r->Ok_0 == inv($0, secs_of($1), $2)
//@end

// ---- where to check out afterwards
pub enum CheckoutTarget { Oid(NonZeroOid) }
#[verifier::external_body]
pub struct OsString { x: u64 }
//@item git-branchless-lib/src/core/check_out.rs::CheckOutCommitOptions
//@item git-branchless-undo/src/lib.rs::UndoCheckoutTarget
#[verifier::external_body]
pub struct CategorizedReferenceName { x: u64 }
impl CategorizedReferenceName {
    pub uninterp spec fn of(r: ReferenceName) -> CategorizedReferenceName;
    #[verifier::external_body]
    pub fn new(r: &ReferenceName) -> (c: CategorizedReferenceName) ensures c == Self::of(*r) { unimplemented!() }
    pub uninterp spec fn suffix(self) -> Seq<char>;
}
#[verifier::external_body]
pub fn vx_render_suffix(c: CategorizedReferenceName) -> (s: String) ensures s@ == c.suffix() { unimplemented!() }
pub uninterp spec fn arg(s: Seq<char>) -> OsString;
pub trait VxText { spec fn text(self) -> Seq<char>; }
impl VxText for &str { open spec fn text(self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn text(self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_into_arg<S: VxText>(s: S) -> (r: OsString) ensures r == arg(s.text()) { unimplemented!() }

pub open spec fn is_head(e: Event) -> bool { e is RefUpdateEvent && ref_text(e->RefUpdateEvent_ref_name) == "HEAD"@ }
/// An (inverse) event that moves HEAD or the working copy.
pub open spec fn moves_head(e: Event) -> bool {
    (is_head(e) && e->RefUpdateEvent_new_oid is NonZero) || e is WorkingCopySnapshot
}
pub open spec fn args_of(e: Event) -> Seq<OsString> {
    match e {
        Event::WorkingCopySnapshot { ref_name, .. } => match ref_name {
            Some(n) => seq![arg("-B"@), arg(CategorizedReferenceName::of(n).suffix())],
            None => Seq::empty(),
        },
        _ => seq![arg("--detach"@)],
    }
}
pub open spec fn target_of(e: Event) -> NonZeroOid {
    match e {
        Event::WorkingCopySnapshot { commit_oid, .. } => commit_oid,
        Event::RefUpdateEvent { new_oid, .. } => new_oid->NonZero_0,
        _ => arbitrary(),
    }
}
pub open spec fn is_target(t: Option<UndoCheckoutTarget>, es: Seq<Event>) -> bool
    decreases es.len()
{
    if es.len() == 0 { t is None }
    else if moves_head(es.last()) {
        t is Some && t->Some_0.target == CheckoutTarget::Oid(target_of(es.last())) && t->Some_0.options.additional_args@ == args_of(es.last())
            && !t->Some_0.options.reset
    } else { is_target(t, es.drop_last()) }
}
pub open spec fn rest(es: Seq<Event>) -> Seq<Event> { es.filter(|e: Event| !moves_head(e)) }

//@fn git-branchless-undo/src/lib.rs::extract_checkout_target
//@contract
    ensures r is Ok, is_target(r->Ok_0.0, $0@), vx_deref(r->Ok_0.1@) =~= rest($0@)
//@prologue
    broadcast use axiom_as_str;
//@loop 0 for event in events . iter ()
    invariant
        vx_it0@ == vx_refs(events@), 0 <= vx_i0 <= vx_it0@.len(),
        is_target(checkout_target, events@.take(vx_i0 as int)), vx_deref(new_events@) =~= rest(events@.take(vx_i0 as int)),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof {
        broadcast use axiom_as_str;
        assert(events@.take(vx_i0 as int).drop_last() =~= events@.take(vx_i0 - 1));
        assert(events@.take(vx_i0 as int) =~= events@.take(vx_i0 - 1).push(*event));
        lemma_rest_push(events@.take(vx_i0 - 1), *event);
    }
//@body_end 0
    proof {
        assert(events@.take(vx_i0 as int).last() == *event);
        if event is WorkingCopySnapshot || is_head(*event) {
            assert(checkout_target is Some ==> checkout_target->Some_0.options.additional_args@ =~= args_of(*event) || !moves_head(*event));
        }
    }
//@after_loop 0
    proof { assert(events@.take(events@.len() as int) =~= events@); }
//@end
pub open spec fn vx_deref(s: Seq<&Event>) -> Seq<Event> { Seq::new(s.len(), |i: int| *s[i]) }
pub proof fn lemma_rest_push(s: Seq<Event>, e: Event)
    ensures rest(s.push(e)) =~= (if moves_head(e) { rest(s) } else { rest(s).push(e) })
{
    reveal(Seq::filter);
    assert(s.push(e).drop_last() =~= s);
}

// ---- the world that undoing changes
/// `under`: some reference was changed that HEAD could have been on, so that the files no longer go with HEAD.
pub struct World { pub refs: Ghost<Map<ReferenceName, NonZeroOid>>, pub detached: Ghost<bool>, pub under: Ghost<bool>, pub checkout: Ghost<Option<UndoCheckoutTarget>>, pub answer: Ghost<bool> }
#[verifier::external_body]
pub struct RefHandle { x: u64 }
impl RefHandle { pub uninterp spec fn name(&self) -> ReferenceName; }
#[verifier::external_body]
pub struct HeadInfo { x: u64 }
impl World {
    pub open spec fn same_but_refs(self, o: World) -> bool { self.detached == o.detached && self.checkout == o.checkout && self.answer == o.answer }
    #[verifier::external_body]
    pub fn detach_head(&mut self, h: &HeadInfo) -> (r: EyreResult<()>)
        ensures final(self).refs == old(self).refs, final(self).checkout == old(self).checkout, final(self).answer == old(self).answer, final(self).under == old(self).under,
            r is Ok ==> final(self).detached@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find_reference(&mut self, n: &ReferenceName) -> (r: EyreResult<Option<RefHandle>>)
        ensures *final(self) == *old(self),
            r is Ok ==> (r->Ok_0 is Some <==> old(self).refs@.dom().contains(*n)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0.name() == *n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_reference(&mut self, h: &RefHandle) -> (r: EyreResult<()>)
        ensures final(self).same_but_refs(*old(self)), final(self).under@ == (old(self).under@ || !old(self).detached@), r is Ok ==> final(self).refs@ == old(self).refs@.remove(h.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_reference(&mut self, n: &ReferenceName, o: NonZeroOid, force: bool) -> (r: EyreResult<()>)
        ensures final(self).same_but_refs(*old(self)), final(self).under@ == (old(self).under@ || !old(self).detached@), r is Ok && force ==> final(self).refs@ == old(self).refs@.insert(*n, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn check_out_commit(&mut self, t: Option<CheckoutTarget>, o: &CheckOutCommitOptions) -> (r: EyreExitOr<()>)
        ensures final(self).refs == old(self).refs, final(self).answer == old(self).answer, final(self).under == old(self).under,
            r is Ok && r->Ok_0 is Ok && t is Some ==> final(self).checkout@ == Some(UndoCheckoutTarget { target: t->Some_0, options: *o }) { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader { x: u64 }
#[verifier::external_body]
pub fn vx_reader<T>(t: T) -> Reader { unimplemented!() }
#[verifier::external_body]
pub fn vx_read_line(u: &mut String, w: &mut World) -> (r: EyreResult<usize>)
    ensures *final(w) == *old(w), r is Ok ==> old(w).answer@ == (trimmed(final(u)@) == "y"@ || trimmed(final(u)@) == "Y"@), r is Err ==> !old(w).answer@ { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_trim<'a>(s: String) -> (r: &'a str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body]
pub struct Effects { x: u64 }
#[verifier::external_body]
pub struct Glyphs { x: u64 }
impl Effects { #[verifier::external_body] pub fn get_glyphs(&self) -> &Glyphs { unimplemented!() } }
#[verifier::external_body]
pub struct Repo { x: u64 }
impl Repo { #[verifier::external_body] pub fn get_head_info(&self) -> EyreResult<HeadInfo> { unimplemented!() } }
#[verifier::external_body]
pub struct GitRunInfo { x: u64 }
#[verifier::external_body]
pub struct EventLogDb { x: u64 }
impl EventLogDb {
    pub uninterp spec fn log(&self) -> Seq<Event>;
    #[verifier::external_body]
    pub fn make_transaction_id(&self, now: SystemTime, m: &str) -> EyreResult<EventTransactionId> { unimplemented!() }
    #[verifier::external_body]
    pub fn add_events(&mut self, es: Vec<Event>) -> (r: EyreResult<()>) ensures r is Ok ==> final(self).log() == old(self).log() + es@ { unimplemented!() }
}
#[verifier::external_body]
pub fn describe_events_numbered(g: &Glyphs, r: &Repo, es: &Vec<Event>) -> EyreResult<Vec<u64>> { unimplemented!() }
impl EventReplayer {
    /// proved in unit `ec`
    #[verifier::external_body]
    pub fn get_events_since_cursor(&self, cursor: EventCursor) -> (r: &[Event])
        requires self.wf(), self.cursor_ok(cursor)
        ensures r@ == self.events@.subrange(cursor.event_id as int, self.events@.len() as int)
    { unimplemented!() }
}

/// References after applying (inverse) events in order.
pub open spec fn apply_ref(m: Map<ReferenceName, NonZeroOid>, e: Event) -> Map<ReferenceName, NonZeroOid> {
    match e {
        Event::RefUpdateEvent { ref_name, old_oid, new_oid, .. } => match new_oid {
            MaybeZeroOid::NonZero(o) => m.insert(ref_name, o),
            MaybeZeroOid::Zero => match old_oid { MaybeZeroOid::Zero => m, MaybeZeroOid::NonZero(_) => m.remove(ref_name) },
        },
        _ => m,
    }
}
pub open spec fn apply_refs(m: Map<ReferenceName, NonZeroOid>, es: Seq<Event>) -> Map<ReferenceName, NonZeroOid>
    decreases es.len()
{ if es.len() == 0 { m } else { apply_ref(apply_refs(m, es.drop_last()), es.last()) } }
pub open spec fn is_vis(e: Event) -> bool { !(e is RefUpdateEvent) && !(e is WorkingCopySnapshot) }
pub open spec fn vis(es: Seq<Event>) -> Seq<Event> { es.filter(|e: Event| is_vis(e)) }
pub proof fn lemma_vis_push(s: Seq<Event>, e: Event)
    ensures vis(s.push(e)) =~= (if is_vis(e) { vis(s).push(e) } else { vis(s) })
{ reveal(Seq::filter); assert(s.push(e).drop_last() =~= s); }

/// HEAD coming into existence has no inverse.
pub open spec fn head_birth(e: Event) -> bool { is_head(e) && e->RefUpdateEvent_old_oid is Zero }
/// Inverses of the events, newest first.
pub open spec fn undoable<'a>(es: Seq<Event>) -> Seq<&'a Event> { vx_rev(vx_refs(es)).filter(|e: &'a Event| !head_birth(*e)) }
pub open spec fn inverses(es: Seq<Event>, ts: Ts, tx: EventTransactionId) -> Seq<Event> {
    Seq::new(undoable(es).len(), |i: int| inv(*undoable(es)[i], ts, tx))
}

/// The contract of `filter` gives `undoable`.
pub proof fn lemma_undoable(es: Seq<Event>)
    ensures forall|r: Seq<&Event>| #![trigger vx_idx(vx_rev(vx_refs(es)), r)]
        vx_subseq(vx_rev(vx_refs(es)), r, vx_idx(vx_rev(vx_refs(es)), r))
        && (forall|i: int| 0 <= i < r.len() ==> !head_birth(*(#[trigger] r[i])))
        && (forall|j: int| 0 <= j < es.len() && !vx_idx(vx_rev(vx_refs(es)), r).contains(j) ==> head_birth(*(#[trigger] vx_rev(vx_refs(es))[j])))
        ==> r == undoable(es)
{
    assert forall|r: Seq<&Event>| #![trigger vx_idx(vx_rev(vx_refs(es)), r)]
        vx_subseq(vx_rev(vx_refs(es)), r, vx_idx(vx_rev(vx_refs(es)), r))
        && (forall|i: int| 0 <= i < r.len() ==> !head_birth(*(#[trigger] r[i])))
        && (forall|j: int| 0 <= j < es.len() && !vx_idx(vx_rev(vx_refs(es)), r).contains(j) ==> head_birth(*(#[trigger] vx_rev(vx_refs(es))[j])))
        implies r == undoable(es) by {
        lemma_filter_is(vx_rev(vx_refs(es)), r, vx_idx(vx_rev(vx_refs(es)), r), |e: &Event| !head_birth(*e));
    }
}

/// The outcome of an undo that was carried out.
pub open spec fn undone(es: Seq<Event>, ts: Ts, tx: EventTransactionId, w0: World, w1: World, l0: Seq<Event>, l1: Seq<Event>) -> bool {
    let iv = inverses(es, ts, tx);
    &&& w1.refs@ == apply_refs(w0.refs@, rest(iv))
    &&& l1 == l0 + vis(rest(iv))
    &&& exists|t: Option<UndoCheckoutTarget>| #[trigger] is_target(t, iv) && (t is Some ==> w1.checkout@ == t && w1.under == w0.under) && (t is None ==> w1.checkout == w0.checkout)
}

//@fn git-branchless-undo/src/lib.rs::undo_events
//@sig
pub fn undo_events(
    in_: &mut Reader, effects: &Effects, repo: &Repo, git_run_info: &GitRunInfo, event_log_db: &mut EventLogDb,
    event_replayer: &EventReplayer, event_cursor: EventCursor, skip_confirmation: bool, w: &mut World) -> (r: EyreExitOr<()>)
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures
        // declined, or nothing to do: nothing changes
        !skip_confirmation && !old(w).answer@ ==> final(w).refs == old(w).refs && final(event_log_db).log() == old(event_log_db).log() && final(w).checkout == old(w).checkout,
        // carried out
        r is Ok && r->Ok_0 is Ok && (skip_confirmation || old(w).answer@) ==> exists|ts: Ts, tx: EventTransactionId| #[trigger] undone(
            event_replayer.events@.subrange(event_cursor.event_id as int, event_replayer.events@.len() as int), ts, tx,
            *old(w), *final(w), old(event_log_db).log(), final(event_log_db).log()),
//@prologue
    broadcast use axiom_as_str;
    let ghost es = event_replayer.events@.subrange(event_cursor.event_id as int, event_replayer.events@.len() as int);
//@loop 0 for line in events
    invariant true
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof {}
//@after_let inverse_events
    proof {
        broadcast use axiom_as_str;
        lemma_undoable(es);
        assert(inverse_events@ =~= inverses(es, secs_of(now), event_tx_id));
        if inverse_events@.len() == 0 {
            assert(rest(inverse_events@) =~= Seq::empty()) by { reveal(Seq::filter); }
            assert(vis(rest(inverse_events@)) =~= Seq::empty()) by { reveal(Seq::filter); }
            assert(is_target(None, inverse_events@));
            assert(undone(es, secs_of(now), event_tx_id, *old(w), *w, old(event_log_db).log(), event_log_db.log()));
        }
    }
//@loop 1 for event in filtered_events . into_iter ()
    invariant
        skip_confirmation || old(w).answer@,
        0 <= vx_i1 <= vx_it1@.len(),
        w.refs@ == apply_refs(old(w).refs@, vx_deref(vx_it1@).take(vx_i1 as int)), event_log_db.log() =~= old(event_log_db).log() + vis(vx_deref(vx_it1@).take(vx_i1 as int)),
        w.checkout == old(w).checkout, w.answer == old(w).answer,
        checkout_target is Some ==> w.detached@ && w.under == old(w).under,
    decreases vx_it1@.len() - vx_i1
//@body_start 1
    let ghost t0 = vx_deref(vx_it1@).take(vx_i1 - 1);
    proof {
        assert(vx_deref(vx_it1@).take(vx_i1 as int) =~= t0.push(*event));
        assert(t0.push(*event).drop_last() =~= t0);
        lemma_vis_push(t0, *event);
        assert(forall|n: ReferenceName| !w.refs@.dom().contains(n) ==> #[trigger] w.refs@.remove(n) =~= w.refs@);
    }
//@after_loop 1
    proof { assert(vx_deref(vx_it1@).take(vx_it1@.len() as int) =~= vx_deref(vx_it1@)); }
//@epilogue
    proof {
        if confirmed {
            assert(undone(es, secs_of(now), event_tx_id, *old(w), *w, old(event_log_db).log(), event_log_db.log()));
        }
    }
//@closures 2
//@closure 0
    -> (b: bool) ensures b == !head_birth(**$0)
//@closure 1
    -> (o: EyreResult<Event>) ensures o is Ok ==> o->Ok_0 == inv(*$0, secs_of(now), event_tx_id)
//@end

// ---- consequence: the references go back to what they were
pub open spec fn at(m: Map<ReferenceName, NonZeroOid>, n: ReferenceName) -> MaybeZeroOid {
    if m.dom().contains(n) { MaybeZeroOid::NonZero(m[n]) } else { MaybeZeroOid::Zero }
}
/// Every recorded update of `n` names the position `n` really had before it.
pub open spec fn faithful(m: Map<ReferenceName, NonZeroOid>, es: Seq<Event>, n: ReferenceName) -> bool {
    forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is RefUpdateEvent && es[i]->RefUpdateEvent_ref_name == n
        ==> es[i]->RefUpdateEvent_old_oid == at(apply_refs(m, es.take(i)), n)
}
pub proof fn lemma_apply_concat(m: Map<ReferenceName, NonZeroOid>, a: Seq<Event>, b: Seq<Event>)
    ensures apply_refs(m, a + b) == apply_refs(apply_refs(m, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_apply_concat(m, a, b.drop_last());
    }
}
pub proof fn lemma_rest_concat(a: Seq<Event>, b: Seq<Event>)
    ensures rest(a + b) =~= rest(a) + rest(b)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(rest(b) =~= Seq::empty()); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_rest_concat(a, b.drop_last());
    }
}
pub proof fn lemma_filter_concat<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool)
    ensures (a + b).filter(p) =~= a.filter(p) + b.filter(p)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(b.filter(p) =~= Seq::empty()); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_filter_concat(a, b.drop_last(), p);
    }
}
/// The inverse of the newest event comes first.
pub proof fn lemma_inverses_last(es: Seq<Event>, ts: Ts, tx: EventTransactionId)
    requires es.len() > 0
    ensures inverses(es, ts, tx) =~= (if head_birth(es.last()) { inverses(es.drop_last(), ts, tx) } else { seq![inv(es.last(), ts, tx)] + inverses(es.drop_last(), ts, tx) })
{
    let p = |e: &Event| !head_birth(*e);
    let one = seq![&es[es.len() - 1]];
    assert(vx_rev(vx_refs(es)) =~= one + vx_rev(vx_refs(es.drop_last())));
    lemma_filter_concat(one, vx_rev(vx_refs(es.drop_last())), p);
    assert(one.filter(p) =~= (if p(one[0]) { one } else { Seq::empty() })) by { reveal(Seq::filter); reveal_with_fuel(Seq::filter, 3); assert(one.drop_last() =~= Seq::empty()); }
}
/// Undoing the events `es` puts every reference other than HEAD back where it was before them.
pub proof fn lemma_undo_restores(m0: Map<ReferenceName, NonZeroOid>, m: Map<ReferenceName, NonZeroOid>, es: Seq<Event>, n: ReferenceName, ts: Ts, tx: EventTransactionId)
    requires faithful(m0, es, n), at(m, n) == at(apply_refs(m0, es), n), ref_text(n) != "HEAD"@
    ensures at(apply_refs(m, rest(inverses(es, ts, tx))), n) == at(m0, n)
    decreases es.len()
{
    if es.len() == 0 {
        reveal(Seq::filter);
        assert(undoable(es) =~= Seq::empty());
        assert(inverses(es, ts, tx) =~= Seq::empty());
        assert(rest(inverses(es, ts, tx)) =~= Seq::empty());
        return;
    }
    let p = es.drop_last();
    let e = es.last();
    lemma_inverses_last(es, ts, tx);
    assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is RefUpdateEvent && p[i]->RefUpdateEvent_ref_name == n
        implies p[i]->RefUpdateEvent_old_oid == at(apply_refs(m0, p.take(i)), n) by { assert(es[i] == p[i]); assert(es.take(i) =~= p.take(i)); }
    assert(es.take(es.len() - 1) =~= p);
    if head_birth(e) {
        lemma_undo_restores(m0, m, p, n, ts, tx);
    } else {
        let iv = inv(e, ts, tx);
        let one = seq![iv];
        lemma_rest_concat(one, inverses(p, ts, tx));
        assert(one.drop_last() =~= Seq::empty());
        assert(rest(one) =~= (if moves_head(iv) { Seq::empty() } else { one })) by { reveal_with_fuel(Seq::filter, 3); }
        lemma_apply_concat(m, rest(one), rest(inverses(p, ts, tx)));
        reveal_with_fuel(apply_refs, 3);
        let m1 = apply_refs(m, rest(one));
        if !moves_head(iv) { assert(m1 == apply_ref(m, iv)); }
        assert(es[es.len() - 1] == e);
        assert(at(m1, n) == at(apply_refs(m0, p), n));
        lemma_undo_restores(m0, m1, p, n, ts, tx);
    }
}
} // verus!
