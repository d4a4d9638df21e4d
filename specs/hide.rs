// C08: hiding and unhiding.
//@drop_let Pluralize { determiner: __A, amount: __B, unit: __C }
//@drop_stmt abandoned_branches.sort_unstable()
//@drop_let commits.iter().filter_map(__A).flatten().map(__B).collect()
//@rule abandoned_branches.is_empty() => vx_none_named()
verus! {
#[verifier::external_body]
pub fn vx_none_named() -> bool { unimplemented!() }
/// The commits a hide concerns.
pub open spec fn to_hide(revsets: Seq<Revset>, recursive: bool) -> Set<NonZeroOid> {
    if recursive { the_dag().descendants(union_of(resolved(revsets))).intersect(the_dag().visible()) } else { union_of(resolved(revsets)) }
}
pub open spec fn to_unhide(revsets: Seq<Revset>, recursive: bool) -> Set<NonZeroOid> {
    if recursive { the_dag().descendants(union_of(resolved(revsets))).intersect(the_dag().obsolete()) } else { union_of(resolved(revsets)) }
}
pub open spec fn hid(e: Event, o: NonZeroOid) -> bool { e is ObsoleteEvent && e->ObsoleteEvent_commit_oid == o }
pub open spec fn unhid(e: Event, o: NonZeroOid) -> bool { e is UnobsoleteEvent && e->UnobsoleteEvent_commit_oid == o }
pub open spec fn says(e: Event, o: NonZeroOid, hide: bool) -> bool { if hide { hid(e, o) } else { unhid(e, o) } }
pub open spec fn oids(v: Seq<Commit>) -> Seq<NonZeroOid> { Seq::new(v.len(), |i: int| v[i].oid()) }
pub open spec fn has_oid(v: Seq<Commit>, o: NonZeroOid) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).oid() == o }
/// The log grew by one event per commit of the set, and by nothing else.
pub open spec fn logged_once(l0: Seq<Event>, l1: Seq<Event>, s: Set<NonZeroOid>, hide: bool) -> bool {
    let n = l0.len() as int;
    &&& n <= l1.len() && l1.take(n) == l0
    &&& exists|os: Seq<NonZeroOid>| #![trigger os.no_duplicates()] {
        &&& os.no_duplicates() && os.len() == l1.len() - n
        &&& forall|o: NonZeroOid| #[trigger] os.contains(o) <==> s.contains(o)
        &&& forall|i: int| 0 <= i < os.len() ==> says(#[trigger] l1[n + i], os[i], hide)
    }
}
pub proof fn lemma_logged(l0: Seq<Event>, l1: Seq<Event>, cs: Seq<Commit>, sorted: Seq<NonZeroOid>, s: Set<NonZeroOid>, hide: bool)
    requires
        sorted.no_duplicates(), forall|o: NonZeroOid| #[trigger] sorted.contains(o) <==> s.contains(o), cs.len() == sorted.len(),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).oid() == sorted[i],
        l1.len() == l0.len() + cs.len(), l1.take(l0.len() as int) == l0, forall|i: int| 0 <= i < cs.len() ==> says(l1[l0.len() + i], (#[trigger] cs[i]).oid(), hide),
    ensures logged_once(l0, l1, s, hide), forall|o: NonZeroOid| #[trigger] has_oid(cs, o) <==> s.contains(o)
{
    assert forall|i: int| 0 <= i < sorted.len() implies says(#[trigger] l1[l0.len() + i], sorted[i], hide) by { assert(cs[i].oid() == sorted[i]); }
    assert forall|o: NonZeroOid| #[trigger] has_oid(cs, o) <==> s.contains(o) by {
        if has_oid(cs, o) { let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).oid() == o; assert(sorted[i] == o); assert(sorted.contains(o)); }
        if s.contains(o) { assert(sorted.contains(o)); let i = sorted.index_of(o); assert(cs[i].oid() == o); }
    }
}
//@fn git-branchless/src/commands/hide.rs::hide
//@sig
pub fn hide(effects: &Effects, git_run_info: &GitRunInfo, revsets: Vec<Revset>, resolve_revset_options: &ResolveRevsetOptions, no_delete_branches: bool, recursive: bool, w: &mut World) -> (r: EyreResult<Result<(), ExitCode>>)
//@contract
    ensures
        final(w).kept == old(w).kept,
        r is Ok && r->Ok_0 is Ok ==> {
            &&& logged_once(old(w).log@, final(w).log@, to_hide(revsets@, recursive), true)
            // their branches go, unless told otherwise; HEAD is not left on a deleted one
            &&& no_delete_branches ==> final(w).moves == old(w).moves && final(w).detached == old(w).detached
            &&& !no_delete_branches ==> final(w).moves@.len() == old(w).moves@.len() + 1 && final(w).moves@.drop_last() == old(w).moves@
            &&& !no_delete_branches ==> forall|o: NonZeroOid| #[trigger] final(w).moves@.last().dom().contains(o) <==> to_hide(revsets@, recursive).contains(o)
            &&& !no_delete_branches ==> forall|o: NonZeroOid| #[trigger] final(w).moves@.last().dom().contains(o) ==> final(w).moves@.last()[o] is Zero
            &&& !no_delete_branches && the_repo().head() is Some && to_hide(revsets@, recursive).contains(the_repo().head()->Some_0) ==> final(w).detached@ > old(w).detached@
        },
        r is Ok && r->Ok_0 is Err ==> *final(w) == *old(w),
//@closures 3
//@closure 0
    -> (o: EyreResult<Commit>) ensures o is Ok ==> o->Ok_0.oid() == $0
//@closure 1
    -> (e: Event) ensures hid(e, $0.oid())
//@closure 2
    -> (e: (NonZeroOid, MaybeZeroOid)) ensures e.0 == $0.oid(), e.1 is Zero
//@after_let commits#2
    let ghost sorted = commits@;
//@after_let cursor
    let ghost w0 = *w;
    let ghost n = old(w).log@.len() as int;
    proof {
        assert(w.log@.take(n) =~= old(w).log@);
        lemma_logged(old(w).log@, w.log@, commits@, sorted, to_hide(revsets@, recursive), true);
    }
//@after_let abandoned_branches
    proof {
        let m = abandoned_branches@;
        assert forall|o: NonZeroOid| #[trigger] m.dom().contains(o) <==> has_oid(commits@, o) by {
            if has_oid(commits@, o) {
                let i = choose|i: int| 0 <= i < commits@.len() && (#[trigger] commits@[i]).oid() == o;
                assert(vx_refs(commits@)[i].oid() == o);
            }
        }
        assert(w.moves@.push(m).drop_last() =~= w.moves@);
    }
//@loop 0 for commit in commits . iter ()
    invariant 0 <= vx_i0 <= vx_it0@.len(), *w == w0
    decreases vx_it0@.len() - vx_i0
//@end
pub open spec fn kept_all(k0: Set<NonZeroOid>, k1: Set<NonZeroOid>, cs: Seq<Commit>, n: int) -> bool {
    forall|o: NonZeroOid| #[trigger] k1.contains(o) <==> k0.contains(o) || has_oid(cs.take(n), o)
}
pub proof fn lemma_take(cs: Seq<Commit>, n: int)
    requires 0 <= n < cs.len()
    ensures forall|o: NonZeroOid| #[trigger] has_oid(cs.take(n + 1), o) <==> has_oid(cs.take(n), o) || o == cs[n].oid()
{
    assert forall|o: NonZeroOid| #[trigger] has_oid(cs.take(n + 1), o) <==> has_oid(cs.take(n), o) || o == cs[n].oid() by {
        if has_oid(cs.take(n + 1), o) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] cs.take(n + 1)[i]).oid() == o; if i < n { assert(cs.take(n)[i].oid() == o); } }
        if has_oid(cs.take(n), o) { let i = choose|i: int| 0 <= i < n && (#[trigger] cs.take(n)[i]).oid() == o; assert(cs.take(n + 1)[i].oid() == o); }
        assert(cs.take(n + 1)[n].oid() == cs[n].oid());
    }
}
//@fn git-branchless/src/commands/hide.rs::unhide
//@sig
pub fn unhide(effects: &Effects, revsets: Vec<Revset>, resolve_revset_options: &ResolveRevsetOptions, recursive: bool, w: &mut World) -> (r: EyreResult<Result<(), ExitCode>>)
//@contract
    ensures
        final(w).moves == old(w).moves && final(w).detached == old(w).detached,
        r is Ok && r->Ok_0 is Ok ==> {
            &&& logged_once(old(w).log@, final(w).log@, to_unhide(revsets@, recursive), false)
            // what is visible again is kept from collection again
            &&& forall|o: NonZeroOid| #[trigger] final(w).kept@.contains(o) <==> old(w).kept@.contains(o) || to_unhide(revsets@, recursive).contains(o)
        },
        r is Ok && r->Ok_0 is Err ==> *final(w) == *old(w),
//@closures 2
//@closure 0
    -> (o: EyreResult<Commit>) ensures o is Ok ==> o->Ok_0.oid() == $0
//@closure 1
    -> (e: Event) ensures unhid(e, $0.oid())
//@after_let commits#2
    let ghost sorted = commits@;
//@after_let commits#3
    proof { assert(commits@.take(0) =~= Seq::empty()); }
//@loop 0 for commit in commits . iter ()
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == vx_refs(commits@),
        w.log == old(w).log, w.moves == old(w).moves, w.detached == old(w).detached, kept_all(old(w).kept@, w.kept@, commits@, vx_i0 as int),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof { lemma_take(commits@, vx_i0 - 1); assert(vx_it0@[vx_i0 - 1] == commit); }
//@after_loop 0
    proof { assert(commits@.take(commits@.len() as int) =~= commits@); }
//@after_let cursor
    let ghost w0 = *w;
    proof {
        assert(w.log@.take(old(w).log@.len() as int) =~= old(w).log@);
        lemma_logged(old(w).log@, w.log@, commits@, sorted, to_unhide(revsets@, recursive), false);
    }
//@loop 1 for commit in commits
    invariant 0 <= vx_i1 <= vx_it1@.len(), *w == w0
    decreases vx_it1@.len() - vx_i1
//@end
} // verus!
