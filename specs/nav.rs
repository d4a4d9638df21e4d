// C18: where next and prev go.

//@rule get_next_interactive(repo) => vx_interactive(repo)
//@rule prompt_select_commit(__H, __S, __C, __D) => vx_prompt(__C)
//@rule (0..).zip(__X) => __X.enumerate()
//@drop_let effects.get_glyphs()
//@drop_let format!(__A, __B, __C)
verus! {
pub struct Pluralize { pub determiner: Option<u64>, pub amount: usize, pub unit: (&'static str, &'static str) }
#[verifier::external_body]
pub struct Commit { x: u64 }
impl Commit {
    pub uninterp spec fn oid(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.oid() { unimplemented!() }
}
impl Repo { pub uninterp spec fn asks(&self) -> bool; }
#[verifier::external_body]
pub fn vx_interactive(r: &Repo) -> (b: EyreResult<bool>) ensures b is Ok ==> b->Ok_0 == r.asks() { unimplemented!() }
pub open spec fn oids(v: Seq<Commit>) -> Seq<NonZeroOid> { v.map_values(|c: Commit| c.oid()) }
/// The user picks one of those offered (assumed).
#[verifier::external_body]
pub fn vx_prompt(v: Vec<Commit>) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok && r->Ok_0 is Some ==> oids(v@).contains(r->Ok_0->Some_0) { unimplemented!() }
/// The commits of a set, oldest first (assumed: sorting).
pub uninterp spec fn by_age(r: &Repo, d: &Dag, s: S) -> Seq<NonZeroOid>;
#[verifier::external_body]
pub fn sorted_commit_set(repo: &Repo, dag: &Dag, s: &CommitSet) -> (r: EyreResult<Vec<Commit>>)
    ensures r is Ok ==> oids(r->Ok_0@) == by_age(repo, dag, s@) { unimplemented!() }
//@item git-branchless-navigation/src/lib.rs::Command Clone,Copy
//@item git-branchless-navigation/src/lib.rs::Distance Clone,Copy
//@item git-branchless-navigation/src/lib.rs::Towards Clone,Copy
#[derive(Clone, Copy)]
pub struct Way { pub next: bool, pub branches: bool, pub all: bool, pub towards: Option<Towards> }
pub open spec fn way(r: &Repo, c: Command, d: Distance, t: Option<Towards>) -> Way {
    Way {
        next: c is Next,
        branches: match d { Distance::NumCommits { amount, move_by_branches } => move_by_branches, Distance::AllTheWay { move_by_branches } => move_by_branches },
        all: d is AllTheWay,
        towards: if t is None && r.asks() { Some(Towards::Interactive) } else { t },
    }
}
/// Visible children, or parents.
pub open spec fn near(d: &Dag, w: Way, o: NonZeroOid, x: NonZeroOid) -> bool {
    if w.next { d.inner.parent(o, x) && d.is_visible(x) } else { d.inner.parent(x, o) }
}
pub open spec fn beyond(d: &Dag, w: Way, a: NonZeroOid, b: NonZeroOid) -> bool { if w.next { d.inner.anc(a, b) } else { d.inner.anc(b, a) } }
pub open spec fn nears(d: &Dag, w: Way, o: NonZeroOid, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> near(d, w, o, x) }
pub open spec fn nearests(d: &Dag, w: Way, o: NonZeroOid, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> nearest(d, w, o, x) }
/// A branch in that direction.
pub open spec fn tip(d: &Dag, w: Way, o: NonZeroOid, x: NonZeroOid) -> bool {
    d.branch_commits@.contains(x) && exists|c: NonZeroOid| #[trigger] near(d, w, o, c) && beyond(d, w, c, x)
}
/// ... with no other before it
pub open spec fn nearest(d: &Dag, w: Way, o: NonZeroOid, x: NonZeroOid) -> bool {
    tip(d, w, o, x) && forall|y: NonZeroOid| #[trigger] tip(d, w, o, y) && y != x ==> !beyond(d, w, y, x)
}
/// prev --all stays above the main branch.
pub open spec fn cand(d: &Dag, w: Way, o: NonZeroOid, x: NonZeroOid) -> bool {
    (if w.branches { nearest(d, w, o, x) } else { near(d, w, o, x) }) && (!w.next && w.all ==> !d.is_public(x))
}
pub open spec fn cands(d: &Dag, w: Way, o: NonZeroOid, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> cand(d, w, o, x) }
pub open spec fn choices(r: &Repo, d: &Dag, w: Way, o: NonZeroOid, v: Seq<NonZeroOid>) -> bool { exists|s: S| #[trigger] cands(d, w, o, s) && v == by_age(r, d, s) }
pub open spec fn pick(v: Seq<NonZeroOid>, t: Option<Towards>, x: NonZeroOid) -> bool {
    if v.len() == 1 { x == v[0] } else { v.len() >= 2 && match t { Some(Towards::Newest) => x == v.last(), Some(Towards::Oldest) => x == v[0], Some(Towards::Interactive) => v.contains(x), None => false } }
}
pub open spec fn step(r: &Repo, d: &Dag, w: Way, a: NonZeroOid, b: NonZeroOid) -> bool { exists|v: Seq<NonZeroOid>| #[trigger] choices(r, d, w, a, v) && pick(v, w.towards, b) }
pub open spec fn stuck(r: &Repo, d: &Dag, w: Way, a: NonZeroOid) -> bool { exists|v: Seq<NonZeroOid>| #[trigger] choices(r, d, w, a, v) && v.len() == 0 }
pub open spec fn unclear(r: &Repo, d: &Dag, w: Way, a: NonZeroOid) -> bool {
    exists|v: Seq<NonZeroOid>| #[trigger] choices(r, d, w, a, v) && v.len() >= 2 && (w.towards is None || w.towards == Some(Towards::Interactive))
}
pub open spec fn trip(r: &Repo, d: &Dag, w: Way, p: Seq<NonZeroOid>) -> bool { p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> step(r, d, w, #[trigger] p[i], p[i + 1]) }
/// As far as asked, or as far as there is anything to go to.
pub open spec fn arrived(r: &Repo, d: &Dag, w: Way, dist: Distance, p: Seq<NonZeroOid>) -> bool {
    match dist {
        Distance::NumCommits { amount, move_by_branches } => p.len() - 1 == amount || (1 <= p.len() - 1 < amount && stuck(r, d, w, p.last())),
        Distance::AllTheWay { move_by_branches } => stuck(r, d, w, p.last()),
    }
}
pub open spec fn nowhere(r: &Repo, d: &Dag, w: Way, p: Seq<NonZeroOid>) -> bool { unclear(r, d, w, p.last()) || (p.len() == 1 && stuck(r, d, w, p.last())) }
/// There are fewer than 2^64 commits (assumed).
#[verifier::external_body]
pub proof fn axiom_steps(r: &Repo, d: &Dag, w: Way, p: Seq<NonZeroOid>) requires trip(r, d, w, p) ensures p.len() < usize::MAX {}
pub proof fn lemma_children(d: &Dag, w: Way, o: NonZeroOid, kids: S, desc: S, tips: S, desc2: S, r: S)
    requires w.next, forall|x: NonZeroOid| #[trigger] kids.contains(x) <==> near(d, w, o, x),
        forall|x: NonZeroOid| #[trigger] desc.contains(x) <==> d.inner.down(kids, x),
        tips == d.branch_commits@.intersect(desc),
        forall|x: NonZeroOid| #[trigger] desc2.contains(x) <==> d.inner.down(tips, x),
        d.inner.are_roots(desc2, r),
    ensures forall|x: NonZeroOid| #[trigger] r.contains(x) <==> nearest(d, w, o, x)
{
    axiom_anc(&d.inner);
    axiom_parent(&d.inner);
    assert forall|x: NonZeroOid| #[trigger] tips.contains(x) <==> tip(d, w, o, x) by {
        if tips.contains(x) { assert(desc.contains(x)); let c = choose|y: NonZeroOid| #![trigger kids.contains(y)] kids.contains(y) && d.inner.anc(y, x); assert(near(d, w, o, c)); }
        if tip(d, w, o, x) { let c = choose|c: NonZeroOid| #[trigger] near(d, w, o, c) && beyond(d, w, c, x); assert(kids.contains(c)); assert(desc.contains(x)); }
    }
    assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> nearest(d, w, o, x) by {
        if r.contains(x) {
            assert(desc2.contains(x));
            let b = choose|y: NonZeroOid| #![trigger tips.contains(y)] tips.contains(y) && d.inner.anc(y, x);
            assert forall|y: NonZeroOid| #[trigger] tips.contains(y) && d.inner.anc(y, x) implies y == x by {
                if y != x { let p = choose|p: NonZeroOid| #[trigger] d.inner.parent(p, x) && d.inner.anc(y, p); assert(desc2.contains(p)); }
            }
            assert(b == x);
            assert forall|y: NonZeroOid| #[trigger] tip(d, w, o, y) && y != x implies !beyond(d, w, y, x) by { assert(tips.contains(y)); }
        }
        if nearest(d, w, o, x) {
            assert(tips.contains(x)); assert(d.inner.anc(x, x)); assert(desc2.contains(x));
            assert forall|y: NonZeroOid| #[trigger] desc2.contains(y) implies !d.inner.parent(y, x) by {
                if d.inner.parent(y, x) {
                    let b = choose|b: NonZeroOid| #![trigger tips.contains(b)] tips.contains(b) && d.inner.anc(b, y);
                    assert(d.inner.anc(b, x)); assert(tip(d, w, o, b));
                    if b == x { assert(d.inner.anc(x, y)); }
                }
            }
        }
    }
}
pub proof fn lemma_parents(d: &Dag, w: Way, o: NonZeroOid, up: S, anc: S, tips: S, r: S)
    requires !w.next, forall|x: NonZeroOid| #[trigger] up.contains(x) <==> near(d, w, o, x),
        forall|x: NonZeroOid| #[trigger] anc.contains(x) <==> d.inner.up(up, x),
        tips == d.branch_commits@.intersect(anc),
        forall|x: NonZeroOid| #[trigger] r.contains(x) <==> tips.contains(x) && forall|y: NonZeroOid| #[trigger] tips.contains(y) && y != x ==> !d.inner.anc(x, y),
    ensures forall|x: NonZeroOid| #[trigger] r.contains(x) <==> nearest(d, w, o, x)
{
    assert forall|x: NonZeroOid| #[trigger] tips.contains(x) <==> tip(d, w, o, x) by {
        if tips.contains(x) { assert(anc.contains(x)); let c = choose|y: NonZeroOid| #![trigger up.contains(y)] up.contains(y) && d.inner.anc(x, y); assert(near(d, w, o, c)); }
        if tip(d, w, o, x) { let c = choose|c: NonZeroOid| #[trigger] near(d, w, o, c) && beyond(d, w, c, x); assert(up.contains(c)); assert(anc.contains(x)); }
    }
    assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> nearest(d, w, o, x) by {
        if r.contains(x) { assert forall|y: NonZeroOid| #[trigger] tip(d, w, o, y) && y != x implies !beyond(d, w, y, x) by { assert(tips.contains(y)); } }
        if nearest(d, w, o, x) { assert forall|y: NonZeroOid| #[trigger] tips.contains(y) && y != x implies !d.inner.anc(x, y) by { assert(tip(d, w, o, y)); } }
    }
}
//@fn git-branchless-navigation/src/lib.rs::advance
//@attrs #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig
fn advance(effects: &Effects, repo: &Repo, dag: &Dag, current_oid: NonZeroOid, command: Command, distance: Distance, towards: Option<Towards>) -> (r: EyreResult<Option<NonZeroOid>>)
//@contract
    requires dag.wf()
    ensures r is Ok ==> exists|p: Seq<NonZeroOid>| #[trigger] trip(repo, dag, way(repo, command, distance, towards), p) && p[0] == current_oid && match r->Ok_0 {
        Some(o) => o == p.last() && arrived(repo, dag, way(repo, command, distance, towards), distance, p),
        None => nowhere(repo, dag, way(repo, command, distance, towards), p),
    }
//@prologue
    let ghost w = way(repo, command, distance, towards);
    let ghost mut path = seq![current_oid];
    proof { assert(trip(repo, dag, w, path)); }
//@loop 0 loop
    invariant dag.wf(), dag.public_ok(public_commits@), path.len() == i + 1, path.last() == current_oid, path[0] == start, trip(repo, dag, w, path),
        w.next == (command is Next), w.branches == way(repo, command, distance, None).branches, w.all == (distance is AllTheWay), w.towards == towards,
        distance matches Distance::NumCommits { amount, move_by_branches } ==> i <= amount,
    ensures path.last() == current_oid, path[0] == start, trip(repo, dag, w, path), arrived(repo, dag, w, distance, path),
//@after_let current_oid
    let ghost start = current_oid;
//@closure 0
    -> (s: EyreResult<CommitSet>) requires dag.wf() ensures s is Ok ==> nears(dag, w, current_oid, s->Ok_0@)
//@closure 1
    -> (s: EyreResult<CommitSet>) requires dag.wf() ensures s is Ok ==> nearests(dag, w, current_oid, s->Ok_0@)
//@closure 2
    -> (s: EyreResult<CommitSet>) requires dag.wf() ensures s is Ok ==> nears(dag, w, current_oid, s->Ok_0@)
//@closure 3
    -> (s: EyreResult<CommitSet>) requires dag.wf() ensures s is Ok ==> nearests(dag, w, current_oid, s->Ok_0@)
//@after_let result#0
    proof { assert(Set::<NonZeroOid>::empty().insert(current_oid).contains(current_oid)); }
//@after_let result#2
    proof { assert(Set::<NonZeroOid>::empty().insert(current_oid).contains(current_oid)); }
//@after_let descendant_commits
    let ghost desc = descendant_commits@;
//@after_let descendant_branches#0
    let ghost tips = descendant_branches@;
//@after_let descendants
    let ghost desc2 = descendants@;
//@after_let nearest_descendant_branches
    proof { let kids = choose|s: S| #[trigger] nears(dag, w, current_oid, s) && forall|x: NonZeroOid| #[trigger] desc.contains(x) <==> dag.inner.down(s, x); lemma_children(dag, w, current_oid, kids, desc, tips, desc2, nearest_descendant_branches@); }
//@after_let ancestor_commits
    let ghost up = ancestor_commits@;
//@after_let ancestor_branches#0
    let ghost tips = ancestor_branches@;
//@after_let nearest_ancestor_branches
    proof { let near = choose|s: S| #[trigger] nears(dag, w, current_oid, s) && forall|x: NonZeroOid| #[trigger] up.contains(x) <==> dag.inner.up(s, x); lemma_parents(dag, w, current_oid, near, up, tips, nearest_ancestor_branches@); }
//@after_let children
    proof { assert(cands(dag, w, current_oid, children@)); }
//@after_let parents#2
    proof { assert(cands(dag, w, current_oid, parents@)); }
//@after_let candidate_commits
    let ghost v = oids(candidate_commits@);
    let ghost here = current_oid;
    proof { axiom_steps(repo, dag, w, path); assert(choices(repo, dag, w, current_oid, v)); assert(v.len() == candidate_commits@.len()); assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] == candidate_commits@[k].oid() by {} }
//@body_end 0
    proof {
        let old_path = path;
        path = path.push(current_oid);
        assert(step(repo, dag, w, here, current_oid));
        assert forall|k: int| 0 <= k < path.len() - 1 implies step(repo, dag, w, #[trigger] path[k], path[k + 1]) by { if k < old_path.len() - 1 { assert(old_path[k] == path[k] && old_path[k + 1] == path[k + 1]); } }
    }
//@loop 1 for (j , child) in (0 ..) . zip (candidate_commits . iter ())
    invariant 0 <= vx_i1 <= vx_it1@.len(), vx_it1@.len() == candidate_commits@.len(), forall|k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).0 == k
    decreases vx_it1@.len() - vx_i1
//@end
} // verus!
