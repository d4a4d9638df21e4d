// C11: what a rewrite is allowed to touch, and the shape it will produce.

//@rule __A.map(NonZeroOid::try_from).try_collect() => vx_same(__A)
//@rule effects.start_operation(__A) => ()
//@drop_let effects.start_operation(__A)
//@drop_stmt Self::check_all_commits_included_in_rebase_plan(__A, __B)
//@rule &mut Vec::new() => &mut vx_new_vec()
//@rule __E.get_parent_count() => __E.parent_count()
//@rule path.contains(__A) => vx_vec_contains(path, __A)
//@rule range_heads.contains(__A) => range_heads.vx_contains_ref(__A)
verus! {
#[verifier::external_body]
pub fn vx_vec_contains<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
impl<'a, T> HashSet<&'a T> {
    #[verifier::external_body]
    pub fn vx_contains_ref(&self, k: &T) -> (r: bool) { unimplemented!() }
}
pub fn vx_new_vec<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }
#[verifier::external_body]
pub fn vx_same(i: It<NonZeroOid>) -> (r: EyreResult<Vec<NonZeroOid>>) ensures r is Ok ==> r->Ok_0@ == i@ { unimplemented!() }
/// A commit graph has no cycles (its edges are hashes).
pub uninterp spec fn depth(d: &Inner, o: NonZeroOid) -> nat;
#[verifier::external_body]
pub proof fn axiom_depth(d: &Inner)
    ensures forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.parent(a, b) ==> depth(d, a) < depth(d, b) {}

//@item git-branchless-lib/src/core/rewrite/plan.rs::BuildRebasePlanOptions Clone,Copy
//@item git-branchless-lib/src/core/rewrite/plan.rs::BuildRebasePlanError
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanPermissions
//@item git-branchless-lib/src/core/rewrite/plan.rs::Constraint
//@item git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph

impl RebasePlanPermissions {
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanPermissions::verify_rewrite_set
//@contract
    requires dag.wf()
    ensures r is Ok ==> match r->Ok_0 {
        // allowed: the commits asked for and their descendants, none of them public unless forced
        Ok(p) => (forall|x: NonZeroOid| #[trigger] p.allowed_commits@.contains(x) <==> dag.inner.down(commits@, x)) && p.build_options == build_options
            && (!build_options.force_rewrite_public_commits ==> forall|x: NonZeroOid| #[trigger] p.allowed_commits@.contains(x) ==> !dag.is_public(x)),
        // refused: because some of them are public
        Err(e) => !build_options.force_rewrite_public_commits && exists|x: NonZeroOid| #[trigger] dag.is_public(x) && dag.inner.down(commits@, x),
    }
//@after_let public_commits_to_move
    proof { assert forall|x: NonZeroOid| #[trigger] commits@.contains(x) && dag.is_public(x) implies public_commits_to_move@.contains(x) by {} }
//@epilogue
    proof {
        if let Ok(Err(BuildRebasePlanError::MovePublicCommits { ref public_commits_to_move })) = vx_ret {
            let x = public_commits_to_move@.choose();
            assert(public_commits_to_move@.contains(x));
            assert(dag.is_public(x));
        }
    }
//@end
}

pub type M = Map<NonZeroOid, HashSet<NonZeroOid>>;
pub open spec fn edge(m: M, p: NonZeroOid, x: NonZeroOid) -> bool { rmem(m, p, x) }
pub open spec fn moves(m: M, x: NonZeroOid) -> bool { exists|p: NonZeroOid| #[trigger] rmem(m, p, x) }
/// A path in the graph of constraints.
pub open spec fn cwalk(m: M, w: Seq<NonZeroOid>) -> bool { forall|i: int| 0 <= i < w.len() - 1 ==> rmem(m, #[trigger] w[i], w[i + 1]) }
pub open spec fn acyclic(m: M) -> bool { forall|w: Seq<NonZeroOid>| #[trigger] cwalk(m, w) && w.len() > 1 ==> w[0] != w.last() }
/// No path from `c` ever comes back to itself or to `path`.
pub open spec fn safe(m: M, path: Seq<NonZeroOid>, c: NonZeroOid) -> bool {
    forall|w: Seq<NonZeroOid>| #![trigger cwalk(m, w)] cwalk(m, w) && w.len() > 0 && w[0] == c ==> (path + w).no_duplicates()
}
pub proof fn lemma_safe_step(m: M, path: Seq<NonZeroOid>, c: NonZeroOid)
    requires path.no_duplicates(), !path.contains(c), forall|x: NonZeroOid| #[trigger] rmem(m, c, x) ==> safe(m, path.push(c), x)
    ensures safe(m, path, c)
{
    assert forall|w: Seq<NonZeroOid>| #![trigger cwalk(m, w)] cwalk(m, w) && w.len() > 0 && w[0] == c implies (path + w).no_duplicates() by {
        if w.len() == 1 {
            assert(path + w =~= path.push(c));
            assert forall|i: int, j: int| 0 <= i < path.len() + 1 && 0 <= j < path.len() + 1 && i != j implies path.push(c)[i] != path.push(c)[j] by {
                if i == path.len() { assert(path.contains(path[j])); } else if j == path.len() { assert(path.contains(path[i])); }
            }
        } else {
            let t = w.subrange(1, w.len() as int);
            assert(rmem(m, w[0], w[0int + 1]));
            assert(cwalk(m, t)) by { assert forall|i: int| 0 <= i < t.len() - 1 implies rmem(m, #[trigger] t[i], t[i + 1]) by { assert(rmem(m, w[i + 1], w[i + 1 + 1])); } }
            assert(safe(m, path.push(c), t[0]));
            assert(path.push(c) + t =~= path + w);
        }
    }
}
pub proof fn lemma_acyclic(m: M)
    requires forall|k: NonZeroOid| #[trigger] m.dom().contains(k) ==> safe(m, Seq::empty(), k)
    ensures acyclic(m)
{
    assert forall|w: Seq<NonZeroOid>| #[trigger] cwalk(m, w) && w.len() > 1 implies w[0] != w.last() by {
        assert(rmem(m, w[0], w[0int + 1]));
        assert(safe(m, Seq::empty(), w[0]));
        assert(Seq::<NonZeroOid>::empty() + w =~= w);
        assert(w[0] != w[w.len() - 1]);
    }
}
pub proof fn lemma_fits(v: Seq<NonZeroOid>, s: Set<NonZeroOid>)
    requires v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i])
    ensures v.len() <= s.len()
{
    v.unique_seq_to_set();
    assert(v.to_set().subset_of(s)) by { assert forall|x: NonZeroOid| v.to_set().contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(s.contains(v[i])); } }
    vstd::set_lib::lemma_len_subset(v.to_set(), s);
}
pub proof fn lemma_push_fits(v: Seq<NonZeroOid>, c: NonZeroOid, s: Set<NonZeroOid>)
    requires v.no_duplicates(), forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i]), s.contains(c), !v.contains(c)
    ensures v.push(c).no_duplicates(), v.len() + 1 <= s.len(), forall|i: int| 0 <= i < v.push(c).len() ==> s.contains(#[trigger] v.push(c)[i])
{
    assert forall|i: int, j: int| 0 <= i < v.len() + 1 && 0 <= j < v.len() + 1 && i != j implies v.push(c)[i] != v.push(c)[j] by {
        if i == v.len() { assert(v.contains(v[j])); } else if j == v.len() { assert(v.contains(v[i])); }
    }
    lemma_fits(v.push(c), s);
}
/// The last word on the parents of a commit.
pub open spec fn concerns(c: Constraint, x: NonZeroOid) -> bool {
    match c { Constraint::MoveSubtree { child_oid, .. } => child_oid == x, Constraint::FixUpCommit { fixup_commit_oid, .. } => fixup_commit_oid == x, _ => false }
}
pub open spec fn asked(c: Constraint, p: NonZeroOid, x: NonZeroOid) -> bool { match c { Constraint::MoveSubtree { parent_oids, child_oid } => child_oid == x && parent_oids@.contains(p), _ => false } }
/// The edges after the explicit constraints: for each commit those of the last constraint about it.
pub open spec fn settled(m: M, cs: Seq<Constraint>, p: NonZeroOid, x: NonZeroOid) -> bool
    decreases cs.len()
{
    if cs.len() == 0 { rmem(m, p, x) } else if concerns(cs.last(), x) { asked(cs.last(), p, x) } else { settled(m, cs.drop_last(), p, x) }
}
pub open spec fn settled_moves(m: M, cs: Seq<Constraint>, x: NonZeroOid) -> bool { exists|p: NonZeroOid| #[trigger] settled(m, cs, p, x) }
/// The commit whose children are left behind, and the one under which they go.
pub open spec fn left(c: Constraint) -> Option<(NonZeroOid, NonZeroOid)> {
    match c {
        Constraint::MoveChildren { parent_of_oid, children_of_oid } => Some((parent_of_oid, children_of_oid)),
        Constraint::FixUpCommit { fixup_commit_oid, .. } => Some((fixup_commit_oid, fixup_commit_oid)),
        _ => None,
    }
}
/// `x` is a visible child left behind by constraint `c`.
pub open spec fn orphan(d: &Dag, c: Constraint, x: NonZeroOid) -> bool { left(c) is Some && d.inner.parent(left(c)->Some_0.1, x) && d.is_visible(x) }
pub open spec fn below(d: &Dag, p: NonZeroOid, c: NonZeroOid) -> bool { depth(&d.inner, p) < depth(&d.inner, c) && d.inner.anc(p, c) }
#[verifier::external_body]
pub proof fn axiom_parent_anc(d: &Inner) ensures forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.parent(a, b) ==> d.anc(a, b) {}
/// The edges after all constraints (only the first `n` of the second kind).
pub open spec fn reattached(d: &Dag, m0: M, cs: Seq<Constraint>, n: int, m: M) -> bool {
    &&& forall|p: NonZeroOid, x: NonZeroOid| #![trigger rmem(m, p, x)] #![trigger settled(m0, cs, p, x)] settled(m0, cs, p, x) ==> rmem(m, p, x)
    &&& forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(m, p, x) && !settled(m0, cs, p, x) ==>
            !settled_moves(m0, cs, x) && exists|k: int| 0 <= k < n && orphan(d, #[trigger] cs[k], x) && below(d, p, left(cs[k])->Some_0.0)
    &&& forall|k: int, x: NonZeroOid| 0 <= k < n && #[trigger] orphan(d, cs[k], x) ==> moves(m, x)
}
pub open spec fn attaching(d: &Dag, m0: M, cs: Seq<Constraint>, n: int, m1: M, m: M) -> bool {
    &&& reattached(d, m0, cs, n, m1)
    &&& forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(m1, p, x) ==> rmem(m, p, x)
    &&& forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(m, p, x) && !rmem(m1, p, x) ==> !moves(m1, x) && orphan(d, cs[n], x) && below(d, p, left(cs[n])->Some_0.0)
}
pub proof fn lemma_attach(d: &Dag, m0: M, cs: Seq<Constraint>, n: int, m1: M, m2: M, m: M, p: NonZeroOid, x: NonZeroOid)
    requires attaching(d, m0, cs, n, m1, m2), 0 <= n < cs.len(), orphan(d, cs[n], x), !moves(m1, x), below(d, p, left(cs[n])->Some_0.0),
        forall|j: NonZeroOid, y: NonZeroOid| #[trigger] rmem(m, j, y) <==> (rmem(m2, j, y) || (j == p && y == x)),
    ensures attaching(d, m0, cs, n, m1, m)
{}
pub proof fn lemma_attached(d: &Dag, m0: M, cs: Seq<Constraint>, n: int, m1: M, m: M)
    requires attaching(d, m0, cs, n, m1, m), 0 <= n < cs.len(), forall|x: NonZeroOid| #[trigger] orphan(d, cs[n], x) ==> moves(m, x)
    ensures reattached(d, m0, cs, n + 1, m)
{
    assert forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(m, p, x) && !settled(m0, cs, p, x) implies
        !settled_moves(m0, cs, x) && exists|k: int| 0 <= k < n + 1 && orphan(d, #[trigger] cs[k], x) && below(d, p, left(cs[k])->Some_0.0) by
    {
        if rmem(m1, p, x) {
        } else {
            if settled_moves(m0, cs, x) { let q = choose|q: NonZeroOid| #[trigger] settled(m0, cs, q, x); assert(rmem(m1, q, x)); assert(moves(m1, x)); }
            assert(orphan(d, cs[n], x));
        }
    }
    assert forall|k: int, x: NonZeroOid| 0 <= k < n + 1 && #[trigger] orphan(d, cs[k], x) implies moves(m, x) by {
        if k < n { assert(moves(m1, x)); let p = choose|p: NonZeroOid| #[trigger] rmem(m1, p, x); assert(rmem(m, p, x)); }
    }
}
pub open spec fn fixed(f0: M, cs: Seq<Constraint>, p: NonZeroOid, x: NonZeroOid) -> bool
    decreases cs.len()
{
    if cs.len() == 0 { rmem(f0, p, x) } else { fixed(f0, cs.drop_last(), p, x) || cs.last() == (Constraint::FixUpCommit { commit_to_fixup_oid: p, fixup_commit_oid: x }) }
}

/// The commit stays on its parents.
pub open spec fn follows(d: &Dag, c: Constraint, x: NonZeroOid) -> bool {
    match c { Constraint::MoveSubtree { parent_oids, child_oid } => child_oid == x && forall|p: NonZeroOid| #[trigger] parent_oids@.contains(p) <==> d.inner.parent(p, x), _ => false }
}
pub open spec fn followed(d: &Dag, m: M, cs: Seq<Constraint>, v: Seq<NonZeroOid>) -> bool {
    forall|p: NonZeroOid, x: NonZeroOid| #[trigger] settled(m, cs, p, x) <==> if v.contains(x) { d.inner.parent(p, x) } else { rmem(m, p, x) }
}
pub proof fn lemma_follow(d: &Dag, m: M, f: M, cs: Seq<Constraint>, v: Seq<NonZeroOid>)
    requires cs.len() <= v.len(), forall|i: int| 0 <= i < cs.len() ==> follows(d, #[trigger] cs[i], v[i])
    ensures followed(d, m, cs, v.take(cs.len() as int)),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] fixed(f, cs, p, x) <==> rmem(f, p, x),
        forall|k: int, x: NonZeroOid| 0 <= k < cs.len() ==> !#[trigger] orphan(d, cs[k], x),
    decreases cs.len()
{
    if cs.len() > 0 {
        let n = cs.len() - 1;
        lemma_follow(d, m, f, cs.drop_last(), v);
        assert(follows(d, cs[n], v[n]));
        assert(v.take(n + 1) =~= v.take(n).push(v[n]));
        assert forall|x: NonZeroOid| #[trigger] v.take(n + 1).contains(x) <==> v.take(n).contains(x) || x == v[n] by {
            if v.take(n).contains(x) { let k = choose|k: int| 0 <= k < n && v.take(n)[k] == x; assert(v.take(n + 1)[k] == x); }
            assert(v.take(n + 1)[n] == v[n]);
        }
        assert(cs.last() == cs[n]);
        assert(followed(d, m, cs.drop_last(), v.take(n)));
        assert forall|p: NonZeroOid, x: NonZeroOid| #[trigger] settled(m, cs, p, x) <==> if v.take(n + 1).contains(x) { d.inner.parent(p, x) } else { rmem(m, p, x) } by {
            assert(settled(m, cs.drop_last(), p, x) <==> if v.take(n).contains(x) { d.inner.parent(p, x) } else { rmem(m, p, x) });
        }
        assert forall|p: NonZeroOid, x: NonZeroOid| #[trigger] fixed(f, cs, p, x) <==> rmem(f, p, x) by { assert(fixed(f, cs.drop_last(), p, x) <==> rmem(f, p, x)); }
        assert forall|k: int, x: NonZeroOid| 0 <= k < cs.len() implies !#[trigger] orphan(d, cs[k], x) by { assert(follows(d, cs[k], v[k])); }
    } else {
        assert(cs =~= Seq::empty());
    }
}
impl<'a> ConstraintGraph<'a> {
    pub open spec fn ok(&self) -> bool { self.dag.wf() }
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::new
//@contract
    ensures r.inner@ == Map::<NonZeroOid, HashSet<NonZeroOid>>::empty(), r.fixups@ == Map::<NonZeroOid, HashSet<NonZeroOid>>::empty(), r.dag == dag, r.permissions == permissions
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::parents
//@contract
    ensures forall|k: NonZeroOid| #[trigger] r@.contains(k) <==> self.inner@.dom().contains(k)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::commits_to_move
//@contract
    ensures forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> moves(self.inner@, x)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::commits_to_move_to
//@contract
    ensures self.inner@.dom().contains(*parent_oid) ==> r is Some && forall|x: NonZeroOid| #[trigger] r->Some_0@.contains(x) <==> rmem(self.inner@, *parent_oid, x),
        !self.inner@.dom().contains(*parent_oid) ==> r is None
//@closure 0
    -> (v: Vec<NonZeroOid>) ensures forall|x: NonZeroOid| #[trigger] v@.contains(x) <==> $0@.contains(x)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::commits_to_fixup
//@contract
    ensures forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> self.fixups@.dom().contains(x)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::fixup_commits
//@contract
    ensures forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> moves(self.fixups@, x)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::add_constraints
//@contract
    requires old(self).ok()
    ensures
        final(self).dag == old(self).dag, final(self).permissions == old(self).permissions,
        r is Ok ==> reattached(old(self).dag, old(self).inner@, constraints@, constraints@.len() as int, final(self).inner@),
        r is Ok ==> forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(final(self).fixups@, p, x) <==> fixed(old(self).fixups@, constraints@, p, x),
//@prologue
    let ghost cs = constraints@;
    let ghost m0 = self.inner@;
    let ghost f0 = self.fixups@;
    let ghost d = self.dag;
    let ghost perm = self.permissions;
    proof { axiom_depth(&d.inner); axiom_anc(&d.inner); axiom_parent_anc(&d.inner); }
//@loop 0 for constraint in constraints
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == vx_refs(cs), self.dag == d, self.permissions == perm, cs == constraints@,
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.inner@, p, x) <==> settled(m0, cs.take(vx_i0 as int), p, x),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.fixups@, p, x) <==> fixed(f0, cs.take(vx_i0 as int), p, x),
    decreases vx_it0@.len() - vx_i0
//@before_loop 0
    proof { assert(cs.take(0) =~= Seq::empty()); }
//@body_start 0
    let ghost m1 = self.inner@;
    let ghost n = vx_i0 - 1;
    proof { assert(cs.take(n + 1).drop_last() =~= cs.take(n)); assert(cs.take(n + 1).last() == cs[n]); assert(*constraint == cs[n]); }
//@loop 1 for parent_oid in parent_oids
    invariant 0 <= vx_i1 <= vx_it1@.len(), vx_it1@ == vx_refs(parent_oids@), self.dag == d, self.permissions == perm,
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.inner@, p, x) <==> (rmem(m1, p, x) && x != *child_oid) || (x == *child_oid && parent_oids@.take(vx_i1 as int).contains(p)),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.fixups@, p, x) <==> fixed(f0, cs.take(n), p, x),
    decreases vx_it1@.len() - vx_i1
//@body_start 1
    proof {
        let v = parent_oids@; let i = vx_i1 - 1;
        assert(v.take(i + 1) =~= v.take(i).push(v[i]));
        assert forall|p: NonZeroOid| v.take(i + 1).contains(p) <==> v.take(i).contains(p) || p == v[i] by {
            if v.take(i).contains(p) { let k = choose|k: int| 0 <= k < i && v.take(i)[k] == p; assert(v.take(i + 1)[k] == p); }
            assert(v.take(i + 1)[i] == v[i]);
        }
    }
//@after_loop 1
    proof { assert(parent_oids@.take(parent_oids@.len() as int) =~= parent_oids@); }
//@after_loop 0
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@closure 0
    -> (o: Option<&NonZeroOid>)
//@loop 2 for constraint in constraints
    invariant 0 <= vx_i2 <= vx_it2@.len(), vx_it2@ == vx_refs(cs), self.dag == d, self.permissions == perm, d.wf(), cs == constraints@,
        reattached(d, m0, cs, vx_i2 as int, self.inner@),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.fixups@, p, x) <==> fixed(f0, cs, p, x),
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> depth(&d.inner, a) < depth(&d.inner, b),
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> d.inner.anc(a, b),
        forall|a: NonZeroOid, b: NonZeroOid, c: NonZeroOid| #[trigger] d.inner.anc(a, b) && #[trigger] d.inner.anc(b, c) ==> d.inner.anc(a, c),
    decreases vx_it2@.len() - vx_i2
//@body_start 2
    let ghost m1 = self.inner@;
    let ghost n = vx_i2 - 1;
    proof { assert(*constraint == cs[n]); }
//@loop 3 while range_heads . contains (& parent_oid) && commits_to_move . contains (& parent_oid)
    invariant below(d, parent_oid, left(cs[n])->Some_0.0), self.dag == d,
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> depth(&d.inner, a) < depth(&d.inner, b),
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> d.inner.anc(a, b),
        forall|a: NonZeroOid, b: NonZeroOid, c: NonZeroOid| #[trigger] d.inner.anc(a, b) && #[trigger] d.inner.anc(b, c) ==> d.inner.anc(a, c),
    decreases depth(&d.inner, parent_oid)
//@after_let source_children#0
    proof {
        assert forall|x: NonZeroOid| #[trigger] source_children@.contains(x) <==> d.inner.parent(left(cs[n])->Some_0.1, x) && !moves(m1, x) by {
            assert(Set::<NonZeroOid>::empty().insert(left(cs[n])->Some_0.1).contains(left(cs[n])->Some_0.1));
            assert(commits_to_move@.contains(x) <==> moves(m1, x));
        }
    }
//@loop 4 for child_oid in self . dag . commit_set_to_vec (& source_children) ?
    invariant 0 <= vx_i4 <= vx_it4@.len(), self.dag == d, self.permissions == perm, 0 <= n < cs.len(), below(d, parent_oid, left(cs[n])->Some_0.0),
        forall|x: NonZeroOid| #[trigger] vx_it4@.contains(x) <==> orphan(d, cs[n], x) && !moves(m1, x),
        attaching(d, m0, cs, n, m1, self.inner@),
        forall|i: int| 0 <= i < vx_i4 ==> moves(self.inner@, #[trigger] vx_it4@[i]),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.fixups@, p, x) <==> fixed(f0, cs, p, x),
    decreases vx_it4@.len() - vx_i4
//@body_start 4
    let ghost m2 = self.inner@;
    proof { assert(vx_it4@[vx_i4 - 1] == child_oid); assert(vx_it4@.contains(child_oid)); }
//@body_end 4
    proof {
        lemma_attach(d, m0, cs, n, m1, m2, self.inner@, parent_oid, child_oid);
        assert(rmem(self.inner@, parent_oid, child_oid));
        assert forall|i: int| 0 <= i < vx_i4 implies moves(self.inner@, #[trigger] vx_it4@[i]) by {
            if i < vx_i4 - 1 { let p = choose|p: NonZeroOid| #[trigger] rmem(m2, p, vx_it4@[i]); assert(rmem(self.inner@, p, vx_it4@[i])); }
        }
    }
//@after_loop 4
    proof {
        assert forall|x: NonZeroOid| #[trigger] orphan(d, cs[n], x) implies moves(self.inner@, x) by {
            if moves(m1, x) { let p = choose|p: NonZeroOid| #[trigger] rmem(m1, p, x); assert(rmem(self.inner@, p, x)); } else { assert(vx_it4@.contains(x)); }
        }
        lemma_attached(d, m0, cs, n, m1, self.inner@);
    }
//@loop 5 while range_heads . contains (& parent_oid) && commits_to_move . contains (& parent_oid)
    invariant below(d, parent_oid, left(cs[n])->Some_0.0), self.dag == d,
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> depth(&d.inner, a) < depth(&d.inner, b),
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.inner.parent(a, b) ==> d.inner.anc(a, b),
        forall|a: NonZeroOid, b: NonZeroOid, c: NonZeroOid| #[trigger] d.inner.anc(a, b) && #[trigger] d.inner.anc(b, c) ==> d.inner.anc(a, c),
    decreases depth(&d.inner, parent_oid)
//@after_let source_children#2
    proof {
        assert forall|x: NonZeroOid| #[trigger] source_children@.contains(x) <==> d.inner.parent(left(cs[n])->Some_0.1, x) && !moves(m1, x) by {
            assert(Set::<NonZeroOid>::empty().insert(left(cs[n])->Some_0.1).contains(left(cs[n])->Some_0.1));
            assert(commits_to_move@.contains(x) <==> moves(m1, x));
        }
    }
//@loop 6 for child_oid in self . dag . commit_set_to_vec (& source_children) ?
    invariant 0 <= vx_i6 <= vx_it6@.len(), self.dag == d, self.permissions == perm, 0 <= n < cs.len(), below(d, parent_oid, left(cs[n])->Some_0.0),
        forall|x: NonZeroOid| #[trigger] vx_it6@.contains(x) <==> orphan(d, cs[n], x) && !moves(m1, x),
        attaching(d, m0, cs, n, m1, self.inner@),
        forall|i: int| 0 <= i < vx_i6 ==> moves(self.inner@, #[trigger] vx_it6@[i]),
        forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(self.fixups@, p, x) <==> fixed(f0, cs, p, x),
    decreases vx_it6@.len() - vx_i6
//@body_start 6
    let ghost m2 = self.inner@;
    proof { assert(vx_it6@[vx_i6 - 1] == child_oid); assert(vx_it6@.contains(child_oid)); }
//@body_end 6
    proof {
        lemma_attach(d, m0, cs, n, m1, m2, self.inner@, parent_oid, child_oid);
        assert(rmem(self.inner@, parent_oid, child_oid));
        assert forall|i: int| 0 <= i < vx_i6 implies moves(self.inner@, #[trigger] vx_it6@[i]) by {
            if i < vx_i6 - 1 { let p = choose|p: NonZeroOid| #[trigger] rmem(m2, p, vx_it6@[i]); assert(rmem(self.inner@, p, vx_it6@[i])); }
        }
    }
//@after_loop 6
    proof {
        assert forall|x: NonZeroOid| #[trigger] orphan(d, cs[n], x) implies moves(self.inner@, x) by {
            if moves(m1, x) { let p = choose|p: NonZeroOid| #[trigger] rmem(m1, p, x); assert(rmem(self.inner@, p, x)); } else { assert(vx_it6@.contains(x)); }
        }
        lemma_attached(d, m0, cs, n, m1, self.inner@);
    }
//@end
    pub open spec fn touched(&self, x: NonZeroOid) -> bool { moves(self.inner@, x) || self.fixups@.dom().contains(x) }
    /// A visible descendant of something moved that nothing was said about: it follows its parents.
    pub open spec fn trails(&self, x: NonZeroOid) -> bool { self.dag.is_visible(x) && !self.touched(x) && exists|y: NonZeroOid| #![trigger self.touched(y)] self.touched(y) && self.dag.inner.anc(y, x) }
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::add_descendant_constraints
//@contract
    requires old(self).ok()
    ensures
        final(self).dag == old(self).dag, final(self).permissions == old(self).permissions,
        r is Ok ==> forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(final(self).inner@, p, x) <==> if old(self).trails(x) { old(self).dag.inner.parent(p, x) } else { rmem(old(self).inner@, p, x) },
        r is Ok ==> forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(final(self).fixups@, p, x) <==> rmem(old(self).fixups@, p, x),
//@after_let commits_to_move
    proof { assert forall|x: NonZeroOid| #[trigger] commits_to_move@.contains(x) <==> self.touched(x) by {} }
//@after_let descendants#2
    proof {
        assert forall|x: NonZeroOid| #[trigger] descendants@.contains(x) <==> self.trails(x) by {
            if self.dag.inner.down(commits_to_move@, x) { let y = choose|y: NonZeroOid| #![trigger commits_to_move@.contains(y)] commits_to_move@.contains(y) && self.dag.inner.anc(y, x); assert(self.touched(y)); }
            if self.trails(x) { let y = choose|y: NonZeroOid| #![trigger self.touched(y)] self.touched(y) && self.dag.inner.anc(y, x); assert(commits_to_move@.contains(y)); }
        }
    }
//@loop 0 for descendant_oid in descendant_oids
    invariant 0 <= vx_i0 <= vx_it0@.len(), acc@.len() == vx_i0, self.dag.wf(), *self == *old(self), forall|x: NonZeroOid| #[trigger] vx_it0@.contains(x) <==> self.trails(x),
        forall|i: int| 0 <= i < vx_i0 ==> follows(self.dag, #[trigger] acc@[i], vx_it0@[i]),
    decreases vx_it0@.len() - vx_i0
//@after_loop 0
    proof { lemma_follow(self.dag, self.inner@, self.fixups@, acc@, vx_it0@); assert(vx_it0@.take(acc@.len() as int) =~= vx_it0@); }
    let ghost tr = vx_it0@;
//@after_let all_descendants_of_constrained_nodes
    proof {
        assert(self.inner@ == old(self).inner@);
    }
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::check_for_cycles_helper
//@contract
    requires old(path)@.no_duplicates(), forall|i: int| 0 <= i < old(path)@.len() ==> self.inner@.dom().contains(#[trigger] old(path)@[i])
    ensures
        r is Ok ==> final(path)@ == old(path)@ && safe(self.inner@, old(path)@, current_oid),
        // a refusal shows a commit met twice
        r is Err ==> r->Err_0 is ConstraintCycle
    decreases self.inner@.dom().len() - old(path)@.len() + 1
//@prologue
    proof { lemma_fits(path@, self.inner@.dom()); }
    let ghost path0 = path@;
//@before_loop 0
    proof { assert(path@ =~= path0.push(current_oid)); lemma_push_fits(path0, current_oid, self.inner@.dom()); }
//@loop 0 for child_oid in child_oids . iter () . sorted ()
    invariant 0 <= vx_i0 <= vx_it0@.len(), path@ == path0.push(current_oid), path@.no_duplicates(), self.inner@.dom().contains(current_oid),
        path0.no_duplicates(), !path0.contains(current_oid), path@.len() <= self.inner@.dom().len(), path0 == old(path)@,
        forall|i: int| 0 <= i < path@.len() ==> self.inner@.dom().contains(#[trigger] path@[i]),
        forall|x: NonZeroOid| #[trigger] vx_it0@.contains(&x) <==> rmem(self.inner@, current_oid, x),
        forall|i: int| 0 <= i < vx_i0 ==> safe(self.inner@, path@, *#[trigger] vx_it0@[i]),
    decreases vx_it0@.len() - vx_i0
//@after_loop 0
    proof {
        assert forall|x: NonZeroOid| #[trigger] rmem(self.inner@, current_oid, x) implies safe(self.inner@, path0.push(current_oid), x) by { assert(vx_it0@.contains(&x)); }
    }
//@epilogue
    proof { if vx_ret is Ok { lemma_safe_step(self.inner@, path0, current_oid); assert(path@ =~= path0); } }
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::check_for_cycles
//@contract
    ensures r is Ok ==> acyclic(self.inner@), r is Err ==> r->Err_0 is ConstraintCycle
//@loop 0 for oid in self . parents () . iter () . sorted ()
    invariant 0 <= vx_i0 <= vx_it0@.len(), forall|x: NonZeroOid| #[trigger] vx_it0@.contains(&x) <==> self.inner@.dom().contains(x),
        forall|i: int| 0 <= i < vx_i0 ==> safe(self.inner@, Seq::empty(), *#[trigger] vx_it0@[i]),
    decreases vx_it0@.len() - vx_i0
//@after_loop 0
    proof {
        assert forall|k: NonZeroOid| #[trigger] self.inner@.dom().contains(k) implies safe(self.inner@, Seq::empty(), k) by { assert(vx_it0@.contains(&k)); }
        lemma_acyclic(self.inner@);
    }
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::ConstraintGraph::check_permissions
//@contract
    ensures r is Ok && r->Ok_0 is Ok ==> forall|x: NonZeroOid| #[trigger] self.touched(x) ==> self.permissions.allowed_commits@.contains(x)
//@after_let illegal_commits_to_move
    proof { assert forall|x: NonZeroOid| #[trigger] self.touched(x) && !self.permissions.allowed_commits@.contains(x) implies illegal_commits_to_move@.contains(x) by { assert(commits_to_move@.contains(x)); } }
//@end
}

//@item git-branchless-lib/src/core/rewrite/plan.rs::OidOrLabel
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebaseCommand
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebasePlan
//@item git-branchless-lib/src/core/rewrite/plan.rs::BuildState
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { x: std::marker::PhantomData<T> }
impl<T> VxDefault for Arc<T> { open spec fn vx_is_default(&self) -> bool { true } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct CHashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body]
pub struct PathBuf { x: u64 }
//@item git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder
#[verifier::external_body]
pub struct ThreadPool { x: u64 }
#[verifier::external_body]
pub struct RepoPool { x: u64 }
#[verifier::external_body]
pub struct PatchId { x: u64 }
#[verifier::external_body]
pub fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@[0]) { unimplemented!() }

/// The graph a set of constraints stands for.
pub open spec fn planned(d: &Dag, cs: Seq<Constraint>, m: M) -> bool {
    exists|g: ConstraintGraph| #![trigger g.ok()] g.ok() && g.dag == d && reattached(d, Map::empty(), cs, cs.len() as int, g.inner@)
        && (forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(g.fixups@, p, x) <==> fixed(Map::empty(), cs, p, x))
        && (forall|p: NonZeroOid, x: NonZeroOid| #[trigger] rmem(m, p, x) <==> if g.trails(x) { d.inner.parent(p, x) } else { rmem(g.inner@, p, x) })
}
impl<'a> RebasePlanBuilder<'a> {
    pub open spec fn asked(&self) -> Seq<Constraint> { self.initial_constraints@ }
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::new
//@contract
    ensures r.dag == dag, r.permissions == permissions, r.asked().len() == 0, r.replacement_commits@ == Map::<NonZeroOid, NonZeroOid>::empty()
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::move_subtree
//@contract
    ensures final(self).dag == old(self).dag, final(self).permissions == old(self).permissions, final(self).replacement_commits == old(self).replacement_commits,
        r is Ok ==> dest_oids@.len() > 0 && final(self).asked() == old(self).asked().push(Constraint::MoveSubtree { parent_oids: dest_oids, child_oid: source_oid })
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::move_commit
//@contract
    ensures final(self).dag == old(self).dag, final(self).permissions == old(self).permissions, final(self).replacement_commits == old(self).replacement_commits,
        r is Ok ==> one_range(old(self).asked(), final(self).asked(), source_oid, source_oid, dest_oid)
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::move_range
//@contract
    ensures final(self).dag == old(self).dag, final(self).permissions == old(self).permissions, final(self).replacement_commits == old(self).replacement_commits,
        r is Ok ==> one_range(old(self).asked(), final(self).asked(), source_oid, end_oid, dest_oid)
//@epilogue
    proof { assert(self.asked().take(old(self).asked().len() as int) =~= old(self).asked()); }
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::fixup_commit
//@contract
    ensures final(self).dag == old(self).dag, final(self).permissions == old(self).permissions, final(self).replacement_commits == old(self).replacement_commits,
        r is Ok ==> final(self).asked() == old(self).asked().push(Constraint::FixUpCommit { commit_to_fixup_oid: dest_oid, fixup_commit_oid: source_oid })
//@end
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::replace_commit
//@contract
    ensures final(self).dag == old(self).dag, final(self).permissions == old(self).permissions, final(self).asked() == old(self).asked(),
        r is Ok ==> !old(self).replacement_commits@.dom().contains(original_oid) && final(self).replacement_commits@ == old(self).replacement_commits@.insert(original_oid, replacement_oid),
        r is Err ==> final(self).replacement_commits@ == old(self).replacement_commits@
//@end
    /// Not under contract here; exercised end to end.
    #[verifier::external_body]
    pub fn get_upstream_patch_ids(&self, effects: &Effects, pool: &ThreadPool, repo_pool: &RepoPool, repo: &Repo, state: &mut BuildState, current_oid: NonZeroOid, dest_oids: &Vec<NonZeroOid>) -> (r: EyreResult<HashSet<PatchId>>)
        ensures final(state).constraints == old(state).constraints { unimplemented!() }
    #[verifier::external_body]
    pub fn make_rebase_plan_for_current_commit(&self, effects: &Effects, repo: &Repo, state: &mut BuildState, current_commit: Commit, upstream_patch_ids: &HashSet<PatchId>, acc: Vec<RebaseCommand>) -> (r: EyreResult<Vec<RebaseCommand>>)
        ensures final(state).constraints == old(state).constraints { unimplemented!() }
//@fn git-branchless-lib/src/core/rewrite/plan.rs::RebasePlanBuilder::build
//@sig
pub fn build(&self, effects: &Effects, pool: &ThreadPool, repo_pool: &RepoPool) -> (r: EyreResult<Result<Option<RebasePlan>, BuildRebasePlanError>>)
//@contract
    requires self.dag.wf()
    ensures
        r is Ok && r->Ok_0 is Ok ==> exists|m: M| #[trigger] planned(self.dag, self.asked(), m) && acyclic(m) && forall|x: NonZeroOid| #[trigger] moves(m, x) ==> self.permissions.allowed_commits@.contains(x),
        r is Ok && r->Ok_0 is Ok ==> forall|p: NonZeroOid, x: NonZeroOid| #[trigger] fixed(Map::empty(), self.asked(), p, x) ==> self.permissions.allowed_commits@.contains(p)
//@after_let state
    let ghost g = state.constraints;
    proof { assert(g.ok()); }
//@after_let roots
    let ghost m = state.constraints.inner@;
    proof {
        assert(planned(self.dag, self.asked(), m)); assert(acyclic(m));
        assert forall|x: NonZeroOid| #[trigger] moves(m, x) implies self.permissions.allowed_commits@.contains(x) by { assert(state.constraints.touched(x)); }
        assert forall|p: NonZeroOid, x: NonZeroOid| #[trigger] fixed(Map::empty(), self.asked(), p, x) implies self.permissions.allowed_commits@.contains(p) by {
            assert(rmem(g.fixups@, p, x));
            assert(rmem(state.constraints.fixups@, p, x));
            assert(state.constraints.touched(p));
        }
    }
//@loop 0 for constraint in roots
    invariant 0 <= vx_i0 <= vx_it0@.len(), forall|i: int| 0 <= i < vx_it0@.len() ==> root_ok(#[trigger] vx_it0@[i])
    decreases vx_it0@.len() - vx_i0
//@end
}
pub open spec fn root_ok(c: Constraint) -> bool { c matches Constraint::MoveSubtree { parent_oids, .. } ==> parent_oids@.len() > 0 }
impl<'a> ConstraintGraph<'a> {
    /// Not under contract here; exercised end to end.
    #[verifier::external_body]
    pub fn find_roots(&self) -> (r: Vec<Constraint>) ensures forall|i: int| 0 <= i < r@.len() ==> root_ok(#[trigger] r@[i]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Commit { x: u64 }
impl Commit {
    #[verifier::external_body]
    pub fn get_parent_oids(&self) -> Vec<NonZeroOid> { unimplemented!() }
}
impl Repo {
    #[verifier::external_body]
    pub fn find_commit_or_fail(&self, o: NonZeroOid) -> EyreResult<Commit> { unimplemented!() }
}
impl RepoPool {
    #[verifier::external_body]
    pub fn try_create(&self) -> EyreResult<Repo> { unimplemented!() }
}
//@rule __O.get_or_insert(__X) => vx_get_or_insert(&mut __O, __X)
#[verifier::external_body]
pub fn vx_get_or_insert<T>(o: &mut Option<T>, x: T) { unimplemented!() }
//@rule parent_oids.first() => vx_first(&parent_oids)
/// A range goes to `dest`; what was on top of it goes where the range was.
pub open spec fn one_range(a: Seq<Constraint>, b: Seq<Constraint>, source: NonZeroOid, end: NonZeroOid, dest: NonZeroOid) -> bool {
    &&& b.len() == a.len() + 2
    &&& b.take(a.len() as int) == a
    &&& b[a.len() as int] matches Constraint::MoveSubtree { parent_oids, child_oid } && parent_oids@ == seq![dest] && child_oid == source
    &&& b[a.len() as int + 1] == (Constraint::MoveChildren { parent_of_oid: source, children_of_oid: end })
}
} // verus!
