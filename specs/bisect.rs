// C15: the search for the first failing nodes of a graph.
verus! {
//@type Self::Node => Node
//@type G::Node => Node
//@type Self::Error => VErr
//@type G::Error => VErr
//@type S::Error => VErr
//@type search::Status => Status
/// Nodes of any type: opaque values with equality.
#[derive(Copy, PartialEq, Eq, Structural)]
pub struct Node { pub id: u64 }

// ASSUMED: `clone` gives an equal value.
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Clone for IndexMap<Node, Status> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.keys() == self.keys(), r.map() == self.map() { unimplemented!() } }

//@item scm-bisect/src/search.rs::Status Clone, Copy, PartialEq, Eq, Structural

// ---- ASSUMED contracts: indexmap::IndexMap (a map that remembers insertion order)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn map(&self) -> Map<K, V>;
    pub open spec fn wf(&self) -> bool { self.keys().no_duplicates() && forall|k: K| #![trigger self.keys().contains(k)] #![trigger self.map().dom().contains(k)] self.keys().contains(k) <==> self.map().dom().contains(k) }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures self.map().dom().contains(*k) ==> r == Some(&self.map()[*k]), !self.map().dom().contains(*k) ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k, v), final(self).keys() == (if old(self).keys().contains(k) { old(self).keys() } else { old(self).keys().push(k) }),
            old(self).wf() ==> final(self).wf()
    { unimplemented!() }
}
impl<'a, K, V> VIter for &'a IndexMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vx_seq(self, s: Seq<(&'a K, &'a V)>) -> bool {
        &&& s.len() == self.keys().len() && self.wf()
        &&& forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == self.keys()[i] && *s[i].1 == self.map()[self.keys()[i]]
        &&& forall|i: int| 0 <= i < s.len() ==> self.map().dom().contains(*(#[trigger] s[i]).0)
        &&& forall|k: K| #[trigger] self.map().dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    }
    #[verifier::external_body]
    fn viter(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K, V> VxFromIter<(K, V)> for IndexMap<K, V> {
    open spec fn vx_from(s: Seq<(K, V)>, r: Self) -> bool {
        &&& r.wf()
        &&& forall|i: int| 0 <= i < s.len() ==> r.map().dom().contains((#[trigger] s[i]).0)
        &&& forall|k: K| #[trigger] r.map().dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == (k, r.map()[k])
    }
}
impl<K, V> VxFromIter<EyreResult<(K, V)>> for EyreResult<HashMap<K, V>> {
    open spec fn vx_from(s: Seq<EyreResult<(K, V)>>, r: Self) -> bool {
        r is Ok ==> {
            &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && r->Ok_0@.dom().contains(s[i]->Ok_0.0)
            &&& forall|k: K| #[trigger] r->Ok_0@.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == Ok::<(K, V), VErr>((k, r->Ok_0@[k]))
        }
    }
}
impl<T> HashSet<T> {
    /// `extend`
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashSet<T>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}

/// ASSUMED: the graph answers by ancestry (`anc`), the order the search is defined by.
pub struct G { pub g: u64 }
impl G {
    pub uninterp spec fn anc(&self, a: Node, b: Node) -> bool;
    pub open spec fn wf(&self) -> bool {
        &&& forall|a: Node| #[trigger] self.anc(a, a)
        &&& forall|a: Node, b: Node, c: Node| #[trigger] self.anc(a, b) && #[trigger] self.anc(b, c) ==> self.anc(a, c)
        &&& forall|a: Node, b: Node| #[trigger] self.anc(a, b) && #[trigger] self.anc(b, a) ==> a == b
    }
    #[verifier::external_body]
    pub fn ancestors(&self, node: Node) -> (r: Result<HashSet<Node>, VErr>) ensures r is Ok ==> forall|x: Node| #[trigger] r->Ok_0@.contains(x) <==> self.anc(x, node) { unimplemented!() }
    #[verifier::external_body]
    pub fn descendants(&self, node: Node) -> (r: Result<HashSet<Node>, VErr>) ensures r is Ok ==> forall|x: Node| #[trigger] r->Ok_0@.contains(x) <==> self.anc(node, x) { unimplemented!() }

    pub open spec fn below(&self, s: Set<Node>, x: Node) -> bool { exists|n: Node| s.contains(n) && #[trigger] self.anc(x, n) }
    pub open spec fn above(&self, s: Set<Node>, x: Node) -> bool { exists|n: Node| s.contains(n) && #[trigger] self.anc(n, x) }
    pub open spec fn is_head(&self, s: Set<Node>, x: Node) -> bool { s.contains(x) && forall|y: Node| #[trigger] s.contains(y) && y != x ==> !self.anc(x, y) }
    pub open spec fn is_root(&self, s: Set<Node>, x: Node) -> bool { s.contains(x) && forall|y: Node| #[trigger] s.contains(y) && y != x ==> !self.anc(y, x) }

//@fn scm-bisect/src/basic.rs::BasicSourceControlGraph::ancestors_all
//@sig
pub fn ancestors_all(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> forall|x: Node| #[trigger] r->Ok_0@.contains(x) <==> self.below(nodes@, x)
//@loop 0 for node in nodes
    invariant 0 <= vx_i0 <= vx_it0@.len(), nodes.vx_iseq(vx_it0@),
        forall|x: Node| #[trigger] ancestors@.contains(x) <==> exists|j: int| 0 <= j < vx_i0 && self.anc(x, #[trigger] vx_it0@[j]),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = ancestors@;
    proof { assert(vx_it0@[vx_i0 - 1] == node); }
//@body_end 0
    proof {
        assert forall|x: Node| #[trigger] ancestors@.contains(x) <==> exists|j: int| 0 <= j < vx_i0 && self.anc(x, #[trigger] vx_it0@[j]) by {
            if ancestors@.contains(x) && !before.contains(x) { assert(self.anc(x, vx_it0@[vx_i0 - 1])); }
            if before.contains(x) { let j = choose|j: int| 0 <= j < vx_i0 - 1 && self.anc(x, #[trigger] vx_it0@[j]); assert(self.anc(x, vx_it0@[j])); }
        }
    }
//@after_loop 0
    proof {
        assert forall|x: Node| #[trigger] ancestors@.contains(x) <==> self.below(nodes@, x) by {
            if ancestors@.contains(x) { let j = choose|j: int| 0 <= j < vx_it0@.len() && self.anc(x, #[trigger] vx_it0@[j]); assert(nodes@.contains(vx_it0@[j])); }
            if self.below(nodes@, x) { let n = choose|n: Node| nodes@.contains(n) && #[trigger] self.anc(x, n); let j = choose|j: int| 0 <= j < vx_it0@.len() && (#[trigger] vx_it0@[j]) == n; assert(self.anc(x, vx_it0@[j])); }
        }
    }
//@end
//@fn scm-bisect/src/basic.rs::BasicSourceControlGraph::descendants_all
//@sig
pub fn descendants_all(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> forall|x: Node| #[trigger] r->Ok_0@.contains(x) <==> self.above(nodes@, x)
//@loop 0 for node in nodes
    invariant 0 <= vx_i0 <= vx_it0@.len(), nodes.vx_iseq(vx_it0@),
        forall|x: Node| #[trigger] descendants@.contains(x) <==> exists|j: int| 0 <= j < vx_i0 && self.anc(#[trigger] vx_it0@[j], x),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost before = descendants@;
    proof { assert(vx_it0@[vx_i0 - 1] == node); }
//@body_end 0
    proof {
        assert forall|x: Node| #[trigger] descendants@.contains(x) <==> exists|j: int| 0 <= j < vx_i0 && self.anc(#[trigger] vx_it0@[j], x) by {
            if descendants@.contains(x) && !before.contains(x) { assert(self.anc(vx_it0@[vx_i0 - 1], x)); }
            if before.contains(x) { let j = choose|j: int| 0 <= j < vx_i0 - 1 && self.anc(#[trigger] vx_it0@[j], x); assert(self.anc(vx_it0@[j], x)); }
        }
    }
//@after_loop 0
    proof {
        assert forall|x: Node| #[trigger] descendants@.contains(x) <==> self.above(nodes@, x) by {
            if descendants@.contains(x) { let j = choose|j: int| 0 <= j < vx_it0@.len() && self.anc(#[trigger] vx_it0@[j], x); assert(nodes@.contains(vx_it0@[j])); }
            if self.above(nodes@, x) { let n = choose|n: Node| nodes@.contains(n) && #[trigger] self.anc(n, x); let j = choose|j: int| 0 <= j < vx_it0@.len() && (#[trigger] vx_it0@[j]) == n; assert(self.anc(vx_it0@[j], x)); }
        }
    }
//@end
    pub open spec fn all_anc(&self, n: Node, s: Set<Node>) -> bool { forall|x: Node| #[trigger] s.contains(x) <==> self.anc(x, n) }
    pub open spec fn all_desc(&self, n: Node, s: Set<Node>) -> bool { forall|x: Node| #[trigger] s.contains(x) <==> self.anc(n, x) }
    pub open spec fn heads_are(&self, s: Set<Node>, r: Set<Node>) -> bool { forall|x: Node| #[trigger] r.contains(x) <==> self.is_head(s, x) }
    pub open spec fn roots_are(&self, s: Set<Node>, r: Set<Node>) -> bool { forall|x: Node| #[trigger] r.contains(x) <==> self.is_root(s, x) }
//@fn scm-bisect/src/basic.rs::BasicSourceControlGraph::ancestor_heads
//@sig
pub fn ancestor_heads(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> self.heads_are(nodes@, r->Ok_0@)
//@closures 4
//@closure 0
    -> (c: Result<(Node, HashSet<Node>), VErr>) ensures c is Ok ==> c->Ok_0.0 == *$0 && self.all_anc(*$0, c->Ok_0.1@)
//@closure 1
    -> (c: bool) ensures c == forall|m: Node| #[trigger] node_to_ancestors@.dom().contains(m) && m != *$0 ==> !node_to_ancestors@[m]@.contains(*$0)
//@closure 2
    -> (c: Option<&HashSet<Node>>) ensures c == (if *$0.0 == *node { None } else { Some($0.1) })
//@closure 3
    -> (c: bool) ensures c == !$0@.contains(*node)
//@after_let node_to_ancestors
    proof {
        assert forall|m: Node| #[trigger] node_to_ancestors@.dom().contains(m) <==> nodes@.contains(m) by {}
        assert forall|m: Node| #[trigger] node_to_ancestors@.dom().contains(m) implies self.all_anc(m, node_to_ancestors@[m]@) by {}
        assert forall|m: Node, x: Node| node_to_ancestors@.dom().contains(m) implies (#[trigger] node_to_ancestors@[m]@.contains(x) <==> self.anc(x, m)) by {}
    }
//@after_let heads
    proof {
        assert forall|x: Node| #[trigger] heads@.contains(x) <==> self.is_head(nodes@, x) by {
            if heads@.contains(x) {
                assert forall|y: Node| #[trigger] nodes@.contains(y) && y != x implies !self.anc(x, y) by { assert(node_to_ancestors@.dom().contains(y)); assert(!node_to_ancestors@[y]@.contains(x)); }
            }
            if self.is_head(nodes@, x) && !heads@.contains(x) {
                let y = choose|y: Node| #[trigger] node_to_ancestors@.dom().contains(y) && y != x && node_to_ancestors@[y]@.contains(x);
                assert(nodes@.contains(y));
            }
        }
    }
//@end
//@fn scm-bisect/src/basic.rs::BasicSourceControlGraph::descendant_roots
//@sig
pub fn descendant_roots(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> self.roots_are(nodes@, r->Ok_0@)
//@closures 4
//@closure 0
    -> (c: Result<(Node, HashSet<Node>), VErr>) ensures c is Ok ==> c->Ok_0.0 == *$0 && self.all_desc(*$0, c->Ok_0.1@)
//@closure 1
    -> (c: bool) ensures c == forall|m: Node| #[trigger] node_to_descendants@.dom().contains(m) && m != *$0 ==> !node_to_descendants@[m]@.contains(*$0)
//@closure 2
    -> (c: Option<&HashSet<Node>>) ensures c == (if *$0.0 == *node { None } else { Some($0.1) })
//@closure 3
    -> (c: bool) ensures c == !$0@.contains(*node)
//@after_let node_to_descendants
    proof {
        assert forall|m: Node| #[trigger] node_to_descendants@.dom().contains(m) <==> nodes@.contains(m) by {}
        assert forall|m: Node| #[trigger] node_to_descendants@.dom().contains(m) implies self.all_desc(m, node_to_descendants@[m]@) by {}
        assert forall|m: Node, x: Node| node_to_descendants@.dom().contains(m) implies (#[trigger] node_to_descendants@[m]@.contains(x) <==> self.anc(m, x)) by {}
    }
//@after_let roots
    proof {
        assert forall|x: Node| #[trigger] roots@.contains(x) <==> self.is_root(nodes@, x) by {
            if roots@.contains(x) {
                assert forall|y: Node| #[trigger] nodes@.contains(y) && y != x implies !self.anc(y, x) by { assert(node_to_descendants@.dom().contains(y)); assert(!node_to_descendants@[y]@.contains(x)); }
            }
            if self.is_root(nodes@, x) && !roots@.contains(x) {
                let y = choose|y: Node| #[trigger] node_to_descendants@.dom().contains(y) && y != x && node_to_descendants@[y]@.contains(x);
                assert(nodes@.contains(y));
            }
        }
    }
//@end
//@fn scm-bisect/src/basic.rs::Graph@T::is_ancestor
//@sig
pub fn is_ancestor(&self, ancestor: Node, descendant: Node) -> (r: Result<bool, VErr>)
//@contract
    ensures r is Ok ==> r->Ok_0 == self.anc(ancestor, descendant)
//@end
//@fn scm-bisect/src/basic.rs::Graph@T::simplify_success_bounds
//@sig
pub fn simplify_success_bounds(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> self.heads_are(nodes@, r->Ok_0@)
//@end
//@fn scm-bisect/src/basic.rs::Graph@T::simplify_failure_bounds
//@sig
pub fn simplify_failure_bounds(&self, nodes: HashSet<Node>) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    ensures r is Ok ==> self.roots_are(nodes@, r->Ok_0@)
//@end
}

// ---- what is known so far
pub mod search { pub use super::{Bounds, Status}; }
pub struct Bounds { pub success: HashSet<Node>, pub failure: HashSet<Node> }
//@item scm-bisect/src/basic.rs::BasicStrategyKind Clone, Copy, PartialEq, Eq, Structural
//@type search::Bounds => Bounds
//@type Bounds<Node> => Bounds
pub struct BasicStrategy { pub strategy: BasicStrategyKind }
pub open spec fn untested(m: Map<Node, Status>, n: Node) -> bool { m.dom().contains(n) && m[n] == Status::Untested }
/// Not known yet: neither tested nor implied by the bounds.
pub open spec fn remains(g: &G, success: Set<Node>, failure: Set<Node>, m: Map<Node, Status>, n: Node) -> bool {
    untested(m, n) && !g.below(success, n) && !g.above(failure, n)
}
/// `p` lists, in order, the positions of the nodes that remain.
pub open spec fn positions(g: &G, success: Set<Node>, failure: Set<Node>, m: Map<Node, Status>, keys: Seq<Node>, p: Seq<int>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j]
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < keys.len() && remains(g, success, failure, m, keys[p[k]])
    &&& forall|i: int| 0 <= i < keys.len() && remains(g, success, failure, m, #[trigger] keys[i]) ==> p.contains(i)
}
/// Which of the remaining nodes the strategy picks.
pub open spec fn picked(k: BasicStrategyKind, keys: Seq<Node>, p: Seq<int>, r: Option<Node>) -> bool {
    if p.len() == 0 { r is None } else { r is Some && match k {
        BasicStrategyKind::Linear => r->Some_0 == keys[p[0]],
        BasicStrategyKind::LinearReverse => r->Some_0 == keys[p.last()],
        BasicStrategyKind::Binary => r->Some_0 == keys[p[p.len() as int / 2]] || r->Some_0 == keys[p[(p.len() - 1) / 2]],
    } }
}
pub open spec fn picks(k: BasicStrategyKind, g: &G, success: Set<Node>, failure: Set<Node>, m: Map<Node, Status>, keys: Seq<Node>, r: Option<Node>) -> bool {
    exists|p: Seq<int>| #[trigger] positions(g, success, failure, m, keys, p) && picked(k, keys, p, r)
}
pub open spec fn fm_untested(s: Seq<(&Node, &Status)>, r: Seq<Node>) -> bool {
    vx_fm_ok(s, r, |e: (&Node, &Status)| if *e.1 == Status::Untested { Some(*e.0) } else { None })
}
pub open spec fn filtered(g: &G, success: Set<Node>, failure: Set<Node>, s: Seq<Node>, r: Seq<Node>) -> bool {
    &&& vx_subseq(s, r, vx_idx(s, r))
    &&& forall|i: int| 0 <= i < r.len() ==> !g.below(success, #[trigger] r[i]) && !g.above(failure, r[i])
    &&& forall|j: int| 0 <= j < s.len() && !vx_idx(s, r).contains(j) ==> g.below(success, #[trigger] s[j]) || g.above(failure, s[j])
}
pub proof fn lemma_positions(g: &G, success: Set<Node>, failure: Set<Node>, m: &IndexMap<Node, Status>, r: Seq<Node>)
    requires m.wf()
    ensures forall|s0: Seq<(&Node, &Status)>, r1: Seq<Node>| #[trigger] vx_mark(s0, r1) && #[trigger] vx_mark(r1, r) && m.vx_seq(s0) && fm_untested(s0, r1) && filtered(g, success, failure, r1, r)
        ==> exists|p: Seq<int>| #[trigger] positions(g, success, failure, m.map(), m.keys(), p) && p.len() == r.len() && forall|k: int| 0 <= k < p.len() ==> m.keys()[#[trigger] p[k]] == r[k]
{
    assert forall|s0: Seq<(&Node, &Status)>, r1: Seq<Node>| #[trigger] vx_mark(s0, r1) && #[trigger] vx_mark(r1, r) && m.vx_seq(s0) && fm_untested(s0, r1) && filtered(g, success, failure, r1, r)
        implies exists|p: Seq<int>| #[trigger] positions(g, success, failure, m.map(), m.keys(), p) && p.len() == r.len() && forall|k: int| 0 <= k < p.len() ==> m.keys()[#[trigger] p[k]] == r[k] by {
        let idx = vx_idx(r1, r);
        let p = Seq::new(r.len(), |k: int| vx_fm_src(s0, r1, idx[k]));
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] < #[trigger] p[j] by { assert(idx[i] < idx[j]); assert(vx_fm_src(s0, r1, idx[i]) < vx_fm_src(s0, r1, idx[j])); }
        assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < m.keys().len() && remains(g, success, failure, m.map(), m.keys()[p[k]]) && m.keys()[p[k]] == r[k] by {
            let e = s0[p[k]];
            assert(r1[idx[k]] == r[k]);
            assert(*e.0 == r[k] && *e.1 == Status::Untested);
            assert(m.keys().contains(m.keys()[p[k]]));
            assert(!g.below(success, r[k]));
        }
        assert forall|i: int| 0 <= i < m.keys().len() && remains(g, success, failure, m.map(), #[trigger] m.keys()[i]) implies p.contains(i) by {
            assert(*s0[i].1 == Status::Untested);
            let j = vx_fm_dst(s0, r1, i);
            assert(vx_fm_src(s0, r1, j) == i);
            assert(r1[j] == m.keys()[i]);
            assert(idx.contains(j));
            let k = choose|k: int| 0 <= k < idx.len() && idx[k] == j;
            assert(p[k] == i);
        }
        assert(positions(g, success, failure, m.map(), m.keys(), p));
    }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures r == (if old(self)@.len() > 0 { Some(old(self)@[0]) } else { None::<T> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>) ensures r == (if old(self)@.len() > 0 { Some(old(self)@.last()) } else { None::<T> }) { unimplemented!() }
}
impl BasicStrategy {
//@rule __A.swap_remove(__B) => vx_swap_remove(&mut __A, __B)
//@fn scm-bisect/src/basic.rs::Strategy@BasicStrategy::midpoint
//@sig
pub fn midpoint(&self, graph: &G, bounds: &Bounds, statuses: &IndexMap<Node, Status>) -> (r: Result<Option<Node>, VErr>)
//@contract
    requires statuses.wf()
    ensures r is Ok ==> picks(self.strategy, graph, bounds.success@, bounds.failure@, statuses.map(), statuses.keys(), r->Ok_0)
//@closures 2
//@closure 0
    -> (c: Option<Node>) ensures c == (if *$0.1 == Status::Untested { Some(*$0.0) } else { None })
//@closure 1
    -> (c: bool) ensures c == (!graph.below(success_bounds@, *$0) && !graph.above(failure_bounds@, *$0))
//@after_let nodes_to_search
    let ghost found = nodes_to_search@;
    proof { lemma_positions(graph, bounds.success@, bounds.failure@, statuses, found); }
//@end
}
#[verifier::external_body]
pub fn vx_swap_remove(v: &mut Vec<Node>, i: usize) -> (r: Node) requires i < old(v)@.len() ensures r == old(v)@[i as int] { unimplemented!() }

// ---- bounds: the outermost known nodes stand for all of them
impl G {
    pub proof fn lemma_head_above(&self, s: Set<Node>, x: Node) -> (h: Node)
        requires self.wf(), s.contains(x)
        ensures self.is_head(s, h), self.anc(x, h)
        decreases s.len()
    {
        if self.is_head(s, x) { x } else {
            let y = choose|y: Node| #[trigger] s.contains(y) && y != x && self.anc(x, y);
            let h = self.lemma_head_above(s.remove(x), y);
            assert(self.anc(x, y) && self.anc(y, h));
            assert forall|z: Node| #[trigger] s.contains(z) && z != h implies !self.anc(h, z) by { if z != x { assert(s.remove(x).contains(z)); } else { if self.anc(h, x) { assert(self.anc(x, h) && self.anc(h, x)); } } }
            h
        }
    }
    pub proof fn lemma_root_below(&self, s: Set<Node>, x: Node) -> (h: Node)
        requires self.wf(), s.contains(x)
        ensures self.is_root(s, h), self.anc(h, x)
        decreases s.len()
    {
        if self.is_root(s, x) { x } else {
            let y = choose|y: Node| #[trigger] s.contains(y) && y != x && self.anc(y, x);
            let h = self.lemma_root_below(s.remove(x), y);
            assert(self.anc(h, y) && self.anc(y, x));
            assert forall|z: Node| #[trigger] s.contains(z) && z != h implies !self.anc(z, h) by { if z != x { assert(s.remove(x).contains(z)); } else { if self.anc(x, h) { assert(self.anc(x, h) && self.anc(h, x)); } } }
            h
        }
    }
    /// Simplifying the bounds does not change what they imply.
    pub proof fn lemma_heads(&self, s: Set<Node>, r: Set<Node>)
        requires self.wf(), self.heads_are(s, r)
        ensures forall|x: Node| #[trigger] self.below(r, x) <==> self.below(s, x)
    {
        assert forall|x: Node| #[trigger] self.below(r, x) <==> self.below(s, x) by {
            if self.below(r, x) { let n = choose|n: Node| r.contains(n) && #[trigger] self.anc(x, n); assert(self.is_head(s, n)); }
            if self.below(s, x) { let n = choose|n: Node| s.contains(n) && #[trigger] self.anc(x, n); let h = self.lemma_head_above(s, n); assert(r.contains(h)); assert(self.anc(x, n) && self.anc(n, h)); assert(self.anc(x, h)); }
        }
    }
    pub proof fn lemma_roots(&self, s: Set<Node>, r: Set<Node>)
        requires self.wf(), self.roots_are(s, r)
        ensures forall|x: Node| #[trigger] self.above(r, x) <==> self.above(s, x)
    {
        assert forall|x: Node| #[trigger] self.above(r, x) <==> self.above(s, x) by {
            if self.above(r, x) { let n = choose|n: Node| r.contains(n) && #[trigger] self.anc(n, x); assert(self.is_root(s, n)); }
            if self.above(s, x) { let n = choose|n: Node| s.contains(n) && #[trigger] self.anc(n, x); let h = self.lemma_root_below(s, n); assert(r.contains(h)); assert(self.anc(h, n) && self.anc(n, x)); assert(self.anc(h, x)); }
        }
    }
}

pub open spec fn known(m: Map<Node, Status>, k: Status, n: Node) -> bool { m.dom().contains(n) && m[n] == k }
/// The outermost of the nodes with status `k`.
pub open spec fn success_heads(g: &G, m: Map<Node, Status>, r: Set<Node>) -> bool {
    forall|x: Node| #[trigger] r.contains(x) <==> known(m, Status::Success, x) && forall|y: Node| #[trigger] known(m, Status::Success, y) && y != x ==> !g.anc(x, y)
}
pub open spec fn failure_roots(g: &G, m: Map<Node, Status>, r: Set<Node>) -> bool {
    forall|x: Node| #[trigger] r.contains(x) <==> known(m, Status::Failure, x) && forall|y: Node| #[trigger] known(m, Status::Failure, y) && y != x ==> !g.anc(y, x)
}
pub open spec fn implied_success(g: &G, m: Map<Node, Status>, x: Node) -> bool { exists|y: Node| #[trigger] known(m, Status::Success, y) && g.anc(x, y) }
pub open spec fn implied_failure(g: &G, m: Map<Node, Status>, x: Node) -> bool { exists|y: Node| #[trigger] known(m, Status::Failure, y) && g.anc(y, x) }

pub struct Search { pub graph: G, pub nodes: IndexMap<Node, Status> }
pub enum NotifyError { InconsistentStateTransition { ancestor_node: Node, ancestor_status: Status, descendant_node: Node, descendant_status: Status }, IllegalStateTransition { node: Node, from: Status, to: Status }, Graph(VErr) }
pub enum SearchError { AlreadySearchedMidpoint { node: Node, status: Status }, Graph(VErr), Strategy(VErr) }
//@rule __A.map_err(NotifyError::Graph) => vx_notify_err(__A)
//@rule __A.map_err(SearchError::Graph) => vx_search_err(__A)
pub fn vx_notify_err<T>(r: Result<T, VErr>) -> (o: Result<T, NotifyError>) ensures r is Ok ==> o is Ok && o->Ok_0 == r->Ok_0, r is Err ==> o == Err::<T, NotifyError>(NotifyError::Graph(r->Err_0))
{ match r { Ok(x) => Ok(x), Err(e) => Err(NotifyError::Graph(e)) } }
pub fn vx_search_err<T>(r: Result<T, VErr>) -> (o: Result<T, SearchError>) ensures r is Ok ==> o is Ok && o->Ok_0 == r->Ok_0, r is Err ==> o == Err::<T, SearchError>(SearchError::Graph(r->Err_0))
{ match r { Ok(x) => Ok(x), Err(e) => Err(SearchError::Graph(e)) } }
/// A result contradicts what is known: another verdict on the same node, a passing node above a failing one.
pub open spec fn changes_verdict(m: Map<Node, Status>, n: Node, st: Status) -> bool { (known(m, Status::Success, n) || known(m, Status::Failure, n)) && m[n] != st }
pub open spec fn contradicts(g: &G, m: Map<Node, Status>, n: Node, st: Status) -> bool {
    (st == Status::Success && implied_failure(g, m, n)) || (st == Status::Failure && implied_success(g, m, n))
}
impl Search {
//@fn scm-bisect/src/search.rs::Search::success_bounds
//@sig
pub fn success_bounds(&self) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    requires self.nodes.wf()
    ensures r is Ok ==> success_heads(&self.graph, self.nodes.map(), r->Ok_0@),
        r is Ok && self.graph.wf() ==> forall|x: Node| #![trigger self.graph.below(r->Ok_0@, x)] #![trigger implied_success(&self.graph, self.nodes.map(), x)] self.graph.below(r->Ok_0@, x) <==> implied_success(&self.graph, self.nodes.map(), x),
//@closures 1
//@closure 0
    -> (c: Option<Node>) ensures c == (if *$0.1 == Status::Success { Some(*$0.0) } else { None })
//@after_let success_nodes
    let ghost found = success_nodes@;
    proof { assert forall|x: Node| #[trigger] found.contains(x) <==> known(self.nodes.map(), Status::Success, x) by {} }
//@after_let success_bounds
    proof {
        let b = success_bounds@;
        assert forall|x: Node| #[trigger] b.contains(x) <==> known(self.nodes.map(), Status::Success, x) && forall|y: Node| #[trigger] known(self.nodes.map(), Status::Success, y) && y != x ==> !self.graph.anc(x, y) by {
            if b.contains(x) { assert(self.graph.is_head(found, x)); assert forall|y: Node| #[trigger] known(self.nodes.map(), Status::Success, y) && y != x implies !self.graph.anc(x, y) by { assert(found.contains(y)); } }
            else { if found.contains(x) { let y = choose|y: Node| #[trigger] found.contains(y) && y != x && self.graph.anc(x, y); assert(known(self.nodes.map(), Status::Success, y)); } }
        }
        if self.graph.wf() {
            self.graph.lemma_heads(found, b);
            assert forall|x: Node| #![trigger self.graph.below(b, x)] #![trigger implied_success(&self.graph, self.nodes.map(), x)] self.graph.below(b, x) <==> implied_success(&self.graph, self.nodes.map(), x) by {
                if self.graph.below(b, x) { assert(self.graph.below(found, x)); let n = choose|n: Node| found.contains(n) && #[trigger] self.graph.anc(x, n); assert(known(self.nodes.map(), Status::Success, n)); }
                if implied_success(&self.graph, self.nodes.map(), x) { let y = choose|y: Node| #[trigger] known(self.nodes.map(), Status::Success, y) && self.graph.anc(x, y); assert(found.contains(y)); assert(self.graph.below(found, x)); }
            }
        }
    }
//@end
//@fn scm-bisect/src/search.rs::Search::failure_bounds
//@sig
pub fn failure_bounds(&self) -> (r: Result<HashSet<Node>, VErr>)
//@contract
    requires self.nodes.wf()
    ensures r is Ok ==> failure_roots(&self.graph, self.nodes.map(), r->Ok_0@),
        r is Ok && self.graph.wf() ==> forall|x: Node| #![trigger self.graph.above(r->Ok_0@, x)] #![trigger implied_failure(&self.graph, self.nodes.map(), x)] self.graph.above(r->Ok_0@, x) <==> implied_failure(&self.graph, self.nodes.map(), x),
//@closures 1
//@closure 0
    -> (c: Option<Node>) ensures c == (if *$0.1 == Status::Failure { Some(*$0.0) } else { None })
//@after_let failure_nodes
    let ghost found = failure_nodes@;
    proof { assert forall|x: Node| #[trigger] found.contains(x) <==> known(self.nodes.map(), Status::Failure, x) by {} }
//@after_let failure_bounds
    proof {
        let b = failure_bounds@;
        assert forall|x: Node| #[trigger] b.contains(x) <==> known(self.nodes.map(), Status::Failure, x) && forall|y: Node| #[trigger] known(self.nodes.map(), Status::Failure, y) && y != x ==> !self.graph.anc(y, x) by {
            if b.contains(x) { assert(self.graph.is_root(found, x)); assert forall|y: Node| #[trigger] known(self.nodes.map(), Status::Failure, y) && y != x implies !self.graph.anc(y, x) by { assert(found.contains(y)); } }
            else { if found.contains(x) { let y = choose|y: Node| #[trigger] found.contains(y) && y != x && self.graph.anc(y, x); assert(known(self.nodes.map(), Status::Failure, y)); } }
        }
        if self.graph.wf() {
            self.graph.lemma_roots(found, b);
            assert forall|x: Node| #![trigger self.graph.above(b, x)] #![trigger implied_failure(&self.graph, self.nodes.map(), x)] self.graph.above(b, x) <==> implied_failure(&self.graph, self.nodes.map(), x) by {
                if self.graph.above(b, x) { assert(self.graph.above(found, x)); let n = choose|n: Node| found.contains(n) && #[trigger] self.graph.anc(n, x); assert(known(self.nodes.map(), Status::Failure, n)); }
                if implied_failure(&self.graph, self.nodes.map(), x) { let y = choose|y: Node| #[trigger] known(self.nodes.map(), Status::Failure, y) && self.graph.anc(y, x); assert(found.contains(y)); assert(self.graph.above(found, x)); }
            }
        }
    }
//@end
//@fn scm-bisect/src/search.rs::Search::notify
//@sig
pub fn notify(&mut self, node: Node, status: Status) -> (r: Result<(), NotifyError>)
//@contract
    requires old(self).nodes.wf(), old(self).graph.wf()
    ensures final(self).graph == old(self).graph, final(self).nodes.wf(),
        r is Ok ==> final(self).nodes.map() == old(self).nodes.map().insert(node, status) && !changes_verdict(old(self).nodes.map(), node, status) && !contradicts(&old(self).graph, old(self).nodes.map(), node, status),
        r is Err ==> final(self).nodes == old(self).nodes,
        r is Err && !(r->Err_0 is Graph) ==> changes_verdict(old(self).nodes.map(), node, status) || contradicts(&old(self).graph, old(self).nodes.map(), node, status),
//@loop 0 for failure_node in self . failure_bounds () . map_err (NotifyError :: Graph) ?
    invariant 0 <= vx_i0 <= vx_it0@.len(), self.nodes == old(self).nodes, self.graph == old(self).graph, self.nodes.wf(), self.graph.wf(), status == Status::Success,
        forall|j: int| 0 <= j < vx_it0@.len() ==> known(self.nodes.map(), Status::Failure, #[trigger] vx_it0@[j]),
        forall|x: Node| #[trigger] implied_failure(&self.graph, self.nodes.map(), x) ==> exists|j: int| 0 <= j < vx_it0@.len() && self.graph.anc(#[trigger] vx_it0@[j], x),
        forall|j: int| 0 <= j < vx_i0 ==> !self.graph.anc(#[trigger] vx_it0@[j], node),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof { assert(vx_it0@[vx_i0 - 1] == failure_node); assert(known(self.nodes.map(), Status::Failure, failure_node)); }
//@loop 1 for success_node in self . success_bounds () . map_err (NotifyError :: Graph) ?
    invariant 0 <= vx_i1 <= vx_it1@.len(), self.nodes == old(self).nodes, self.graph == old(self).graph, self.nodes.wf(), self.graph.wf(), status == Status::Failure,
        forall|j: int| 0 <= j < vx_it1@.len() ==> known(self.nodes.map(), Status::Success, #[trigger] vx_it1@[j]),
        forall|x: Node| #[trigger] implied_success(&self.graph, self.nodes.map(), x) ==> exists|j: int| 0 <= j < vx_it1@.len() && self.graph.anc(x, #[trigger] vx_it1@[j]),
        forall|j: int| 0 <= j < vx_i1 ==> !self.graph.anc(node, #[trigger] vx_it1@[j]),
    decreases vx_it1@.len() - vx_i1
//@body_start 1
    proof { assert(vx_it1@[vx_i1 - 1] == success_node); assert(known(self.nodes.map(), Status::Success, success_node)); }
//@end
}

// ---- the nodes suggested next
/// ASSUMED contracts: std VecDeque.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
pub struct State { pub bounds: Bounds, pub statuses: IndexMap<Node, Status> }
pub struct Iter<'a> { pub graph: &'a G, pub strategy: &'a BasicStrategy, pub seen: HashSet<Node>, pub states: VecDeque<State> }
impl State {
    pub open spec fn open(&self, g: &G, n: Node) -> bool { remains(g, self.bounds.success@, self.bounds.failure@, self.statuses.map(), n) }
    pub open spec fn done(&self, g: &G) -> bool { forall|n: Node| !#[trigger] self.open(g, n) }
    /// A speculation about the search `o`: what it leaves open is open in `o`.
    pub open spec fn within(&self, g: &G, o: &State) -> bool { self.statuses.wf() && forall|n: Node| #[trigger] self.open(g, n) ==> o.open(g, n) }
}
pub proof fn lemma_speculate(g: &G, success: Set<Node>, failure: Set<Node>, m: Map<Node, Status>, node: Node)
    requires g.wf()
    ensures
        forall|f: Set<Node>, n: Node| g.roots_are(failure.insert(node), f) && #[trigger] remains(g, success, f, m.insert(node, Status::Failure), n) ==> remains(g, success, failure, m, n),
        forall|s: Set<Node>, n: Node| g.heads_are(success.insert(node), s) && #[trigger] remains(g, s, failure, m.insert(node, Status::Success), n) ==> remains(g, success, failure, m, n),
{
    assert forall|f: Set<Node>, n: Node| g.roots_are(failure.insert(node), f) && #[trigger] remains(g, success, f, m.insert(node, Status::Failure), n) implies remains(g, success, failure, m, n) by {
        g.lemma_roots(failure.insert(node), f);
        if g.above(failure, n) { let y = choose|y: Node| failure.contains(y) && #[trigger] g.anc(y, n); assert(failure.insert(node).contains(y)); assert(g.above(failure.insert(node), n)); assert(g.above(f, n)); }
    }
    assert forall|s: Set<Node>, n: Node| g.heads_are(success.insert(node), s) && #[trigger] remains(g, s, failure, m.insert(node, Status::Success), n) implies remains(g, success, failure, m, n) by {
        g.lemma_heads(success.insert(node), s);
        if g.below(success, n) { let y = choose|y: Node| success.contains(y) && #[trigger] g.anc(n, y); assert(success.insert(node).contains(y)); assert(g.below(success.insert(node), n)); assert(g.below(s, n)); }
    }
}
/// What the strategy picks remains; it picks nothing only when nothing does.
pub proof fn lemma_picked(k: BasicStrategyKind, g: &G, success: Set<Node>, failure: Set<Node>, m: &IndexMap<Node, Status>, r: Option<Node>)
    requires m.wf(), picks(k, g, success, failure, m.map(), m.keys(), r)
    ensures r is Some ==> remains(g, success, failure, m.map(), r->Some_0), r is None ==> forall|n: Node| !#[trigger] remains(g, success, failure, m.map(), n)
{
    let p = choose|p: Seq<int>| #[trigger] positions(g, success, failure, m.map(), m.keys(), p) && picked(k, m.keys(), p, r);
    if p.len() > 0 { assert(remains(g, success, failure, m.map(), m.keys()[p[0]])); assert(remains(g, success, failure, m.map(), m.keys()[p[p.len() - 1]])); assert(remains(g, success, failure, m.map(), m.keys()[p[p.len() as int / 2]])); assert(remains(g, success, failure, m.map(), m.keys()[p[(p.len() - 1) / 2]])); }
    else {
        assert forall|n: Node| !#[trigger] remains(g, success, failure, m.map(), n) by {
            if remains(g, success, failure, m.map(), n) { assert(m.keys().contains(n)); let i = choose|i: int| 0 <= i < m.keys().len() && m.keys()[i] == n; assert(remains(g, success, failure, m.map(), m.keys()[i])); assert(p.contains(i)); }
        }
    }
}
impl<'a> Iter<'a> {
    pub open spec fn ok(&self, o: &State) -> bool { self.graph.wf() && forall|i: int| 0 <= i < self.states@.len() ==> (#[trigger] self.states@[i]).within(self.graph, o) }
//@fn scm-bisect/src/search.rs::Search::search::Iterator@Iter::next
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@sig
pub fn next(&mut self, Ghost(o): Ghost<&State>) -> (r: Option<Result<Node, SearchError>>)
//@contract
    requires old(self).ok(o)
    ensures
        final(self).graph == old(self).graph, final(self).strategy == old(self).strategy,
        r is Some && r->Some_0 is Ok ==> final(self).ok(o) && o.open(old(self).graph, r->Some_0->Ok_0) && !old(self).seen@.contains(r->Some_0->Ok_0) && final(self).seen@ == old(self).seen@.insert(r->Some_0->Ok_0),
        r is Some && r->Some_0 is Err ==> !(r->Some_0->Err_0 is AlreadySearchedMidpoint),
        r is None && old(self).seen@ == Set::<Node>::empty() ==> forall|i: int| 0 <= i < old(self).states@.len() ==> (#[trigger] old(self).states@[i]).done(old(self).graph),
//@prologue
    let ghost mut k: int = 0;
    proof { assert(self.states@ =~= old(self).states@.subrange(0, old(self).states@.len() as int)); }
//@loop 0 while let Some (state) = self . states . pop_front ()
    invariant self.ok(o), self.graph == old(self).graph, self.strategy == old(self).strategy, self.seen@ == old(self).seen@,
        old(self).seen@ == Set::<Node>::empty() ==> 0 <= k <= old(self).states@.len() && self.states@ == old(self).states@.subrange(k, old(self).states@.len() as int)
            && forall|i: int| 0 <= i < k ==> (#[trigger] old(self).states@[i]).done(old(self).graph),
    ensures self.ok(o), self.graph == old(self).graph, self.strategy == old(self).strategy, self.states@.len() == 0,
        old(self).seen@ == Set::<Node>::empty() ==> forall|i: int| 0 <= i < old(self).states@.len() ==> (#[trigger] old(self).states@[i]).done(old(self).graph),
//@body_start 0
    let ghost st = state;
    let ghost before = self.states@;
    proof {
        assert(st.within(self.graph, o));
        k = k + 1;
        assert forall|r: Option<Node>| #[trigger] picks(self.strategy.strategy, self.graph, st.bounds.success@, st.bounds.failure@, st.statuses.map(), st.statuses.keys(), r)
            implies (r is Some ==> st.open(self.graph, r->Some_0)) && (r is None ==> st.done(self.graph)) by {
            lemma_picked(self.strategy.strategy, self.graph, st.bounds.success@, st.bounds.failure@, &st.statuses, r);
        }
    }
//@after_let node
    proof {
        assert(st.open(self.graph, node));
        lemma_speculate(self.graph, st.bounds.success@, st.bounds.failure@, st.statuses.map(), node);
        assert forall|s: State| s.statuses.wf() && s.bounds.success@ == st.bounds.success@ && self.graph.roots_are(st.bounds.failure@.insert(node), s.bounds.failure@) && s.statuses.map() == st.statuses.map().insert(node, Status::Failure)
            implies #[trigger] s.within(self.graph, o) by {
            assert forall|n: Node| #[trigger] s.open(self.graph, n) implies o.open(self.graph, n) by { assert(st.open(self.graph, n)); }
        }
        assert forall|s: State| s.statuses.wf() && s.bounds.failure@ == st.bounds.failure@ && self.graph.heads_are(st.bounds.success@.insert(node), s.bounds.success@) && s.statuses.map() == st.statuses.map().insert(node, Status::Success)
            implies #[trigger] s.within(self.graph, o) by {
            assert forall|n: Node| #[trigger] s.open(self.graph, n) implies o.open(self.graph, n) by { assert(st.open(self.graph, n)); }
        }
    }
//@loop 1 for success_node in success . iter ()
    invariant 0 <= vx_i1 <= vx_it1@.len(), (&success).vx_seq(vx_it1@), !self.graph.below(success@, node)
    decreases vx_it1@.len() - vx_i1
//@body_start 1
    proof { assert(vx_it1@[vx_i1 - 1] == success_node); assert(success@.contains(*success_node)); }
//@loop 2 for failure_node in failure . iter ()
    invariant 0 <= vx_i2 <= vx_it2@.len(), (&failure).vx_seq(vx_it2@), !self.graph.above(failure@, node)
    decreases vx_it2@.len() - vx_i2
//@body_start 2
    proof { assert(vx_it2@[vx_i2 - 1] == failure_node); assert(failure@.contains(*failure_node)); }
//@end
}

pub struct LazySolution<'a> { pub bounds: Bounds, pub next_to_search: Iter<'a> }
//@rule Box::new(__A) => __A
//@rule Default::default() => VxDefault::vx_default()
//@rule [__A].into_iter().collect() => vx_single(__A)
#[verifier::external_body]
pub fn vx_single(s: State) -> (r: VecDeque<State>) ensures r@ == seq![s] { unimplemented!() }
/// Not tested yet and not implied by a result.
pub open spec fn undecided(g: &G, m: Map<Node, Status>, n: Node) -> bool { untested(m, n) && !implied_success(g, m, n) && !implied_failure(g, m, n) }
impl Search {
//@fn scm-bisect/src/search.rs::Search::new
//@sig
pub fn new(graph: G, search_nodes: Vec<Node>) -> (r: Search)
//@contract
    ensures r.graph == graph, r.nodes.wf(), forall|n: Node| #[trigger] r.nodes.map().dom().contains(n) <==> search_nodes@.contains(n), forall|n: Node| #[trigger] r.nodes.map().dom().contains(n) ==> r.nodes.map()[n] == Status::Untested
//@closures 1
//@closure 0
    -> (c: (Node, Status)) ensures c == ($0, Status::Untested)
//@end
//@fn scm-bisect/src/search.rs::Search::search
//@sig
pub fn search<'a>(&'a self, strategy: &'a BasicStrategy) -> (r: Result<LazySolution<'a>, SearchError>)
//@contract
    requires self.nodes.wf(), self.graph.wf()
    ensures
        r is Err ==> r->Err_0 is Graph,
        r is Ok ==> {
            let s = r->Ok_0;
            &&& success_heads(&self.graph, self.nodes.map(), s.bounds.success@) && failure_roots(&self.graph, self.nodes.map(), s.bounds.failure@)
            &&& s.next_to_search.graph == &self.graph && s.next_to_search.strategy == strategy && s.next_to_search.seen@ == Set::<Node>::empty()
            &&& s.next_to_search.states@.len() == 1 && s.next_to_search.ok(&s.next_to_search.states@[0])
            &&& forall|n: Node| #[trigger] s.next_to_search.states@[0].open(&self.graph, n) <==> undecided(&self.graph, self.nodes.map(), n)
        }
//@end
}
} // verus!
