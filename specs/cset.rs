// Sets of commits (eden_dag's set algebra, assumed).
verus! {
/// A set of commits.
#[verifier::external_body]
pub struct CommitSet { x: u64 }
impl CommitSet {
    pub uninterp spec fn view(&self) -> Set<NonZeroOid>;
    #[verifier::external_body]
    pub fn union(&self, o: &CommitSet) -> (r: CommitSet) ensures r@ == self@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(&self, o: &CommitSet) -> (r: CommitSet) ensures r@ == self@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference(&self, o: &CommitSet) -> (r: CommitSet) ensures r@ == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: CommitSet) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: CommitSet) ensures r@ == Set::<NonZeroOid>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(o: NonZeroOid) -> (r: CommitSet) ensures r@ == Set::<NonZeroOid>::empty().insert(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: EyreResult<bool>) ensures r is Ok ==> r->Ok_0 == (self@.len() == 0) && (r->Ok_0 <==> self@ == Set::<NonZeroOid>::empty()) && (!r->Ok_0 ==> self@.contains(self@.choose())) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: &NonZeroOid) -> (r: EyreResult<bool>) ensures r is Ok ==> r->Ok_0 == self@.contains(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: EyreResult<usize>) ensures r is Ok ==> r->Ok_0 == self@.len() { unimplemented!() }
}
impl VxFromIter<NonZeroOid> for CommitSet {
    open spec fn vx_from(s: Seq<NonZeroOid>, r: Self) -> bool { forall|x: NonZeroOid| #[trigger] r@.contains(x) <==> s.contains(x) }
}
pub open spec fn union_of(v: Seq<CommitSet>) -> Set<NonZeroOid> decreases v.len() { if v.len() == 0 { Set::empty() } else { union_of(v.drop_last()).union(v.last()@) } }
pub proof fn lemma_union_of(v: Seq<CommitSet>, o: NonZeroOid)
    ensures union_of(v).contains(o) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(o)
    decreases v.len()
{
    if v.len() > 0 {
        lemma_union_of(v.drop_last(), o);
        if union_of(v.drop_last()).contains(o) { let i = choose|i: int| 0 <= i < v.drop_last().len() && (#[trigger] v.drop_last()[i])@.contains(o); assert(v[i]@.contains(o)); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(o) {
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.contains(o);
            if i < v.len() - 1 { assert(v.drop_last()[i]@.contains(o)); }
        }
    }
}
pub proof fn lemma_union_fold(v: Seq<CommitSet>, a: Seq<CommitSet>, n: int)
    requires a.len() == v.len() + 1, a[0]@ == Set::<NonZeroOid>::empty(), 0 <= n <= v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] a[i + 1]@ == a[i]@.union(v[i]@),
    ensures a[n]@ == union_of(v.take(n))
    decreases n
{
    if n > 0 { lemma_union_fold(v, a, n - 1); assert(v.take(n).drop_last() =~= v.take(n - 1)); assert(a[(n - 1) + 1]@ == a[n - 1]@.union(v[n - 1]@)); }
}
//@fn git-branchless-lib/src/core/dag.rs::union_all
//@sig
pub fn union_all(commits: &Vec<CommitSet>) -> (r: CommitSet)
//@contract
    ensures r@ == union_of(commits@)
//@closure 0
    -> (s: CommitSet) ensures s@ == $0@.union($1@)
//@epilogue
    proof {
        let a = vx_acc(vx_refs(commits@), vx_ret);
        assert forall|i: int| 0 <= i < commits@.len() implies #[trigger] a[i + 1]@ == a[i]@.union(commits@[i]@) by { assert(vx_refs(commits@)[i]@ == commits@[i]@); }
        lemma_union_fold(commits@, a, commits@.len() as int);
        assert(commits@.take(commits@.len() as int) =~= commits@);
    }
//@end
} // verus!
