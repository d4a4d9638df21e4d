// C09: visible, draft and public commits.

//@rule __A.into() => __A
//@rule __C.get_or_try_init(__F) => vx_once(&__C, __F)
//@rule Self::open_inner_dag(__R) => vx_inner(__R)
//@rule self.inner.add_heads_and_flush(__P, &VertexListWithOptions::from(__H)) => self.inner.add_heads(__H)
//@rule futures::executor::block_on(__F) => __F
//@rule CommitVertex::from(__V) => __V
//@rule [__A, __B].concat() => vx_concat(__A, __B)
//@drop_let effects.start_operation(__A)
//@drop_let effects
//@drop_let repo.try_clone()?
//@type eden_dag::Dag => Inner
//@type eden_dag::Result => EyreResult
verus! {
/// The commit graph (eden_dag, assumed): ancestry is reflexive and transitive; queries are as documented there.
#[verifier::external_body]
pub struct Inner { x: u64 }
/// A cell computed on first use. It is only ever filled by the function that reads it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OnceCell<T> { x: std::marker::PhantomData<T> }
impl<T> OnceCell<T> {
    pub uninterp spec fn cached(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.cached() is None { unimplemented!() }
}
impl<T> Default for OnceCell<T> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.cached() is None { unimplemented!() }
}
//@rule Default::default() => VxDefault::vx_default()
impl<T> VxDefault for OnceCell<T> {
    open spec fn vx_is_default(&self) -> bool { self.cached() is None }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_once<'a, T, F: Fn() -> EyreResult<T>>(c: &'a OnceCell<T>, f: F) -> (r: EyreResult<&'a T>)
    requires f.requires(()),
    ensures r is Ok ==> c.cached() == Some(*r->Ok_0) || f.ensures((), Ok(*r->Ok_0))
{ unimplemented!() }
#[verifier::external_body]
pub struct Effects { x: u64 }
pub enum Group { Master, NonMaster }
impl Group { pub const MASTER: Group = Group::Master; }
pub struct VertexOptions { pub highest_group: Group }
impl VertexOptions { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Clone for VertexOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_concat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
pub type S = Set<NonZeroOid>;
impl Inner {
    pub uninterp spec fn anc(&self, a: NonZeroOid, b: NonZeroOid) -> bool;
    pub uninterp spec fn parent(&self, a: NonZeroOid, b: NonZeroOid) -> bool;
    pub uninterp spec fn known(&self, a: NonZeroOid) -> bool;
    /// the parents in order; the n-th commit when always going to the first parent
    pub uninterp spec fn parents_of(&self, a: NonZeroOid) -> Seq<NonZeroOid>;
    pub uninterp spec fn firsts(&self, a: NonZeroOid, n: u64) -> Option<NonZeroOid>;
    #[verifier::external_body]
    pub fn first_ancestor_nth(&self, a: NonZeroOid, n: u64) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok ==> r->Ok_0 == self.firsts(a, n) { unimplemented!() }
    /// an ancestor of (or in) / a descendant of (or in)
    pub open spec fn up(&self, s: S, x: NonZeroOid) -> bool { exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && self.anc(x, y) }
    pub open spec fn down(&self, s: S, x: NonZeroOid) -> bool { exists|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && self.anc(y, x) }
    pub open spec fn are_heads(&self, s: S, r: S) -> bool {
        &&& forall|x: NonZeroOid| #[trigger] r.contains(x) <==> s.contains(x) && forall|y: NonZeroOid| #[trigger] s.contains(y) ==> !self.parent(x, y)
        &&& forall|x: NonZeroOid| #[trigger] s.contains(x) ==> self.up(r, x)
    }
    pub open spec fn are_roots(&self, s: S, r: S) -> bool {
        &&& forall|x: NonZeroOid| #[trigger] r.contains(x) <==> s.contains(x) && forall|y: NonZeroOid| #[trigger] s.contains(y) ==> !self.parent(y, x)
        &&& forall|x: NonZeroOid| #[trigger] s.contains(x) ==> self.down(r, x)
    }
    pub open spec fn adj(&self, a: NonZeroOid, b: NonZeroOid) -> bool { self.parent(a, b) || self.parent(b, a) }
    #[verifier::external_body]
    pub fn ancestors(&self, s: CommitSet) -> (r: EyreResult<CommitSet>) ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.up(s@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn descendants(&self, s: CommitSet) -> (r: EyreResult<CommitSet>) ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.down(s@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self, a: CommitSet, b: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.down(a@, x) && self.up(b@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn only(&self, a: CommitSet, b: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.up(a@, x) && !self.up(b@, x) { unimplemented!() }
    /// Those in the set without a child (parent) in it; everything in the set is below (above) one of them.
    #[verifier::external_body]
    pub fn heads(&self, s: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> self.are_heads(s@, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn roots(&self, s: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> self.are_roots(s@, r->Ok_0@) { unimplemented!() }
    /// Those in the set without a descendant in it.
    #[verifier::external_body]
    pub fn heads_ancestors(&self, s: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> s@.contains(x) && forall|y: NonZeroOid| #[trigger] s@.contains(y) && y != x ==> !self.anc(x, y) { unimplemented!() }
    #[verifier::external_body]
    pub fn parents(&self, s: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger s@.contains(y)] s@.contains(y) && self.parent(x, y) { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self, s: CommitSet) -> (r: EyreResult<CommitSet>)
        ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger s@.contains(y)] s@.contains(y) && self.parent(y, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ancestor(&self, a: NonZeroOid, b: NonZeroOid) -> (r: EyreResult<bool>) ensures r is Ok ==> r->Ok_0 == self.anc(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_names(&self, a: NonZeroOid) -> (r: EyreResult<Vec<NonZeroOid>>) ensures r is Ok ==> r->Ok_0@ == self.parents_of(a), r is Ok ==> forall|p: NonZeroOid| #[trigger] r->Ok_0@.contains(p) <==> self.parent(p, a) { unimplemented!() }
    /// Children first (assumed); each commit once.
    #[verifier::external_body]
    pub fn sort(&self, s: &CommitSet) -> (r: EyreResult<CommitSet>) ensures r is Ok ==> r->Ok_0@ == s@ && children_first(self, r->Ok_0.order()) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_heads(&mut self, v: Vec<(NonZeroOid, VertexOptions)>) -> (r: EyreResult<()>)
        ensures r is Ok ==> grew(old(self), final(self)), r is Ok ==> forall|i: int| 0 <= i < v@.len() ==> final(self).known((#[trigger] v@[i]).0) { unimplemented!() }
}
/// Commits are only added, with all their ancestors; the history of a known commit does not change.
pub open spec fn grew(a: &Inner, b: &Inner) -> bool {
    &&& forall|x: NonZeroOid| #[trigger] a.known(x) ==> b.known(x)
    &&& forall|x: NonZeroOid, y: NonZeroOid| a.known(y) ==> (#[trigger] a.anc(x, y) <==> b.anc(x, y))
    &&& forall|x: NonZeroOid, y: NonZeroOid| a.known(y) ==> (#[trigger] b.anc(x, y) <==> a.anc(x, y))
    &&& forall|x: NonZeroOid, y: NonZeroOid| a.known(y) ==> (#[trigger] a.parent(x, y) <==> b.parent(x, y))
}
#[verifier::external_body]
pub proof fn axiom_known(d: &Inner) ensures forall|x: NonZeroOid, y: NonZeroOid| d.known(y) && #[trigger] d.anc(x, y) ==> d.known(x) {}
pub open spec fn children_first(d: &Inner, v: Seq<NonZeroOid>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() && d.anc(#[trigger] v[i], #[trigger] v[j]) ==> v[i] == v[j] }
pub open spec fn parents_first(d: &Inner, v: Seq<NonZeroOid>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() && d.anc(#[trigger] v[j], #[trigger] v[i]) ==> v[i] == v[j] }
#[verifier::external_body]
pub proof fn axiom_anc(d: &Inner)
    ensures forall|a: NonZeroOid| #[trigger] d.anc(a, a),
        forall|a: NonZeroOid, b: NonZeroOid, c: NonZeroOid| #[trigger] d.anc(a, b) && #[trigger] d.anc(b, c) ==> d.anc(a, c)
{}
/// An ancestor other than the commit itself is one of a parent; no commit is an ancestor of its parents.
#[verifier::external_body]
pub proof fn axiom_parent(d: &Inner)
    ensures forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.parent(a, b) ==> d.anc(a, b) && !d.anc(b, a),
        forall|a: NonZeroOid, b: NonZeroOid| #[trigger] d.anc(a, b) && a != b ==> exists|p: NonZeroOid| #[trigger] d.parent(p, b) && d.anc(a, p)
{}
#[verifier::external_body]
pub fn vx_inner(r: &Repo) -> EyreResult<Inner> { unimplemented!() }
impl CommitSet {
    /// The order of iteration.
    pub uninterp spec fn order(&self) -> Seq<NonZeroOid>;
}
//@item git-branchless-lib/src/core/dag.rs::Dag
pub open spec fn is_obsolete(rep: &EventReplayer, c: EventCursor, o: NonZeroOid) -> bool { status_of(hist(rep.upto(c), o)) is Obsolete }
/// What the graph was told: the commits observed, those hidden, and where the references are.
pub open spec fn told(d: &Dag, rep: &EventReplayer, c: EventCursor, s: &RepoReferencesSnapshot) -> bool {
    &&& forall|o: NonZeroOid| #[trigger] d.observed_commits@.contains(o) <==> hist(rep.upto(c), o).len() > 0
    &&& forall|o: NonZeroOid| #[trigger] d.obsolete_commits@.contains(o) <==> is_obsolete(rep, c, o)
    &&& forall|o: NonZeroOid| #[trigger] d.head_commit@.contains(o) <==> s.head_oid == Some(o)
    &&& forall|o: NonZeroOid| #[trigger] d.main_branch_commit@.contains(o) <==> o == s.main_branch_oid
    &&& forall|o: NonZeroOid| #[trigger] d.branch_commits@.contains(o) <==> s.branch_oid_to_names@.dom().contains(o)
}
impl Dag {
    pub open spec fn live(&self, o: NonZeroOid) -> bool {
        (self.observed_commits@.contains(o) && !self.obsolete_commits@.contains(o)) || self.head_commit@.contains(o) || self.main_branch_commit@.contains(o) || self.branch_commits@.contains(o)
    }
    /// Not hidden, pointed to, or an ancestor of such a commit.
    pub open spec fn is_visible(&self, x: NonZeroOid) -> bool { exists|y: NonZeroOid| #![trigger self.live(y)] self.live(y) && self.inner.anc(x, y) }
    pub open spec fn is_public(&self, x: NonZeroOid) -> bool { self.inner.up(self.main_branch_commit@, x) }
    pub open spec fn is_draft(&self, x: NonZeroOid) -> bool { self.is_visible(x) && !self.is_public(x) }
    pub open spec fn heads_ok(&self, s: S) -> bool { forall|x: NonZeroOid| #[trigger] self.inner.up(s, x) <==> self.is_visible(x) }
    pub open spec fn visible_ok(&self, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> self.is_visible(x) }
    pub open spec fn public_ok(&self, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> self.is_public(x) }
    pub open spec fn draft_ok(&self, s: S) -> bool { forall|x: NonZeroOid| #[trigger] s.contains(x) <==> self.is_draft(x) }
    pub open spec fn wf(&self) -> bool {
        &&& self.visible_heads.cached() is Some ==> self.heads_ok(self.visible_heads.cached()->Some_0@)
        &&& self.visible_commits.cached() is Some ==> self.visible_ok(self.visible_commits.cached()->Some_0@)
        &&& self.public_commits.cached() is Some ==> self.public_ok(self.public_commits.cached()->Some_0@)
        &&& self.draft_commits.cached() is Some ==> self.draft_ok(self.draft_commits.cached()->Some_0@)
    }
    /// The graph has every commit it was told of.
    pub open spec fn ready(&self) -> bool {
        forall|o: NonZeroOid| self.observed_commits@.contains(o) || self.head_commit@.contains(o) || self.main_branch_commit@.contains(o) || self.branch_commits@.contains(o) ==> #[trigger] self.inner.known(o)
    }
    pub open spec fn in_stack(&self, s: S, x: NonZeroOid) -> bool {
        self.is_draft(x) && exists|d: NonZeroOid| #![trigger self.is_draft(d)] self.is_draft(d) && self.inner.anc(d, x) && self.inner.up(s, d)
    }
    #[verifier::external_body]
    pub fn commit_set_to_vec(&self, s: &CommitSet) -> (r: EyreResult<Vec<NonZeroOid>>)
        ensures r is Ok ==> r->Ok_0@ == s.order() && r->Ok_0@.no_duplicates() && forall|o: NonZeroOid| #![trigger r->Ok_0@.contains(o)] #![trigger s@.contains(o)] r->Ok_0@.contains(o) <==> s@.contains(o) { unimplemented!() }

//@fn git-branchless-lib/src/core/dag.rs::Dag::try_clone
//@contract
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.observed_commits@ == self.observed_commits@ && r->Ok_0.obsolete_commits@ == self.obsolete_commits@
        && r->Ok_0.head_commit@ == self.head_commit@ && r->Ok_0.main_branch_commit@ == self.main_branch_commit@ && r->Ok_0.branch_commits@ == self.branch_commits@
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::open_without_syncing
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures r is Ok ==> r->Ok_0.wf() && told(&r->Ok_0, event_replayer, event_cursor, references_snapshot)
//@closure 0
    -> (b: bool) ensures b == is_obsolete(event_replayer, event_cursor, *$0)
//@after_let observed_commits#0
    let ghost seen = observed_commits@;
//@after_let obsolete_commits
    proof {
        assert forall|o: NonZeroOid| #[trigger] obsolete_commits@.contains(o) <==> is_obsolete(event_replayer, event_cursor, o) by {
            if is_obsolete(event_replayer, event_cursor, o) { assert(seen.contains(o)); }
        }
    }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::sync_from_oids
//@contract
    requires old(self).wf()
    ensures
        r is Ok ==> grew(&old(self).inner, &final(self).inner), r is Ok && old(self).ready() ==> final(self).wf() && final(self).ready(),
        r is Ok ==> forall|o: NonZeroOid| #[trigger] final(self).inner.known(o) || !(master_heads@.contains(o) || non_master_heads@.contains(o)),
        final(self).observed_commits == old(self).observed_commits, final(self).obsolete_commits == old(self).obsolete_commits,
        final(self).head_commit == old(self).head_commit, final(self).main_branch_commit == old(self).main_branch_commit, final(self).branch_commits == old(self).branch_commits,
//@closure 0
    -> (p: (NonZeroOid, VertexOptions)) ensures p.0 == $0
//@closure 1
    -> (p: (NonZeroOid, VertexOptions)) ensures p.0 == $0
//@prologue
    let ghost before = *old(self);
    let ghost ms = master_heads@;
    let ghost ns = non_master_heads@;
//@after_let heads
    let ghost hs = heads@;
    proof {
        assert forall|o: NonZeroOid| ms.contains(o) || ns.contains(o) implies exists|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).0 == o by {
            if ms.contains(o) {
                let i = choose|i: int| 0 <= i < master_heads@.len() && (#[trigger] master_heads@[i]).0 == o;
                assert(hs[i].0 == o);
            } else {
                let i = choose|i: int| 0 <= i < non_master_heads@.len() && (#[trigger] non_master_heads@[i]).0 == o;
                assert(hs[master_heads@.len() + i].0 == o);
            }
        }
    }
//@epilogue
    proof {
        if vx_ret is Ok {
            assert forall|o: NonZeroOid| ms.contains(o) || ns.contains(o) implies #[trigger] self.inner.known(o) by {
                let i = choose|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).0 == o;
                assert(self.inner.known(hs[i].0));
            }
            if before.ready() { lemma_grew(&before, self); }
        }
    }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::set_cursor
//@contract
    requires event_replayer.wf(), event_replayer.cursor_ok(event_cursor)
    ensures r is Ok ==> r->Ok_0.wf() && exists|s: RepoReferencesSnapshot| #[trigger] told(&r->Ok_0, event_replayer, event_cursor, &s)
        && s.head_oid == head_at(event_replayer.upto(event_cursor)) && s.main_branch_oid == main_at(event_replayer.upto(event_cursor), repo)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::clear_obsolete_commits
//@contract
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.obsolete_commits@ == Set::<NonZeroOid>::empty() && r->Ok_0.observed_commits@ == self.observed_commits@
        && r->Ok_0.head_commit@ == self.head_commit@ && r->Ok_0.main_branch_commit@ == self.main_branch_commit@ && r->Ok_0.branch_commits@ == self.branch_commits@
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::sort
//@contract
    ensures r is Ok ==> r->Ok_0@.no_duplicates() && parents_first(&self.inner, r->Ok_0@) && forall|o: NonZeroOid| #[trigger] r->Ok_0@.contains(o) <==> commit_set@.contains(o)
//@after_let commit_oids
    let ghost v = commit_oids@;
    proof {
        let w = vx_rev(v);
        assert forall|o: NonZeroOid| #[trigger] w.contains(o) <==> v.contains(o) by {
            if w.contains(o) { let i = w.index_of(o); assert(v[v.len() - 1 - i] == o); }
            if v.contains(o) { let i = v.index_of(o); assert(w[v.len() - 1 - i] == o); }
        }
    }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::set_is_empty
//@contract
    ensures r is Ok ==> (r->Ok_0 <==> commit_set@ == Set::<NonZeroOid>::empty()) && (!r->Ok_0 ==> commit_set@.contains(commit_set@.choose()))
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_parent_names
//@sig
pub fn query_parent_names(&self, vertex: NonZeroOid) -> (r: EyreResult<Vec<NonZeroOid>>)
//@contract
    ensures r is Ok ==> r->Ok_0@ == self.inner.parents_of(vertex), r is Ok ==> forall|p: NonZeroOid| #[trigger] r->Ok_0@.contains(p) <==> self.inner.parent(p, vertex)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_first_ancestor_nth
//@sig
pub fn query_first_ancestor_nth(&self, vertex: NonZeroOid, n: u64) -> (r: EyreResult<Option<NonZeroOid>>)
//@contract
    ensures r is Ok ==> r->Ok_0 == self.inner.firsts(vertex, n)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::set_count
//@contract
    ensures r is Ok ==> r->Ok_0 == commit_set@.len()
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::get_only_parent_oid
//@contract
    ensures r is Ok ==> self.inner.parent(r->Ok_0, oid) && forall|p: NonZeroOid| #[trigger] self.inner.parent(p, oid) ==> p == r->Ok_0
//@epilogue
    proof {
        if vx_ret is Ok {
            assert(Set::<NonZeroOid>::empty().insert(oid).contains(oid));
            assert(parents@.contains(vx_ret->Ok_0));
            assert forall|p: NonZeroOid| #[trigger] self.inner.parent(p, oid) implies p == vx_ret->Ok_0 by { assert(parents@.contains(p)); }
        }
    }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::is_public_commit
//@contract
    ensures r is Ok ==> r->Ok_0 == self.is_public(commit_oid)
//@loop 0 for main_branch_commit in main_branch_commits
    invariant 0 <= vx_i0 <= vx_it0@.len(), forall|o: NonZeroOid| #[trigger] vx_it0@.contains(o) <==> self.main_branch_commit@.contains(o),
        forall|i: int| 0 <= i < vx_i0 ==> !self.inner.anc(commit_oid, #[trigger] vx_it0@[i]),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof { assert(vx_it0@[vx_i0 - 1] == main_branch_commit); assert(vx_it0@.contains(main_branch_commit)); }
//@after_loop 0
    proof { assert forall|y: NonZeroOid| #[trigger] self.main_branch_commit@.contains(y) implies !self.inner.anc(commit_oid, y) by { assert(vx_it0@.contains(y)); } }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_is_ancestor
//@contract
    ensures r is Ok ==> r->Ok_0 == self.inner.anc(ancestor, descendant)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_public_commits_slow
//@contract
    requires self.wf()
    ensures r is Ok ==> self.public_ok(r->Ok_0@)
//@closure 0
    -> (s: EyreResult<CommitSet>) ensures s is Ok ==> self.public_ok(s->Ok_0@)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_visible_heads
//@contract
    requires self.wf()
    ensures r is Ok ==> self.heads_ok(r->Ok_0@)
//@closure 0
    -> (s: EyreResult<CommitSet>) ensures s is Ok ==> self.heads_ok(s->Ok_0@)
//@after_let visible_heads#0
    let ghost live = visible_heads@;
    proof { assert forall|o: NonZeroOid| live.contains(o) <==> #[trigger] self.live(o) by {} }
//@after_let visible_heads#1
    proof { lemma_heads(self, live, visible_heads@); }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_visible_commits_slow
//@contract
    requires self.wf()
    ensures r is Ok ==> self.visible_ok(r->Ok_0@)
//@closure 0
    -> (s: EyreResult<CommitSet>) ensures s is Ok ==> self.visible_ok(s->Ok_0@)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::filter_visible_commits
//@contract
    requires self.wf()
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> commits@.contains(x) && self.is_visible(x)
//@prologue
    proof { axiom_anc(&self.inner); }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_obsolete_commits
//@contract
    ensures r@ == self.obsolete_commits@
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_draft_commits
//@contract
    requires self.wf()
    ensures r is Ok ==> self.draft_ok(r->Ok_0@)
//@closure 0
    -> (s: EyreResult<CommitSet>) ensures s is Ok ==> self.draft_ok(s->Ok_0@)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_stack_commits
//@contract
    requires self.wf()
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.in_stack(commit_set@, x)
//@after_let stack_roots
    let ghost roots = stack_roots@;
//@after_let stack_ancestors
    let ghost above = stack_ancestors@;
//@epilogue
    proof { if vx_ret is Ok { lemma_stack(self, commit_set@, draft_commits@, roots, above, vx_ret->Ok_0@); } }
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_ancestors
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.inner.up(commit_set@, x)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_descendants
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.inner.down(commit_set@, x)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_children
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger commit_set@.contains(y)] commit_set@.contains(y) && self.inner.parent(y, x)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_parents
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> exists|y: NonZeroOid| #![trigger commit_set@.contains(y)] commit_set@.contains(y) && self.inner.parent(x, y)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_heads
//@contract
    ensures r is Ok ==> self.inner.are_heads(commit_set@, r->Ok_0@)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_heads_ancestors
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> commit_set@.contains(x) && forall|y: NonZeroOid| #[trigger] commit_set@.contains(y) && y != x ==> !self.inner.anc(x, y)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_roots
//@contract
    ensures r is Ok ==> self.inner.are_roots(commit_set@, r->Ok_0@)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_only
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.inner.up(reachable@, x) && !self.inner.up(unreachable@, x)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::query_range
//@contract
    ensures r is Ok ==> forall|x: NonZeroOid| #[trigger] r->Ok_0@.contains(x) <==> self.inner.down(roots@, x) && self.inner.up(heads@, x)
//@end
//@fn git-branchless-lib/src/core/dag.rs::Dag::get_connected_components
//@contract
    ensures r is Ok ==> is_components(&self.inner, commit_set@, r->Ok_0@)
//@loop 0 for commit in self . commit_set_to_vec (commit_set) ?
    invariant_except_break
        forall|i: int| 0 <= i < vx_i0 ==> !commits_to_connect@.contains(#[trigger] vx_it0@[i]),
    invariant
        0 <= vx_i0 <= vx_it0@.len(), component@ == Set::<NonZeroOid>::empty(), forall|o: NonZeroOid| #[trigger] vx_it0@.contains(o) <==> commit_set@.contains(o),
        partial(&self.inner, commit_set@, components@, commits_to_connect@),
    ensures
        commits_to_connect@.len() == 0 || (vx_i0 == vx_it0@.len() && forall|i: int| 0 <= i < vx_i0 ==> !commits_to_connect@.contains(#[trigger] vx_it0@[i])),
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost base = commits_to_connect@;
    let ghost comps0 = components@;
    proof { assert(vx_it0@[vx_i0 - 1] == commit); }
//@body_end 0
    proof {
        assert(components@.drop_last() =~= comps0);
        lemma_empty(commits@, commits@, Seq::empty());
        lemma_done(&self.inner, commit_set@, comps0, base, commit, components@, commits_to_connect@);
    }
//@loop 1 while !self . run_blocking (commits . is_empty ()) ?
    invariant base.contains(commit), growing(&self.inner, base, commit, component@, commits@, commits_to_connect@)
    decreases commits_to_connect@.len()
//@after_let commits
    proof { lemma_start(&self.inner, base, commit, component@, commits@); }
//@body_start 1
    let ghost c0 = component@; let ghost f0 = commits@; let ghost l0 = commits_to_connect@;
//@body_end 1
    proof { lemma_grow(&self.inner, base, commit, c0, f0, l0, commits@); }
//@after_loop 0
    proof { lemma_empty(commits_to_connect@, commit_set@, vx_it0@); }
//@after_let connected_commits#0
    proof {
        assert forall|x: NonZeroOid| #[trigger] connected_commits@.contains(x) <==> commit_set@.contains(x) by { lemma_union_of(components@, x); }
        assert(connected_commits@ =~= commit_set@);
        assert(commit_set@.intersect(connected_commits@) =~= commit_set@);
    }
//@end
}
pub proof fn lemma_empty(left: S, all: S, v: Seq<NonZeroOid>)
    requires left.len() == 0 || left.subset_of(all), left.len() == 0 || forall|o: NonZeroOid| #[trigger] v.contains(o) <==> all.contains(o),
        left.len() == 0 || forall|i: int| 0 <= i < v.len() ==> !left.contains(#[trigger] v[i]),
    ensures left == Set::<NonZeroOid>::empty()
{
    if left.len() == 0 { assert forall|o: NonZeroOid| !left.contains(o) by { if left.contains(o) { assert(left.remove(o).len() == left.len() - 1); } } }
    else { assert forall|o: NonZeroOid| !left.contains(o) by { if left.contains(o) { assert(all.contains(o)); assert(v.contains(o)); } } }
    assert(left =~= Set::<NonZeroOid>::empty());
}
pub proof fn lemma_start(d: &Inner, base: S, a: NonZeroOid, c: S, f: S)
    requires c == Set::<NonZeroOid>::empty(), base.contains(a), f == Set::<NonZeroOid>::empty().insert(a)
    ensures growing(d, base, a, c, f, base)
{
    assert(walk(d, c.union(f), seq![a], a, a));
}
pub proof fn lemma_walk_mono(d: &Inner, s: S, t: S, a: NonZeroOid, x: NonZeroOid)
    requires s.subset_of(t), linked(d, s, a, x)
    ensures linked(d, t, a, x)
{
    let p = choose|p: Seq<NonZeroOid>| walk(d, s, p, a, x);
    assert(walk(d, t, p, a, x));
}
pub proof fn lemma_grow(d: &Inner, base: S, a: NonZeroOid, c: S, f: S, left: S, f1: S)
    requires growing(d, base, a, c, f, left), f.len() != 0,
        forall|x: NonZeroOid| #[trigger] f1.contains(x) <==> left.difference(f).contains(x) && exists|y: NonZeroOid| #![trigger f.contains(y)] f.contains(y) && d.adj(x, y),
    ensures growing(d, base, a, c.union(f), f1, left.difference(f)), left.difference(f).len() < left.len()
{
    let c1 = c.union(f); let l1 = left.difference(f);
    assert forall|x: NonZeroOid| #![trigger c1.contains(x)] #![trigger f1.contains(x)] c1.contains(x) || f1.contains(x) implies linked(d, c1.union(f1), a, x) by {
        if c1.contains(x) { assert(linked(d, c.union(f), a, x)); lemma_walk_mono(d, c1, c1.union(f1), a, x); }
        else {
            let y = choose|y: NonZeroOid| #![trigger f.contains(y)] f.contains(y) && d.adj(x, y);
            assert(c.contains(y) || f.contains(y));
            assert(linked(d, c.union(f), a, y));
            let p = choose|p: Seq<NonZeroOid>| walk(d, c1, p, a, y);
            assert(walk(d, c1.union(f1), p.push(x), a, x));
        }
    }
    assert forall|x: NonZeroOid, y: NonZeroOid| #[trigger] c1.contains(x) && #[trigger] l1.contains(y) && d.adj(x, y) implies f1.contains(y) by {
        if c.contains(x) { assert(left.contains(y)); assert(f.contains(y)); } else { assert(f.contains(x) && d.adj(y, x)); }
    }
    let e = f.choose();
    assert(f.contains(e));
    assert(left.contains(e));
    vstd::set_lib::lemma_len_subset(l1, left.remove(e));
}
pub proof fn lemma_done(d: &Inner, all: S, cs: Seq<CommitSet>, base: S, a: NonZeroOid, cs1: Seq<CommitSet>, left: S)
    requires partial(d, all, cs, base), cs1.len() == cs.len() + 1, cs1.drop_last() == cs, base.contains(a),
        growing(d, base, a, cs1.last()@, Set::<NonZeroOid>::empty(), left)
    ensures partial(d, all, cs1, left), !left.contains(a)
{
    let c = cs1.last()@;
    let n = cs.len() as int;
    assert(c.union(Set::<NonZeroOid>::empty()) =~= c);
    assert forall|x: NonZeroOid, y: NonZeroOid| #[trigger] c.contains(x) && #[trigger] all.contains(y) && d.adj(x, y) implies c.contains(y) by {
        assert(base.contains(x));
        if !base.contains(y) {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i])@.contains(y);
            assert(d.adj(y, x)); assert(all.contains(x));
            assert(is_component(d, all, cs[i]@));
            assert(cs[i]@.contains(x));
            assert(false);
        }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] cs1[i] == cs[i] by { assert(cs1.drop_last()[i] == cs[i]); }
    assert(is_component(d, all, c)) by {
        assert(c.contains(a));
        assert forall|x: NonZeroOid| #[trigger] c.contains(x) implies all.contains(x) by { assert(base.contains(x)); }
    }
    assert forall|i: int| 0 <= i < cs1.len() implies is_component(d, all, (#[trigger] cs1[i])@) by { if i < n { assert(is_component(d, all, cs[i]@)); } }
    assert forall|i: int, j: int, x: NonZeroOid| 0 <= i < j < cs1.len() implies !(#[trigger] cs1[i]@.contains(x) && #[trigger] cs1[j]@.contains(x)) by {
        if cs1[i]@.contains(x) && cs1[j]@.contains(x) {
            if j == n { assert(cs[i]@.contains(x)); assert(base.contains(x)); }
            else { assert(cs[i]@.contains(x) && cs[j]@.contains(x)); }
        }
    }
    assert forall|x: NonZeroOid| #[trigger] all.contains(x) implies left.contains(x) || exists|i: int| 0 <= i < cs1.len() && (#[trigger] cs1[i])@.contains(x) by {
        if base.contains(x) { if !left.contains(x) { assert(cs1[n]@.contains(x)); } }
        else { let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i])@.contains(x); assert(cs1[i]@.contains(x)); }
    }
    assert forall|i: int, x: NonZeroOid| 0 <= i < cs1.len() && (#[trigger] cs1[i])@.contains(x) implies !(#[trigger] left.contains(x)) by {
        if left.contains(x) { assert(base.contains(x)); if i < n { assert(cs[i]@.contains(x)); } }
    }
}
/// What was computed about visible and public commits stays true as the graph grows.
pub proof fn lemma_grew(a: &Dag, b: &Dag)
    requires a.wf(), a.ready(), grew(&a.inner, &b.inner),
        b.observed_commits == a.observed_commits, b.obsolete_commits == a.obsolete_commits, b.head_commit == a.head_commit, b.main_branch_commit == a.main_branch_commit, b.branch_commits == a.branch_commits,
        b.visible_heads == a.visible_heads, b.visible_commits == a.visible_commits, b.public_commits == a.public_commits, b.draft_commits == a.draft_commits,
    ensures b.wf(), b.ready(), forall|x: NonZeroOid| #[trigger] b.is_visible(x) <==> a.is_visible(x), forall|x: NonZeroOid| #[trigger] b.is_public(x) <==> a.is_public(x)
{
    axiom_anc(&a.inner); axiom_known(&a.inner);
    assert forall|o: NonZeroOid| #[trigger] a.live(o) implies a.inner.known(o) by {}
    assert forall|x: NonZeroOid| #[trigger] b.is_visible(x) <==> a.is_visible(x) by {
        if b.is_visible(x) { let y = choose|y: NonZeroOid| #![trigger b.live(y)] b.live(y) && b.inner.anc(x, y); assert(a.live(y)); }
        if a.is_visible(x) { let y = choose|y: NonZeroOid| #![trigger a.live(y)] a.live(y) && a.inner.anc(x, y); assert(b.live(y)); }
    }
    assert forall|x: NonZeroOid| #[trigger] b.is_public(x) <==> a.is_public(x) by {
        let m = a.main_branch_commit@;
        if b.inner.up(m, x) { let y = choose|y: NonZeroOid| #![trigger m.contains(y)] m.contains(y) && b.inner.anc(x, y); assert(a.inner.known(y)); }
        if a.inner.up(m, x) { let y = choose|y: NonZeroOid| #![trigger m.contains(y)] m.contains(y) && a.inner.anc(x, y); assert(a.inner.known(y)); }
    }
    if a.visible_heads.cached() is Some {
        let s = a.visible_heads.cached()->Some_0@;
        assert forall|y: NonZeroOid| #[trigger] s.contains(y) implies a.inner.known(y) by {
            assert(a.inner.anc(y, y)); assert(a.inner.up(s, y)); assert(a.is_visible(y));
            let z = choose|z: NonZeroOid| #![trigger a.live(z)] a.live(z) && a.inner.anc(y, z);
        }
        assert forall|x: NonZeroOid| #[trigger] b.inner.up(s, x) <==> b.is_visible(x) by {
            if b.inner.up(s, x) { let y = choose|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && b.inner.anc(x, y); assert(a.inner.up(s, x)); }
            if b.is_visible(x) { assert(a.inner.up(s, x)); let y = choose|y: NonZeroOid| #![trigger s.contains(y)] s.contains(y) && a.inner.anc(x, y); }
        }
    }
    assert forall|o: NonZeroOid| b.observed_commits@.contains(o) || b.head_commit@.contains(o) || b.main_branch_commit@.contains(o) || b.branch_commits@.contains(o) implies #[trigger] b.inner.known(o) by { assert(a.inner.known(o)); }
}
pub proof fn lemma_heads(d: &Dag, live: S, h: S)
    requires forall|o: NonZeroOid| live.contains(o) <==> #[trigger] d.live(o), h.subset_of(live), forall|x: NonZeroOid| #[trigger] live.contains(x) ==> d.inner.up(h, x)
    ensures d.heads_ok(h)
{
    axiom_anc(&d.inner);
    assert forall|x: NonZeroOid| #[trigger] d.inner.up(h, x) <==> d.is_visible(x) by {
        if d.inner.up(h, x) { let y = choose|y: NonZeroOid| #![trigger h.contains(y)] h.contains(y) && d.inner.anc(x, y); assert(d.live(y)); }
        if d.is_visible(x) {
            let y = choose|y: NonZeroOid| #![trigger d.live(y)] d.live(y) && d.inner.anc(x, y);
            assert(live.contains(y)); assert(d.inner.up(h, y));
            let z = choose|z: NonZeroOid| #![trigger h.contains(z)] h.contains(z) && d.inner.anc(y, z);
            assert(d.inner.anc(x, z));
        }
    }
}
pub proof fn lemma_stack(d: &Dag, s: S, draft: S, roots: S, above: S, r: S)
    requires
        d.draft_ok(draft), roots.subset_of(draft), forall|x: NonZeroOid| #[trigger] draft.contains(x) ==> d.inner.down(roots, x),
        forall|x: NonZeroOid| #[trigger] above.contains(x) <==> d.inner.down(roots, x) && d.inner.up(s, x),
        forall|x: NonZeroOid| #[trigger] r.contains(x) <==> d.inner.down(above, x) && d.inner.up(draft, x),
    ensures forall|x: NonZeroOid| #[trigger] r.contains(x) <==> d.in_stack(s, x)
{
    axiom_anc(&d.inner);
    assert forall|x: NonZeroOid| #[trigger] r.contains(x) <==> d.in_stack(s, x) by {
        if r.contains(x) {
            let y = choose|y: NonZeroOid| #![trigger above.contains(y)] above.contains(y) && d.inner.anc(y, x);
            let z = choose|z: NonZeroOid| #![trigger roots.contains(z)] roots.contains(z) && d.inner.anc(z, y);
            let t = choose|t: NonZeroOid| #![trigger s.contains(t)] s.contains(t) && d.inner.anc(y, t);
            assert(draft.contains(z)); assert(d.is_draft(z)); assert(d.inner.anc(z, x)); assert(d.inner.anc(z, t)); assert(d.inner.up(s, z));
            let u = choose|u: NonZeroOid| #![trigger draft.contains(u)] draft.contains(u) && d.inner.anc(x, u);
            assert(d.is_draft(u));
            let v = choose|v: NonZeroOid| #![trigger d.live(v)] d.live(v) && d.inner.anc(u, v);
            assert(d.inner.anc(x, v)); assert(d.is_visible(x));
            if d.is_public(x) {
                let m = choose|m: NonZeroOid| #![trigger d.main_branch_commit@.contains(m)] d.main_branch_commit@.contains(m) && d.inner.anc(x, m);
                assert(d.inner.anc(z, m)); assert(d.is_public(z));
            }
        }
        if d.in_stack(s, x) {
            let e = choose|e: NonZeroOid| #![trigger d.is_draft(e)] d.is_draft(e) && d.inner.anc(e, x) && d.inner.up(s, e);
            assert(draft.contains(e)); assert(above.contains(e)); assert(draft.contains(x)); assert(d.inner.anc(x, x));
        }
    }
}
/// A walk from `a` to `b` inside `s`.
pub open spec fn walk(d: &Inner, s: S, p: Seq<NonZeroOid>, a: NonZeroOid, b: NonZeroOid) -> bool {
    &&& p.len() > 0 && p[0] == a && p.last() == b
    &&& forall|i: int| 0 <= i < p.len() ==> s.contains(#[trigger] p[i])
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> d.adj(#[trigger] p[i], p[i + 1])
}
pub open spec fn linked(d: &Inner, s: S, a: NonZeroOid, b: NonZeroOid) -> bool { exists|p: Seq<NonZeroOid>| walk(d, s, p, a, b) }
/// Connected, and nothing else of `all` is next to it.
pub open spec fn is_component(d: &Inner, all: S, c: S) -> bool {
    &&& c.subset_of(all)
    &&& exists|a: NonZeroOid| c.contains(a) && forall|x: NonZeroOid| #[trigger] c.contains(x) ==> linked(d, c, a, x)
    &&& forall|x: NonZeroOid, y: NonZeroOid| #[trigger] c.contains(x) && #[trigger] all.contains(y) && d.adj(x, y) ==> c.contains(y)
}
pub open spec fn partial(d: &Inner, all: S, cs: Seq<CommitSet>, left: S) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> is_component(d, all, (#[trigger] cs[i])@)
    &&& forall|i: int, j: int, x: NonZeroOid| 0 <= i < j < cs.len() ==> !(#[trigger] cs[i]@.contains(x) && #[trigger] cs[j]@.contains(x))
    &&& left.subset_of(all)
    &&& forall|x: NonZeroOid| #[trigger] all.contains(x) ==> left.contains(x) || exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i])@.contains(x)
    &&& forall|i: int, x: NonZeroOid| 0 <= i < cs.len() && (#[trigger] cs[i])@.contains(x) ==> !(#[trigger] left.contains(x))
}
pub open spec fn is_components(d: &Inner, all: S, cs: Seq<CommitSet>) -> bool { partial(d, all, cs, Set::<NonZeroOid>::empty()) }
pub open spec fn growing(d: &Inner, base: S, a: NonZeroOid, c: S, f: S, left: S) -> bool {
    &&& f.subset_of(left)
    &&& base.contains(a) && (c.contains(a) || f.contains(a))
    &&& forall|x: NonZeroOid| #[trigger] base.contains(x) <==> c.contains(x) || left.contains(x)
    &&& forall|x: NonZeroOid| #[trigger] c.contains(x) ==> !left.contains(x)
    &&& forall|x: NonZeroOid| #![trigger c.contains(x)] #![trigger f.contains(x)] c.contains(x) || f.contains(x) ==> linked(d, c.union(f), a, x)
    &&& forall|x: NonZeroOid, y: NonZeroOid| #[trigger] c.contains(x) && #[trigger] left.contains(y) && d.adj(x, y) ==> f.contains(y)
}
} // verus!
