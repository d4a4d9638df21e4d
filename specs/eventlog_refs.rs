//@rule ref_name_to_oid.remove(__X) => ref_name_to_oid.remove(&__X)
verus! {
//@item git-branchless-lib/src/core/repo_ext.rs::RepoReferencesSnapshot

/// The repository: opaque; only what the extracted code asks of it.
#[verifier::external_body]
pub struct Repo { x: u8 }
#[verifier::external_body]
pub struct Branch { x: u8 }
impl Repo {
    pub uninterp spec fn main_name(&self) -> ReferenceName;
    pub uninterp spec fn main_oid_now(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_main_branch(&self) -> (r: EyreResult<Branch>) ensures r is Ok ==> r->Ok_0.name() == self.main_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_main_branch_oid(&self) -> (r: EyreResult<NonZeroOid>) ensures r is Ok ==> r->Ok_0 == self.main_oid_now() { unimplemented!() }
}
impl Branch {
    pub uninterp spec fn name(&self) -> ReferenceName;
    #[verifier::external_body]
    pub fn get_reference_name(&self) -> (r: EyreResult<ReferenceName>) ensures r is Ok ==> r->Ok_0 == self.name() { unimplemented!() }
}
pub uninterp spec fn is_local_branch(r: ReferenceName) -> bool;
/// The name without `refs/heads/`.
pub uninterp spec fn short_name(r: ReferenceName) -> Seq<char>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum CategorizedReferenceName { LocalBranch { name: u64 }, RemoteBranch { name: u64 }, OtherRef { name: u64 } }
impl CategorizedReferenceName {
    /// assumed here; the categories themselves are checked by the executable contract
    #[verifier::external_body]
    pub fn new(r: &ReferenceName) -> (c: CategorizedReferenceName)
        ensures (c is LocalBranch) == is_local_branch(*r), c.suffix() == short_name(*r)
    { unimplemented!() }
    pub uninterp spec fn suffix(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn render_suffix(&self) -> (r: String) ensures r@ == self.suffix() { unimplemented!() }
}

pub open spec fn last_some<T>(s: Seq<Event>, g: spec_fn(Event) -> Option<T>) -> Option<T>
    decreases s.len()
{
    if s.len() == 0 { None } else if g(s.last()) is Some { g(s.last()) } else { last_some(s.drop_last(), g) }
}
pub open spec fn head_step(e: Event) -> Option<NonZeroOid> {
    match e {
        Event::RefUpdateEvent { ref_name, new_oid, .. } => match new_oid {
            MaybeZeroOid::NonZero(o) => if ref_text(ref_name) == "HEAD"@ { Some(o) } else { None },
            MaybeZeroOid::Zero => None },
        Event::CommitEvent { commit_oid, .. } => Some(commit_oid),
        Event::WorkingCopySnapshot { head_oid, .. } => match head_oid { MaybeZeroOid::NonZero(o) => Some(o), MaybeZeroOid::Zero => None },
        _ => None,
    }
}
pub open spec fn branch_step(name: ReferenceName, e: Event) -> Option<NonZeroOid> {
    match e {
        Event::RefUpdateEvent { ref_name, new_oid, .. } => match new_oid {
            MaybeZeroOid::NonZero(o) => if ref_name == name { Some(o) } else { None },
            MaybeZeroOid::Zero => None },
        _ => None,
    }
}
/// HEAD as of a prefix of the timeline.
pub open spec fn head_at(es: Seq<Event>) -> Option<NonZeroOid> { last_some(es, |e: Event| head_step(e)) }
/// Last recorded position of a reference in a prefix of the timeline.
pub open spec fn branch_at(es: Seq<Event>, name: ReferenceName) -> Option<NonZeroOid> { last_some(es, |e: Event| branch_step(name, e)) }

pub proof fn lemma_last_some<T>(s: Seq<Event>, g: spec_fn(Event) -> Option<T>, r: Option<T>)
    requires
        r is None ==> forall|i: int| 0 <= i < s.len() ==> g(*(#[trigger] vx_rev(vx_refs(s))[i])) is None,
        r is Some ==> exists|i: int| #![trigger vx_rev(vx_refs(s))[i]] 0 <= i < s.len() && g(*vx_rev(vx_refs(s))[i]) == r
            && (forall|j: int| 0 <= j < i ==> g(*(#[trigger] vx_rev(vx_refs(s))[j])) is None),
    ensures r == last_some(s, g)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert(*vx_rev(vx_refs(s))[0] == s.last());
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] vx_rev(vx_refs(p))[i] == vx_rev(vx_refs(s))[i + 1] by {}
        if g(s.last()) is None {
            if r is Some {
                let i = choose|i: int| #![trigger vx_rev(vx_refs(s))[i]] 0 <= i < s.len() && g(*vx_rev(vx_refs(s))[i]) == r
                    && (forall|j: int| 0 <= j < i ==> g(*(#[trigger] vx_rev(vx_refs(s))[j])) is None);
                assert(i > 0);
                assert(g(*vx_rev(vx_refs(p))[i - 1]) == r);
            }
            lemma_last_some(p, g, r);
        }
    }
}

pub proof fn lemma_locs_prefix(es: Seq<Event>, i: int)
    requires 0 <= i < es.len()
    ensures locs(es.take(i + 1)) == loc_step(locs(es.take(i)), es[i])
{
    assert(es.take(i + 1).drop_last() =~= es.take(i));
    assert(es.take(i + 1).last() == es[i]);
}

/// Names of local branches by position, plus the main branch.
pub open spec fn names_at(m: Map<ReferenceName, NonZeroOid>, oid: NonZeroOid, n: ReferenceName) -> bool {
    m.dom().contains(n) && m[n] == oid && is_local_branch(n)
}
pub open spec fn main_at(es: Seq<Event>, repo: &Repo) -> NonZeroOid {
    match branch_at(es, repo.main_name()) { Some(o) => o, None => repo.main_oid_now() }
}

impl EventReplayer {
//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_head_oid
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r == head_at(self.upto($0))
//@prologue
    broadcast use axiom_as_str;
//@closure 0
    -> (o: Option<NonZeroOid>) ensures o == head_step(*$0)
//@epilogue
    proof {
        assert(self.events@.subrange(0, $0.event_id as int) =~= self.upto($0));
        lemma_last_some(self.upto($0), |e: Event| head_step(e), vx_ret);
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_branch_oid
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r is Ok, r->Ok_0 == branch_at(self.upto($0), *$1)
//@closure 0
    -> (o: Option<NonZeroOid>) ensures o == branch_step(*reference_name, *$0)
//@epilogue
    proof {
        assert(self.events@.subrange(0, $0.event_id as int) =~= self.upto($0));
        lemma_last_some(self.upto($0), |e: Event| branch_step(*$1, e), vx_ret->Ok_0);
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_main_branch_oid
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r is Ok ==> r->Ok_0 == main_at(self.upto($0), $1)
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_cursor_branch_oid_to_names
//@contract
    requires self.wf(), self.cursor_ok($0)
    ensures r is Ok ==> forall|oid: NonZeroOid, n: ReferenceName| #[trigger] rmem(r->Ok_0@, oid, n) <==>
        (names_at(locs(self.upto($0)), oid, n) || (oid == main_at(self.upto($0), $1) && n == self.main_branch_reference_name))
//@prologue
    proof { assert(self.events@.subrange(0, $0.event_id as int) =~= self.upto($0)); }
//@loop 0 for event in self . events [.. cursor_event_id] . iter ()
    invariant
        self.wf(), self.cursor_ok(cursor), cursor_event_id == cursor.event_id,
        vx_it0@ == vx_refs(self.upto(cursor)), 0 <= vx_i0 <= vx_it0@.len(),
        forall|n: &ReferenceName| #[trigger] ref_name_to_oid@.dom().contains(n) <==> locs(self.upto(cursor).take(vx_i0 as int)).dom().contains(*n),
        forall|n: &ReferenceName| #[trigger] ref_name_to_oid@.dom().contains(n) ==> ref_name_to_oid@[n] == locs(self.upto(cursor).take(vx_i0 as int))[*n],
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof { lemma_locs_prefix(self.upto(cursor), vx_i0 - 1); }
//@after_loop 0
    proof { assert(self.upto(cursor).take(vx_i0 as int) =~= self.upto(cursor)); }
//@loop 1 for (ref_name , ref_oid) in ref_name_to_oid . iter ()
    invariant
        self.wf(), self.cursor_ok(cursor),
        (&ref_name_to_oid).vx_seq(vx_it1@), 0 <= vx_i1 <= vx_it1@.len(),
        forall|n: &ReferenceName| #[trigger] ref_name_to_oid@.dom().contains(n) <==> locs(self.upto(cursor)).dom().contains(*n),
        forall|n: &ReferenceName| #[trigger] ref_name_to_oid@.dom().contains(n) ==> ref_name_to_oid@[n] == locs(self.upto(cursor))[*n],
        forall|oid: NonZeroOid, n: ReferenceName| #[trigger] rmem(result@, oid, n) <==>
            (is_local_branch(n) && exists|k: int| 0 <= k < vx_i1 && **(#[trigger] vx_it1@[k]).0 == n && *vx_it1@[k].1 == oid),
    decreases vx_it1@.len() - vx_i1
//@after_loop 1
    proof {
        assert forall|oid: NonZeroOid, n: ReferenceName| #[trigger] rmem(result@, oid, n) <==> names_at(locs(self.upto(cursor)), oid, n) by {
            if names_at(locs(self.upto(cursor)), oid, n) { assert(ref_name_to_oid@.dom().contains(&n)); }
            if rmem(result@, oid, n) {
                let k = choose|k: int| 0 <= k < vx_i1 && **(#[trigger] vx_it1@[k]).0 == n && *vx_it1@[k].1 == oid;
                assert(ref_name_to_oid@.dom().contains(*vx_it1@[k].0));
            }
        }
    }
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::EventReplayer::get_references_snapshot
//@contract
    requires self.wf(), self.cursor_ok($1)
    ensures r is Ok ==> {
        &&& r->Ok_0.head_oid == head_at(self.upto($1))
        &&& r->Ok_0.main_branch_oid == main_at(self.upto($1), $0)
        &&& forall|oid: NonZeroOid, n: ReferenceName| #[trigger] rmem(r->Ok_0.branch_oid_to_names@, oid, n) <==>
            (names_at(locs(self.upto($1)), oid, n) || (oid == main_at(self.upto($1), $0) && n == self.main_branch_reference_name))
    }
//@end
}
} // verus!
