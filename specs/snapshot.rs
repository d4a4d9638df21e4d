// C20: what a snapshot of the working copy holds and gives back.
//@rule hydrate_tree(__A, __B, __C) => vx_hydrate(__B, __C)
//@rule repo.create_commit(__A, __B, __C, __D, __E, __F) => vx_commit(__E)
//@rule repo.find_tree_or_fail(__O) => vx_tree(__O)
//@rule repo.create_blob_from_path(__P) => vx_blob(__P)
//@rule head_commit.map(__F).transpose() => vx_head_tree(head_commit)
//@rule Signature::automated() => vx_sig()
//@drop_let format!(__A)
//@rule Vec::from_iter(head_commit) => ()
//@drop_let updated_entries.len()
//@drop_let changed_paths.len()
//@rule MaybeZeroOid::Zero => MaybeZeroOid::Zero
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PathBuf { pub id: u64 }
//@item git-branchless-lib/src/git/status.rs::FileStatus Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/git/status.rs::FileMode Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/git/status.rs::StatusEntry
//@item git-branchless-lib/src/git/index.rs::Stage Clone, Copy, PartialEq, Eq, Structural
//@item git-branchless-lib/src/git/index.rs::IndexEntry Clone, Copy, PartialEq, Eq, Structural
/// The letters of `git status --porcelain=v2`.
pub open spec fn letter(c: u8) -> FileStatus {
    if c == 46 { FileStatus::Unmodified } else if c == 77 || c == 84 { FileStatus::Modified } else if c == 65 { FileStatus::Added } else if c == 68 { FileStatus::Deleted }
    else if c == 82 { FileStatus::Renamed } else if c == 67 { FileStatus::Copied } else if c == 85 { FileStatus::Unmerged } else if c == 33 { FileStatus::Ignored } else { FileStatus::Untracked }
}
//@fn git-branchless-lib/src/git/status.rs::FileStatus::from as status_from
//@sig
pub fn status_from(status: u8) -> (r: FileStatus)
//@contract
    ensures r == letter(status)
//@end
pub open spec fn changed(s: FileStatus) -> bool { s is Added || s is Copied || s is Deleted || s is Modified || s is Renamed }
impl FileStatus {
//@fn git-branchless-lib/src/git/status.rs::FileStatus::is_changed
//@sig
pub fn is_changed(&self) -> (r: bool)
//@contract
    ensures r == changed(*self)
//@end
}
pub open spec fn paths_of(e: StatusEntry) -> Seq<PathBuf> { match e.orig_path { Some(o) => seq![e.path, o], None => seq![e.path] } }
impl StatusEntry {
//@fn git-branchless-lib/src/git/status.rs::StatusEntry::paths
//@sig
pub fn paths(&self) -> (r: Vec<PathBuf>)
//@contract
    ensures r@ == paths_of(*self)
//@epilogue
    proof { assert(vx_ret@ =~= paths_of(*self)); }
//@end
}
#[verifier::external_body]
pub struct Repo { x: u64 }
#[verifier::external_body]
pub fn vx_sig() -> EyreResult<()> { unimplemented!() }
#[verifier::external_body]
pub struct Index { x: u64 }
impl Index {
    pub uninterp spec fn at(&self, p: PathBuf, s: Stage) -> Option<IndexEntry>;
    #[verifier::external_body]
    pub fn get_entry_in_stage(&self, p: &PathBuf, s: Stage) -> (r: Option<IndexEntry>) ensures r == self.at(*p, s) { unimplemented!() }
}
pub type File = (NonZeroOid, FileMode);
/// The files of a tree object.
pub uninterp spec fn file_in(tree: NonZeroOid, p: PathBuf) -> Option<File>;
/// Looking up the path in the tree object finds something (a file or a directory).
pub uninterp spec fn in_tree(tree: NonZeroOid, p: PathBuf) -> bool;
#[verifier::external_body]
pub struct Tree { x: u64 }
impl Tree { pub uninterp spec fn oid(&self) -> NonZeroOid; }
#[verifier::external_body]
pub struct Commit<'a> { x: &'a u64 }
impl<'a> Commit<'a> {
    pub uninterp spec fn tree(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_tree(&self) -> (r: EyreResult<Tree>) ensures r is Ok ==> r->Ok_0.oid() == self.tree() { unimplemented!() }
}
pub uninterp spec fn tree_of(commit: NonZeroOid) -> NonZeroOid;
pub open spec fn before(t: Option<NonZeroOid>, p: PathBuf) -> Option<File> { match t { Some(t) => file_in(t, p), None => None } }
pub open spec fn head_tree_of(c: Option<&Commit>) -> Option<NonZeroOid> { match c { Some(c) => Some(c.tree()), None => None } }
/// Below or above one of the files added, so that it has to go.
pub uninterp spec fn in_the_way(m: Map<PathBuf, Option<File>>, p: PathBuf) -> bool;
pub open spec fn overlaid(t0: Option<NonZeroOid>, m: Map<PathBuf, Option<File>>, t1: NonZeroOid) -> bool {
    &&& forall|p: PathBuf| #[trigger] m.dom().contains(p) ==> file_in(t1, p) == m[p]
    &&& forall|p: PathBuf| !m.dom().contains(p) && !in_the_way(m, p) ==> #[trigger] file_in(t1, p) == before(t0, p)
}
pub open spec fn tree_ref(t: Option<&Tree>) -> Option<NonZeroOid> { match t { Some(t) => Some(t.oid()), None => None } }
#[verifier::external_body]
pub fn vx_hydrate(t: Option<&Tree>, m: HashMap<PathBuf, Option<File>>) -> (r: EyreResult<NonZeroOid>) ensures r is Ok ==> overlaid(tree_ref(t), m@, r->Ok_0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tree(o: NonZeroOid) -> (r: EyreResult<Tree>) ensures r is Ok ==> r->Ok_0.oid() == o { unimplemented!() }
#[verifier::external_body]
pub fn vx_commit(t: &Tree) -> (r: EyreResult<NonZeroOid>) ensures r is Ok ==> tree_of(r->Ok_0) == t.oid() { unimplemented!() }
#[verifier::external_body]
pub fn vx_head_tree(c: Option<&Commit>) -> (r: EyreResult<Option<Tree>>) ensures r is Ok ==> (match (c, r->Ok_0) { (Some(c), Some(t)) => t.oid() == c.tree(), (None, None) => true, _ => false }) { unimplemented!() }
/// What the working copy has under a path.
pub uninterp spec fn on_disk(p: PathBuf) -> Option<NonZeroOid>;
#[verifier::external_body]
pub fn vx_blob(p: &PathBuf) -> (r: EyreResult<Option<NonZeroOid>>) ensures r is Ok ==> r->Ok_0 == on_disk(*p) { unimplemented!() }

pub open spec fn as_file(e: Option<IndexEntry>) -> Option<File> { match e { Some(e) => match e.oid { MaybeZeroOid::NonZero(o) => Some((o, e.file_mode)), MaybeZeroOid::Zero => None }, None => None } }
pub open spec fn names(e: StatusEntry, p: PathBuf) -> bool { e.path == p || e.orig_path == Some(p) }
pub open spec fn named(es: Seq<StatusEntry>, n: int, p: PathBuf) -> bool { exists|k: int| 0 <= k < n && #[trigger] es[k].path == p }
pub open spec fn named_unmerged(es: Seq<StatusEntry>, n: int, p: PathBuf) -> bool { exists|k: int| 0 <= k < n && #[trigger] es[k].path == p && es[k].index_status is Unmerged }
/// Whether the commit for a stage says something of its own about a path. (The old name of
/// a renamed file is not among these: see DESIGN.md.)
pub open spec fn told(i: Index, es: Seq<StatusEntry>, n: int, s: Stage, p: PathBuf) -> bool {
    named(es, n, p) && (s is Stage0 || i.at(p, s) is Some || named_unmerged(es, n, p))
}
pub open spec fn staged(m: Map<PathBuf, Option<File>>, i: Index, es: Seq<StatusEntry>, n: int, s: Stage) -> bool {
    forall|p: PathBuf| #![trigger m.dom().contains(p)] #![trigger m[p]] (m.dom().contains(p) <==> told(i, es, n, s, p)) && (m.dom().contains(p) ==> m[p] == as_file(i.at(p, s)))
}
pub proof fn lemma_told(i: Index, es: Seq<StatusEntry>, n: int, s: Stage, p: PathBuf)
    requires 0 <= n < es.len()
    ensures told(i, es, n + 1, s, p) == (told(i, es, n, s, p) || es[n].path == p && (s is Stage0 || i.at(p, s) is Some || es[n].index_status is Unmerged))
{
    if es[n].path == p { assert(named(es, n + 1, p)); }
    if named(es, n, p) { let k = choose|k: int| 0 <= k < n && #[trigger] es[k].path == p; assert(named(es, n + 1, p)); }
    if named(es, n + 1, p) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] es[k].path == p; if k < n { assert(named(es, n, p)); } }
    if named_unmerged(es, n, p) { let k = choose|k: int| 0 <= k < n && #[trigger] es[k].path == p && es[k].index_status is Unmerged; assert(named_unmerged(es, n + 1, p)); }
    if named_unmerged(es, n + 1, p) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] es[k].path == p && es[k].index_status is Unmerged; if k < n { assert(named_unmerged(es, n, p)); assert(named(es, n, p)); } }
    if es[n].index_status is Unmerged && es[n].path == p { assert(named_unmerged(es, n + 1, p)); }
}
/// The tree for a stage: the index's entry for every path git status names, nothing for one
/// that is absent there (but HEAD's, in a higher stage, if the path has no conflict), HEAD's for the others.
pub open spec fn stage_tree(t: NonZeroOid, i: Index, head: Option<NonZeroOid>, es: Seq<StatusEntry>, s: Stage) -> bool {
    exists|m: Map<PathBuf, Option<File>>| #[trigger] staged(m, i, es, es.len() as int, s) && overlaid(head, m, t)
}
//@fn git-branchless-lib/src/git/snapshot.rs::WorkingCopySnapshot::create_commit_for_stage
//@sig
pub fn create_commit_for_stage(repo: &Repo, index: &Index, head_commit: Option<&Commit>, status_entries: &Vec<StatusEntry>, stage: Stage) -> (r: EyreResult<NonZeroOid>)
//@contract
    ensures r is Ok ==> stage_tree(tree_of(r->Ok_0), *index, head_tree_of(head_commit), status_entries@, stage)
//@loop 0 for StatusEntry { path , index_status , .. } in status_entries
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == vx_refs(status_entries@), staged(updated_entries@, *index, status_entries@, vx_i0 as int, stage)
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    proof {
        let n = vx_i0 - 1; let es = status_entries@;
        assert forall|p: PathBuf| #[trigger] told(*index, es, n + 1, stage, p) == (told(*index, es, n, stage, p) || es[n].path == p && (stage is Stage0 || index.at(p, stage) is Some || es[n].index_status is Unmerged)) by { lemma_told(*index, es, n, stage, p); }
    }
//@after_let head_tree
    let ghost vx_m = updated_entries@;
//@after_let tree_oid
    proof { assert(staged(vx_m, *index, status_entries@, status_entries@.len() as int, stage)); }
//@end
/// The changes to files: everything git status has something to say about.
/// (Of the conflicts, those of files which HEAD has: see DESIGN.md.)
pub open spec fn to_save(e: StatusEntry, head: Option<NonZeroOid>) -> bool { changed(e.working_copy_status) || changed(e.index_status) || e.index_status is Unmerged && head is Some && in_tree(head->Some_0, e.path) }
pub open spec fn disk_file(p: PathBuf, mode: FileMode) -> Option<File> { if mode is Unreadable { None } else { match on_disk(p) { Some(o) => Some((o, mode)), None => None } } }
pub open spec fn are_pairs(ps: Seq<(PathBuf, FileMode)>, e: StatusEntry) -> bool { ps.len() == paths_of(e).len() && forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == (paths_of(e)[i], e.working_copy_file_mode) }
pub open spec fn saved(es: Seq<StatusEntry>, head: Option<NonZeroOid>, p: PathBuf, mode: FileMode) -> bool { exists|k: int| 0 <= k < es.len() && to_save(#[trigger] es[k], head) && names(es[k], p) && es[k].working_copy_file_mode == mode }
pub open spec fn save_from(m: Map<PathBuf, Option<File>>, ps: Seq<(PathBuf, FileMode)>) -> bool {
    &&& forall|p: PathBuf| #[trigger] m.dom().contains(p) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == p && m[p] == disk_file(p, ps[i].1)
    &&& forall|i: int| 0 <= i < ps.len() ==> m.dom().contains((#[trigger] ps[i]).0)
}
/// The tree for the files themselves: what is on disk for every path with a change or
/// conflict, nothing for one that is no longer tracked, HEAD's for the others.
pub open spec fn disk_map(m: Map<PathBuf, Option<File>>, head: Option<NonZeroOid>, es: Seq<StatusEntry>) -> bool {
    &&& forall|p: PathBuf| #[trigger] m.dom().contains(p) ==> exists|mode: FileMode| #[trigger] saved(es, head, p, mode) && m[p] == disk_file(p, mode)
    &&& forall|p: PathBuf, mode: FileMode| #[trigger] saved(es, head, p, mode) ==> m.dom().contains(p)
}
pub open spec fn disk_tree(t: NonZeroOid, head: Option<NonZeroOid>, es: Seq<StatusEntry>) -> bool { exists|m: Map<PathBuf, Option<File>>| #[trigger] disk_map(m, head, es) && overlaid(head, m, t) }
pub open spec fn chosen(es: Seq<StatusEntry>, head: Option<NonZeroOid>, ps: Seq<(PathBuf, FileMode)>) -> bool { forall|p: PathBuf, mode: FileMode| #![trigger ps.contains((p, mode))] #![trigger saved(es, head, p, mode)] ps.contains((p, mode)) <==> saved(es, head, p, mode) }
pub open spec fn kept_of(rs: Seq<&StatusEntry>, head: Option<NonZeroOid>, s: Seq<&StatusEntry>) -> bool {
    &&& forall|x: &StatusEntry| #[trigger] s.contains(x) ==> rs.contains(x) && to_save(*x, head)
    &&& forall|x: &StatusEntry| #[trigger] rs.contains(x) && to_save(*x, head) ==> s.contains(x)
}
pub open spec fn flat_of(s: Seq<&StatusEntry>, ps: Seq<(PathBuf, FileMode)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> are_pairs((#[trigger] vx_parts(s, ps)[i])@, *s[i])
    &&& forall|u: (PathBuf, FileMode)| #[trigger] ps.contains(u) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] vx_parts(s, ps)[i])@.contains(u)
    &&& forall|i: int, u: (PathBuf, FileMode)| 0 <= i < s.len() && #[trigger] vx_parts(s, ps)[i]@.contains(u) ==> ps.contains(u)
}
pub proof fn lemma_chosen(es: Seq<StatusEntry>, head: Option<NonZeroOid>, s: Seq<&StatusEntry>, ps: Seq<(PathBuf, FileMode)>)
    requires kept_of(vx_refs(es), head, s), flat_of(s, ps)
    ensures chosen(es, head, ps)
{
    assert forall|p: PathBuf, mode: FileMode| #![trigger ps.contains((p, mode))] ps.contains((p, mode)) <==> saved(es, head, p, mode) by {
        if ps.contains((p, mode)) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] vx_parts(s, ps)[i])@.contains((p, mode));
            let q = vx_parts(s, ps)[i]@; let j = choose|j: int| 0 <= j < q.len() && q[j] == (p, mode);
            assert(q[j] == (paths_of(*s[i])[j], s[i].working_copy_file_mode));
            assert(s.contains(s[i]));
            let k = choose|k: int| 0 <= k < es.len() && #[trigger] vx_refs(es)[k] == s[i];
            assert(to_save(es[k], head) && names(es[k], p));
        }
        if saved(es, head, p, mode) {
            let k = choose|k: int| 0 <= k < es.len() && to_save(#[trigger] es[k], head) && names(es[k], p) && es[k].working_copy_file_mode == mode;
            assert(vx_refs(es).contains(vx_refs(es)[k]));
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == vx_refs(es)[k];
            let q = vx_parts(s, ps)[i]@;
            assert(are_pairs(q, *s[i]));
            if es[k].path == p { assert(q[0] == (p, mode)); } else { assert(q[1] == (p, mode)); }
            assert(q.contains((p, mode)));
        }
    }
}
pub proof fn lemma_disk(m: Map<PathBuf, Option<File>>, ps: Seq<(PathBuf, FileMode)>, head: Option<NonZeroOid>, es: Seq<StatusEntry>)
    requires save_from(m, ps), chosen(es, head, ps)
    ensures disk_map(m, head, es)
{
    assert forall|p: PathBuf| #[trigger] m.dom().contains(p) implies exists|mode: FileMode| #[trigger] saved(es, head, p, mode) && m[p] == disk_file(p, mode) by {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == p && m[p] == disk_file(p, ps[i].1);
        assert(ps.contains((p, ps[i].1))) by { assert(ps[i] == (p, ps[i].1)); }
        assert(saved(es, head, p, ps[i].1));
    }
    assert forall|p: PathBuf, mode: FileMode| #[trigger] saved(es, head, p, mode) implies m.dom().contains(p) by {
        assert(ps.contains((p, mode)));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (p, mode);
        assert(m.dom().contains(ps[i].0));
    }
}
//@fn git-branchless-lib/src/git/snapshot.rs::WorkingCopySnapshot::create_commit_for_unstaged_changes
//@sig
pub fn create_commit_for_unstaged_changes(repo: &Repo, head_commit: Option<&Commit>, status_entries: &Vec<StatusEntry>) -> (r: EyreResult<NonZeroOid>)
//@contract
    ensures r is Ok ==> disk_tree(tree_of(r->Ok_0), head_tree_of(head_commit), status_entries@)
//@after_let head_tree
    let ghost vx_head = head_tree_of(head_commit);
//@closures 4
//@closure 0
    -> (b: bool) ensures b == to_save(**$0, vx_head)
//@closure 1
    -> (o: It<(PathBuf, FileMode)>) ensures are_pairs(o@, *$0)
//@closure 2
    -> (o: (PathBuf, FileMode)) ensures o == ($0, entry.working_copy_file_mode)
//@closure 3
    -> (o: File) ensures o == ($0, file_mode)
//@after_let changed_paths
    let ghost vx_ps = changed_paths@;
    proof {
        let es = status_entries@; let head = vx_head;
        assert(exists|s: Seq<&StatusEntry>| #[trigger] vx_mark(s, vx_ps) && kept_of(vx_refs(es), head, s) && flat_of(s, vx_ps));
        let s = choose|s: Seq<&StatusEntry>| #[trigger] vx_mark(s, vx_ps) && kept_of(vx_refs(es), head, s) && flat_of(s, vx_ps);
        lemma_chosen(es, head, s, vx_ps);
    }
//@loop 0 for (path , file_mode) in changed_paths
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == vx_ps, save_from(result@, vx_ps.take(vx_i0 as int))
    decreases vx_it0@.len() - vx_i0
//@body_start 0
    let ghost m0 = result@;
    let ghost n = vx_i0 - 1;
    proof { assert(vx_ps[n] == (path, file_mode)); assert(vx_ps.take(n + 1)[n] == (path, file_mode)); }
//@body_end 0
    proof {
        let a = vx_ps.take(n); let b = vx_ps.take(n + 1);
        assert forall|p: PathBuf| #[trigger] result@.dom().contains(p) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == p && result@[p] == disk_file(p, b[i].1) by {
            if p == vx_ps[n].0 { assert(b[n].0 == p); } else { assert(m0.dom().contains(p)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == p && m0[p] == disk_file(p, a[i].1); assert(b[i] == a[i]); }
        }
        assert forall|i: int| 0 <= i < b.len() implies result@.dom().contains((#[trigger] b[i]).0) by { if i < n { assert(a[i] == b[i]); } }
    }
//@after_let hydrate_entries
    let ghost vx_m = hydrate_entries@;
    proof { assert(vx_ps.take(vx_ps.len() as int) =~= vx_ps); lemma_disk(vx_m, vx_ps, vx_head, status_entries@); }
//@end
} // verus!
