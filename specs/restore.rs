// C20: giving a snapshot back.
//@rule git_run_info.run(__A, __B, __C) => w.run(__C)
//@rule &["reset", "--hard", "HEAD"] => GitCmd::ResetHard
//@rule &["checkout", &__X.to_string()] => GitCmd::Checkout(__X)
//@rule &["reset", &__X.to_string()] => GitCmd::Reset(__X)
//@rule &["update-ref", __R.as_str(), &__X.to_string()] => GitCmd::UpdateRef(*__R, __X)
//@rule &["symbolic-ref", "HEAD", __R.as_str()] => GitCmd::SymbolicRef(*__R)
//@rule update_index(__A, __B, __C, __D, __E) => w.update_index(__E)
//@rule conflicted_paths.extend(__X) => vx_union(&mut conflicted_paths, __X)
//@rule repo.get_index() => vx_sig()
verus! {
//@item git-branchless-lib/src/git/index.rs::UpdateIndexCommand Clone, Copy
pub struct ExitCode(pub isize);
pub enum GitCmd { ResetHard, Checkout(NonZeroOid), Reset(NonZeroOid), UpdateRef(ReferenceName, MaybeZeroOid), SymbolicRef(ReferenceName) }
pub struct Effects { pub x: u64 }
pub struct GitRunInfo { pub x: u64 }
#[derive(Clone, Copy)]
pub struct EventTransactionId { pub x: u64 }
pub type Idx = Map<(PathBuf, Stage), File>;
/// What Git knows of and what is on disk.
pub struct World {
    pub index: Ghost<Idx>,
    /// the tree the files on disk are those of
    pub files: Ghost<NonZeroOid>,
    pub head: Ghost<Option<NonZeroOid>>,
    pub branch: Ghost<Option<ReferenceName>>,
    pub refs: Ghost<Map<ReferenceName, MaybeZeroOid>>,
}
pub open spec fn get(i: Idx, p: PathBuf, s: Stage) -> Option<File> { if i.dom().contains((p, s)) { Some(i[(p, s)]) } else { None } }
pub open spec fn is_tree(i: Idx, t: NonZeroOid) -> bool { forall|p: PathBuf, s: Stage| #[trigger] get(i, p, s) == (if s is Stage0 { file_in(t, p) } else { None }) }
pub open spec fn step(i: Idx, c: UpdateIndexCommand) -> Idx {
    match c {
        UpdateIndexCommand::Delete { path } => i.remove((path, Stage::Stage0)).remove((path, Stage::Stage1)).remove((path, Stage::Stage2)).remove((path, Stage::Stage3)),
        UpdateIndexCommand::Update { path, stage, mode, oid } => i.insert((path, stage), (oid, mode)),
    }
}
pub open spec fn applied(i: Idx, cs: Seq<UpdateIndexCommand>) -> Idx decreases cs.len() { if cs.len() == 0 { i } else { step(applied(i, cs.drop_last()), cs.last()) } }
pub proof fn lemma_applied(i: Idx, cs: Seq<UpdateIndexCommand>, c: UpdateIndexCommand) ensures applied(i, cs.push(c)) == step(applied(i, cs), c) { assert(cs.push(c).drop_last() =~= cs); }
impl World {
    /// Assumed: what the commands of Git do.
    #[verifier::external_body]
    pub fn run(&mut self, c: GitCmd) -> (r: EyreResult<Result<(), ExitCode>>)
        ensures r is Ok && r->Ok_0 is Ok ==> (match c {
            GitCmd::ResetHard => final(self).head == old(self).head && final(self).branch == old(self).branch && final(self).refs == old(self).refs,
            GitCmd::Checkout(o) => final(self).head@ == Some(o) && final(self).branch@ is None && final(self).refs == old(self).refs && final(self).files@ == tree_of(o) && is_tree(final(self).index@, tree_of(o)),
            GitCmd::Reset(o) => final(self).files == old(self).files && is_tree(final(self).index@, tree_of(o)) && (old(self).branch@ is None ==> final(self).head@ == Some(o) && final(self).branch@ is None && final(self).refs == old(self).refs),
            GitCmd::UpdateRef(n, o) => final(self).files == old(self).files && final(self).index == old(self).index && final(self).branch == old(self).branch && final(self).refs@ == old(self).refs@.insert(n, o),
            GitCmd::SymbolicRef(n) => final(self).files == old(self).files && final(self).index == old(self).index && final(self).branch@ == Some(n) && final(self).refs == old(self).refs,
        })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_index(&mut self, cs: &Vec<UpdateIndexCommand>) -> (r: EyreResult<()>)
        ensures r is Ok ==> final(self).index@ == applied(old(self).index@, cs@), final(self).files == old(self).files, final(self).head == old(self).head, final(self).branch == old(self).branch, final(self).refs == old(self).refs
    { unimplemented!() }
}
#[verifier::external_body]
pub struct TreeEntry { x: u64 }
impl TreeEntry {
    pub uninterp spec fn mode(&self) -> FileMode;
    pub uninterp spec fn id(&self) -> NonZeroOid;
    #[verifier::external_body]
    pub fn get_filemode(&self) -> (r: FileMode) ensures r == self.mode() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == self.id() { unimplemented!() }
}
impl Tree {
    #[verifier::external_body]
    pub fn get_path(&self, p: &PathBuf) -> (r: EyreResult<Option<TreeEntry>>)
        ensures in_tree(self.oid(), *p) == (r is Ok && r->Ok_0 is Some), r is Ok ==> file_in(self.oid(), *p) == (match r->Ok_0 { Some(e) => if e.mode() is Tree { None } else { Some((e.id(), e.mode())) }, None => None })
    { unimplemented!() }
}
pub uninterp spec fn id_of(c: Commit) -> NonZeroOid;
#[verifier::external_body]
pub broadcast proof fn axiom_tree_of(c: Commit) ensures #[trigger] tree_of(id_of(c)) == c.tree() {}
pub uninterp spec fn parent_tree(c: Commit) -> Option<NonZeroOid>;
impl<'a> Commit<'a> {
    #[verifier::external_body]
    pub fn get_oid(&self) -> (r: NonZeroOid) ensures r == id_of(*self) { unimplemented!() }
}
pub open spec fn touched(c: Commit, p: PathBuf) -> bool { file_in(c.tree(), p) != before(parent_tree(c), p) }
impl Repo {
    #[verifier::external_body]
    pub fn get_paths_touched_by_commit(&self, c: &Commit) -> (r: EyreResult<HashSet<PathBuf>>)
        ensures r is Ok ==> forall|p: PathBuf| #[trigger] r->Ok_0@.contains(p) <==> touched(*c, p)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_union(s: &mut HashSet<PathBuf>, x: HashSet<PathBuf>) ensures final(s)@ == old(s)@.union(x@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_keep<F: Fn(&TreeEntry) -> bool>(o: Option<TreeEntry>, f: F) -> (r: Option<TreeEntry>)
    requires forall|x: &TreeEntry| #[trigger] f.requires((x,))
    ensures (match o { Some(e) => r is Some && r->Some_0 == e && f.ensures((&e,), true) || r is None && f.ensures((&e,), false), None => r is None })
{ unimplemented!() }
//@rule tree.get_path(__P)?.filter(__F) => vx_keep(tree.get_path(__P)?, __F)
//@item git-branchless-lib/src/git/snapshot.rs::WorkingCopySnapshot
pub open spec fn conflicted(s: WorkingCopySnapshot, p: PathBuf) -> bool { touched(s.commit_stage1, p) || touched(s.commit_stage2, p) || touched(s.commit_stage3, p) }
pub open spec fn commit_for(s: WorkingCopySnapshot, g: Stage) -> Commit { match g { Stage::Stage0 => s.commit_stage0, Stage::Stage1 => s.commit_stage1, Stage::Stage2 => s.commit_stage2, Stage::Stage3 => s.commit_stage3 } }
pub open spec fn number(g: Stage) -> int { match g { Stage::Stage0 => 0, Stage::Stage1 => 1, Stage::Stage2 => 2, Stage::Stage3 => 3 } }
/// The index as it was: in stage 0 what its commit has, in the others what theirs have for files with a conflict.
pub open spec fn target(s: WorkingCopySnapshot, p: PathBuf, g: Stage) -> Option<File> { if g is Stage0 || conflicted(s, p) { file_in(commit_for(s, g).tree(), p) } else { None } }
pub open spec fn start(t: NonZeroOid, p: PathBuf, g: Stage) -> Option<File> { if g is Stage0 { file_in(t, p) } else { None } }
pub open spec fn seen(ps: Seq<PathBuf>, j: int, p: PathBuf) -> bool { exists|q: int| 0 <= q < j && #[trigger] ps[q] == p }
pub open spec fn so_far(i: Idx, s: WorkingCopySnapshot, t: NonZeroOid, k: int, ps: Seq<PathBuf>, j: int) -> bool {
    forall|p: PathBuf, g: Stage| #[trigger] get(i, p, g) == (if number(g) < k || number(g) == k && seen(ps, j, p) { target(s, p, g) } else { start(t, p, g) })
}
//@fn git-branchless-lib/src/core/check_out.rs::restore_snapshot
//@sig
pub fn restore_snapshot(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo, event_tx_id: EventTransactionId, snapshot: &WorkingCopySnapshot, w: &mut World) -> (r: EyreResult<Result<(), ExitCode>>)
//@attrs #[verifier::loop_isolation(false)]
//@contract
    requires forall|g: Stage| parent_tree(#[trigger] commit_for(*snapshot, g)) == (match snapshot.head_commit { Some(c) => Some(c.tree()), None => None })
    ensures r is Ok && r->Ok_0 is Ok ==> {
        &&& final(w).files@ == snapshot.commit_unstaged.tree()
        &&& snapshot.head_commit is Some ==> forall|p: PathBuf, g: Stage| #[trigger] get(final(w).index@, p, g) == target(*snapshot, p, g)
        &&& snapshot.head_reference_name is Some ==> final(w).branch@ == snapshot.head_reference_name && final(w).refs@ == old(w).refs@.insert(snapshot.head_reference_name->Some_0, match snapshot.head_commit { Some(c) => MaybeZeroOid::NonZero(id_of(c)), None => MaybeZeroOid::Zero })
        &&& snapshot.head_reference_name is None ==> final(w).branch@ is None && final(w).refs == old(w).refs && (snapshot.head_commit is Some ==> final(w).head@ == Some(id_of(snapshot.head_commit->Some_0)))
    }
//@prologue
    broadcast use axiom_tree_of;
    let ghost refs0 = w.refs;
//@closures 1
//@closure 0
    -> (b: bool) ensures b == !($0.mode() is Tree)
//@after_let conflicted_paths
    let ghost w0 = *w;
    let ghost i0 = w.index@;
    let ghost t = snapshot.head_commit->Some_0.tree();
    proof { if snapshot.head_commit is Some { assert(is_tree(i0, t)); assert(i0 == applied(i0, Seq::empty())); } }
//@loop 0 for commit in [& snapshot . commit_stage1 , & snapshot . commit_stage2 , & snapshot . commit_stage3 ,]
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@ == seq![&snapshot.commit_stage1, &snapshot.commit_stage2, &snapshot.commit_stage3], *w == w0,
        forall|p: PathBuf| #[trigger] conflicted_paths@.contains(p) <==> (vx_i0 > 0 && touched(snapshot.commit_stage1, p)) || (vx_i0 > 1 && touched(snapshot.commit_stage2, p)) || (vx_i0 > 2 && touched(snapshot.commit_stage3, p)),
    decreases vx_it0@.len() - vx_i0
//@loop 1 for (stage , commit) in [(Stage :: Stage0 , & snapshot . commit_stage0) , (Stage :: Stage1 , & snapshot . commit_stage1) , (Stage :: Stage2 , & snapshot . commit_stage2) , (Stage :: Stage3 , & snapshot . commit_stage3) ,]
    invariant 0 <= vx_i1 <= vx_it1@.len(), *w == w0,
        vx_it1@ == seq![(Stage::Stage0, &snapshot.commit_stage0), (Stage::Stage1, &snapshot.commit_stage1), (Stage::Stage2, &snapshot.commit_stage2), (Stage::Stage3, &snapshot.commit_stage3)],
        snapshot.head_commit is Some ==> so_far(applied(i0, commands@), *snapshot, t, vx_i1 as int, Seq::empty(), 0),
    decreases vx_it1@.len() - vx_i1
//@body_start 1
    let ghost k = vx_i1 - 1;
    proof { assert(vx_it1@[k] == (stage, commit)); assert(number(stage) == k && commit_for(*snapshot, stage) == *commit); }
//@after_let changed_paths
    let ghost cp = changed_paths@;
//@before_loop 2
    proof {
        assert forall|p: PathBuf| #[trigger] seen(vx_it2@, vx_it2@.len() as int, p) <==> (if stage is Stage0 { touched(*commit, p) } else { conflicted(*snapshot, p) }) by {
            if seen(vx_it2@, vx_it2@.len() as int, p) { assert(cp.contains(p)); }
            if cp.contains(p) { assert(seen(vx_it2@, vx_it2@.len() as int, p)); }
        }
    }
//@loop 2 for path in changed_paths
    invariant 0 <= vx_i2 <= vx_it2@.len(), *w == w0,
        number(stage) == k && commit_for(*snapshot, stage) == *commit,
        snapshot.head_commit is Some ==> so_far(applied(i0, commands@), *snapshot, t, k, vx_it2@, vx_i2 as int),
        forall|p: PathBuf| #[trigger] seen(vx_it2@, vx_it2@.len() as int, p) <==> (if stage is Stage0 { touched(*commit, p) } else { conflicted(*snapshot, p) }),
    decreases vx_it2@.len() - vx_i2
//@body_start 2
    let ghost i1 = applied(i0, commands@);
    let ghost cs0 = commands@;
    let ghost j = vx_i2 - 1;
    let ghost p0 = path;
    proof {
        assert(vx_it2@[j] == path);
        assert forall|p: PathBuf| #[trigger] seen(vx_it2@, j + 1, p) <==> seen(vx_it2@, j, p) || p == path by { if seen(vx_it2@, j, p) { let q = choose|q: int| 0 <= q < j && #[trigger] vx_it2@[q] == p; assert(vx_it2@[q] == p); } }
    }
//@body_end 2
    proof {
        if snapshot.head_commit is Some {
            let i2 = applied(i0, commands@);
            if commands@.len() > cs0.len() { lemma_applied(i0, cs0, commands@.last()); assert(commands@ =~= cs0.push(commands@.last())); }
            assert forall|p: PathBuf, g: Stage| #[trigger] get(i2, p, g) == (if number(g) < k || number(g) == k && seen(vx_it2@, j + 1, p) { target(*snapshot, p, g) } else { start(t, p, g) }) by {
                assert(get(i1, p, g) == (if number(g) < k || number(g) == k && seen(vx_it2@, j, p) { target(*snapshot, p, g) } else { start(t, p, g) }));
            }
        }
    }
//@end
//@item git-branchless-lib/src/git/snapshot.rs::WorkingCopyChangesType
impl<'a> Commit<'a> {
    #[verifier::external_body]
    pub fn get_tree_oid(&self) -> (r: MaybeZeroOid) ensures r == MaybeZeroOid::NonZero(self.tree()) { unimplemented!() }
}
impl<'repo> WorkingCopySnapshot<'repo> {
//@fn git-branchless-lib/src/git/snapshot.rs::WorkingCopySnapshot::get_working_copy_changes_type
//@sig
pub fn get_working_copy_changes_type(&self) -> (r: EyreResult<WorkingCopyChangesType>)
//@contract
    ensures
        r is Ok,
        r->Ok_0 is Conflicts <==> self.commit_stage1.tree() != self.base_commit.tree() || self.commit_stage2.tree() != self.base_commit.tree() || self.commit_stage3.tree() != self.base_commit.tree(),
        r->Ok_0 is Staged <==> !(r->Ok_0 is Conflicts) && self.commit_stage0.tree() != self.base_commit.tree(),
        r->Ok_0 is Unstaged <==> !(r->Ok_0 is Conflicts) && !(r->Ok_0 is Staged) && self.commit_unstaged.tree() != self.base_commit.tree(),
//@end
}
} // verus!
