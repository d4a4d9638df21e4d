// C19: what the user has in a hook stays.

//@rule __A == UPDATE_MARKER_START => vx_str_eq(__A, UPDATE_MARKER_START)
//@rule __A == UPDATE_MARKER_END => vx_str_eq(__A, UPDATE_MARKER_END)
//@rule __L.lines() => vx_lines(__L)
//@rule String::new() => vx_string()
//@rule std::fs::read_to_string(__P) => vx_read(__P, w)
//@rule write_script(__P, __C) => vx_write_script(__P, __C, w)
//@rule __E.kind() == std::io::ErrorKind::NotFound => __E.not_found()
//@rule format!("{SHEBANG}\n{UPDATE_MARKER_START}\n{hook_contents}\n{UPDATE_MARKER_END}\n") => vx_fresh(hook_contents)
//@rule format!("{SHEBANG}\n{hook_contents}") => vx_bare(hook_contents)
//@rule __X.wrap_err(__M) => __X
verus! {
#[verifier::external_body]
pub struct Text { x: String }
impl Text { pub uninterp spec fn view(&self) -> Seq<char>; }
//@type String => Text
#[verifier::external_body]
pub fn vx_string() -> (r: Text) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl Text {
    #[verifier::external_body]
    pub fn push_str(&mut self, x: &str) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: char) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
/// The lines of a text, without their ends.
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a Text) -> (r: It<&'a str>) ensures r@.len() == lines_of(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(s@)[i] { unimplemented!() }
//@item git-branchless-init/src/lib.rs::UPDATE_MARKER_START
//@item git-branchless-init/src/lib.rs::UPDATE_MARKER_END
pub open spec fn section(x: Seq<char>) -> Seq<char> { UPDATE_MARKER_START@ + seq!['\n'] + x + UPDATE_MARKER_END@ + seq!['\n'] }
/// Within the section that is ours after the first `n` lines.
pub open spec fn inside(ls: Seq<Seq<char>>, n: int) -> bool decreases n {
    if n <= 0 { false } else if ls[n - 1] == UPDATE_MARKER_START@ { true } else if ls[n - 1] == UPDATE_MARKER_END@ { false } else { inside(ls, n - 1) }
}
pub open spec fn users_line(ls: Seq<Seq<char>>, k: int) -> bool { ls[k] != UPDATE_MARKER_START@ && ls[k] != UPDATE_MARKER_END@ && !inside(ls, k) }
/// The lines of the user's, in order, with our section wherever there was one.
pub open spec fn updated(ls: Seq<Seq<char>>, n: int, x: Seq<char>) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else {
        updated(ls, n - 1, x) + (if ls[n - 1] == UPDATE_MARKER_START@ { section(x) } else if users_line(ls, n - 1) { ls[n - 1].push('\n') } else { Seq::empty() })
    }
}
pub open spec fn any_section(ls: Seq<Seq<char>>, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] ls[k] == UPDATE_MARKER_START@ }
pub proof fn lemma_inside(ls: Seq<Seq<char>>, n: int) requires 0 <= n <= ls.len() ensures inside(ls, n) ==> any_section(ls, n) decreases n {
    if n > 0 { lemma_inside(ls, n - 1); if inside(ls, n) { if ls[n - 1] == UPDATE_MARKER_START@ {} else { let k = choose|k: int| 0 <= k < n - 1 && #[trigger] ls[k] == UPDATE_MARKER_START@; assert(ls[k] == UPDATE_MARKER_START@); } } }
}
//@fn git-branchless-init/src/lib.rs::append_hook
//@contract
    ensures final(new_lines)@ == old(new_lines)@ + section(hook_contents@)
//@epilogue
    proof { assert(new_lines@ =~= old(new_lines)@ + section(hook_contents@)); }
//@end
//@fn git-branchless-init/src/lib.rs::update_between_lines
//@sig
fn update_between_lines(lines: &Text, updated_lines: &str) -> (r: Text)
//@contract
    ensures r@ == between(lines@, updated_lines@)
//@loop 0 for line in lines . lines ()
    invariant 0 <= vx_i0 <= vx_it0@.len(), vx_it0@.len() == lines_of(lines@).len(), forall|i: int| 0 <= i < vx_it0@.len() ==> (#[trigger] vx_it0@[i])@ == lines_of(lines@)[i],
        new_lines@ == updated(lines_of(lines@), vx_i0 as int, updated_lines@), found_marker == any_section(lines_of(lines@), vx_i0 as int), is_ignoring_lines == inside(lines_of(lines@), vx_i0 as int),
    decreases vx_it0@.len() - vx_i0
//@after_loop 0
    proof { lemma_inside(lines_of(lines@), lines_of(lines@).len() as int); let u = updated(lines_of(lines@), lines_of(lines@).len() as int, updated_lines@); assert(u + Seq::<char>::empty() =~= u); }
//@end
#[verifier::external_body]
pub struct PathBuf { x: u64 }
/// The files there are.
pub struct World { pub files: Ghost<Map<PathBuf, Seq<char>>> }
#[verifier::external_body]
pub struct IoErr { x: u64 }
impl IoErr {
    pub uninterp spec fn missing(&self) -> bool;
    #[verifier::external_body]
    pub fn not_found(&self) -> (r: bool) ensures r == self.missing() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_read(p: &PathBuf, w: &World) -> (r: Result<Text, IoErr>)
    ensures r is Ok ==> w.files@.dom().contains(*p) && r->Ok_0@ == w.files@[*p], r is Err && r->Err_0.missing() ==> !w.files@.dom().contains(*p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_script(p: &PathBuf, t: &Text, w: &mut World) -> (r: EyreResult<()>)
    ensures r is Ok ==> final(w).files@ == old(w).files@.insert(*p, t@), forall|q: PathBuf| q != *p && #[trigger] old(w).files@.dom().contains(q) ==> final(w).files@.dom().contains(q) && final(w).files@[q] == old(w).files@[q] { unimplemented!() }
#[verifier::external_body]
pub fn vx_fresh(h: &str) -> Text { unimplemented!() }
#[verifier::external_body]
pub fn vx_bare(h: &str) -> Text { unimplemented!() }
pub open spec fn between(t: Seq<char>, x: Seq<char>) -> Seq<char> {
    let ls = lines_of(t);
    updated(ls, ls.len() as int, x) + (if any_section(ls, ls.len() as int) { Seq::empty() } else { section(x) })
}
//@item git-branchless-init/src/lib.rs::Hook
pub open spec fn path_of(h: Hook) -> PathBuf { match h { Hook::RegularHook { path } => path, Hook::MultiHook { path } => path } }
//@fn git-branchless-init/src/lib.rs::update_hook_contents
//@sig
fn update_hook_contents(hook: &Hook, hook_contents: &str, w: &mut World) -> (r: EyreResult<()>)
//@contract
    ensures
        // a hook that is there keeps the lines of the user's
        r is Ok && *hook is RegularHook && old(w).files@.dom().contains(path_of(*hook)) ==> final(w).files@.dom().contains(path_of(*hook)) && final(w).files@[path_of(*hook)] == between(old(w).files@[path_of(*hook)], hook_contents@),
        // no other file is touched
        forall|q: PathBuf| q != path_of(*hook) && #[trigger] old(w).files@.dom().contains(q) ==> final(w).files@.dom().contains(q) && final(w).files@[q] == old(w).files@[q],
//@end
} // verus!
