verus! {
pub open spec fn special_ref(r: ReferenceName) -> bool {
    is_gc_name(r) || ref_text(r) == "ORIG_HEAD"@ || ref_text(r) == "CHERRY_PICK"@ || ref_text(r) == "REBASE_HEAD"@
    || ref_text(r) == "CHERRY_PICK_HEAD"@ || ref_text(r) == "AUTO_MERGE"@ || ref_text(r) == "FETCH_HEAD"@
}
pub open spec fn is_gc_name(r: ReferenceName) -> bool { vx_spec_starts_with(r.spec_as_str(), "refs/branchless/") }
pub open spec fn vx_spec_starts_with(a: &str, p: &str) -> bool { p@.is_prefix_of(a@) }
//@rule __A.starts_with(__P) => vx_starts_with(__A, __P)
#[verifier::external_body]
#[verifier::when_used_as_spec(vx_spec_starts_with)]
pub fn vx_starts_with(a: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(a@) { a.starts_with(p) }

//@fn git-branchless-lib/src/core/eventlog.rs::is_gc_ref
//@contract
    ensures r == is_gc_name(*$0)
//@end

//@fn git-branchless-lib/src/core/eventlog.rs::should_ignore_ref_updates
//@contract
    ensures r == special_ref(*$0)
//@prologue
    broadcast use axiom_as_str;
//@end
} // verus!
