verus! {
/// Object identifiers: opaque values with equality; the all-zero value is the
/// separate `MaybeZeroOid::Zero` case, as in the repository.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroOid { pub id: u128 }
//@item git-branchless-lib/src/git/oid.rs::MaybeZeroOid Clone, Copy, PartialEq, Eq, Structural

impl From<Option<NonZeroOid>> for MaybeZeroOid {
    #[verifier::external_body]
    fn from(o: Option<NonZeroOid>) -> MaybeZeroOid { unimplemented!() }
}

/// Reference names: opaque values with equality and a textual form.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ReferenceName { pub id: u64 }
pub uninterp spec fn ref_text(r: ReferenceName) -> Seq<char>;
#[verifier::external_body]
pub proof fn axiom_ref_text(a: ReferenceName, b: ReferenceName)
    ensures ref_text(a) == ref_text(b) ==> a == b
{}
impl ReferenceName {
    pub uninterp spec fn spec_as_str(&self) -> &str;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_as_str)]
    pub fn as_str(&self) -> (r: &str) ensures r@ == ref_text(*self), r == self.spec_as_str() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_as_str(r: ReferenceName)
    ensures (#[trigger] r.spec_as_str())@ == ref_text(r)
{}
} // verus!
