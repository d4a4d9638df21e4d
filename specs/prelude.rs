// Shared prelude for every extracted unit.
//
// Everything marked `external_body` below is an ASSUMED contract on code outside
// the repository (Rust's standard library). It is listed as such in the
// evidence of each check.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, unreachable_patterns, unreachable_code, non_snake_case, unused_labels)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;

verus! {
global size_of usize == 8; // 64-bit target

// ---- extraction rules (see DESIGN.md, "What the extraction does") ----------
//@drop_macro trace debug info warn error println eprintln print writeln write
//@type f64 => Ts
//@type eyre::Result => EyreResult
//@type eyre::Error => VErr
//@rule __E.wrap_err(__M) => __E
//@rule __E.wrap_err_with(__M) => __E
//@rule __E.context(__M) => __E
//@rule __E.with_context(__M) => __E
//@rule __M.values().flatten() => __M.vx_values_flat()
//@rule __M.values().flatten().copied() => __M.vx_values_flat().copied()
//@rule __A.iter() => __A.viter()
//@rule __A.into_iter() => __A.vinto_iter()
//@rule __A.iter_mut() => __A.viter_mut_unsupported()
//@rule __M.entry(__K).or_default().push(__X) => __M.vx_entry_push(__K, __X)
//@rule __M.entry(__K).or_insert_with(Vec::new).push(__X) => __M.vx_entry_push(__K, __X)
//@rule __M.entry(__K).or_default().insert(__X) => __M.vx_entry_insert(__K, __X)
//@rule __M.entry(__K).or_insert_with(HashSet::new).insert(__X) => __M.vx_entry_insert(__K, __X)
//@rule __A.try_into().unwrap() => vx_try_into(__A)
//@rule __A[__B..__C] => vx_slice(&__A, __B, __C)
//@rule __A[__B..] => vx_slice_from(&__A, __B)
//@rule __A[..__B] => vx_slice(&__A, 0, __B)
//@rule &__A[__B..__C] => vx_slice(&__A, __B, __C)
//@rule &__A[__B..] => vx_slice_from(&__A, __B)
//@rule &__A[..__B] => vx_slice(&__A, 0, __B)
//@rule __A.cmp(__B) => vx_cmp(__A, __B)

/// Equality used for the automatically generated closure postconditions.
pub open spec fn vx_eqs<T>(a: T, b: T) -> bool { a == b }

/// Any error value (error payloads are abstracted away).
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VErr { pub e: u64 }
pub type EyreResult<T> = Result<T, VErr>;
#[verifier::external_body]
pub fn vx_err() -> VErr { unimplemented!() }
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
/// `panic!`/`unreachable!`: must be proved unreachable.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}

/// A floating-point timestamp, opaque.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Ts { pub t: u64 }

// ---- integer conversions: `x.try_into().unwrap()` must be proved not to panic
pub trait VxTryInto<T>: Sized {
    spec fn vx_fits(self) -> bool;
    spec fn vx_conv(self) -> T;
    fn vx_try_into_impl(self) -> (r: T) requires self.vx_fits() ensures r == self.vx_conv();
}
impl VxTryInto<usize> for isize {
    open spec fn vx_fits(self) -> bool { self >= 0 }
    open spec fn vx_conv(self) -> usize { self as usize }
    fn vx_try_into_impl(self) -> (r: usize) { self as usize }
}
impl VxTryInto<isize> for usize {
    open spec fn vx_fits(self) -> bool { self <= isize::MAX }
    open spec fn vx_conv(self) -> isize { self as isize }
    fn vx_try_into_impl(self) -> (r: isize) { self as isize }
}
pub fn vx_try_into<T, S: VxTryInto<T>>(s: S) -> (r: T)
    requires s.vx_fits()
    ensures r == s.vx_conv()
{ s.vx_try_into_impl() }

/// `Default::default()`
pub trait VxDefault: Sized { spec fn vx_is_default(&self) -> bool; fn vx_default() -> (r: Self) ensures r.vx_is_default(); }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(&self) -> bool { self@.len() == 0 } fn vx_default() -> (r: Self) { Vec::new() } }
impl<T> VxDefault for HashSet<T> { open spec fn vx_is_default(&self) -> bool { self@ == Set::<T>::empty() } fn vx_default() -> (r: Self) { HashSet::new() } }
impl<K, V> VxDefault for HashMap<K, V> { open spec fn vx_is_default(&self) -> bool { self@ == Map::<K, V>::empty() } fn vx_default() -> (r: Self) { HashMap::new() } }

// ---- assumed contracts on Option ---------------------------------------------
pub assume_specification<T> [std::option::Option::<T>::or] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T> [std::option::Option::<T>::xor] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None { p } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::and] (o: std::option::Option<T>, p: std::option::Option<U>) -> (r: std::option::Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::zip] (o: std::option::Option<T>, p: std::option::Option<U>) -> (r: std::option::Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->Some_0, p->Some_0)) } else { None });
pub assume_specification<T> [std::option::Option::<std::option::Option<T>>::flatten] (o: std::option::Option<std::option::Option<T>>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(p) => p, None => None });
pub assume_specification<T, F: FnOnce() -> std::option::Option<T>> [std::option::Option::<T>::or_else] (o: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    requires o is None ==> f.requires(()),
    ensures if o is Some { r == o } else { f.ensures((), r) };
pub assume_specification<T, F: FnOnce(&T) -> bool> [std::option::Option::<T>::filter] (o: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,)),
    ensures match o { Some(x) => r == o && f.ensures((&x,), true) || r is None && f.ensures((&x,), false), None => r is None };
pub assume_specification<T, F: FnOnce(T) -> bool> [std::option::Option::<T>::is_some_and] (o: std::option::Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or_else] (o: std::option::Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)), o is None ==> d.requires(()),
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: std::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U, F: FnOnce(T) -> std::result::Result<U, E>> [std::result::Result::<T, E>::and_then] (o: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: std::option::Option<T>)
    ensures r == (if b { Some(x) } else { None });
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T])
    ensures final(v)@ == vx_rev(old(v)@);
pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });

#[verifier::external_body]
pub fn vx_cmp(a: isize, b: &isize) -> (r: Ordering)
    ensures r == (if a < *b { Ordering::Less } else if a > *b { Ordering::Greater } else { Ordering::Equal })
{ a.cmp(b) }

// ---- slicing: the range must be proved to be in bounds --------------------------
#[verifier::external_body]
pub fn vx_slice<'a, T>(v: &'a Vec<T>, a: usize, b: usize) -> (r: &'a [T])
    requires a <= b <= v@.len()
    ensures r@ == v@.subrange(a as int, b as int)
{ &v[a..b] }
#[verifier::external_body]
pub fn vx_slice_from<'a, T>(v: &'a Vec<T>, a: usize) -> (r: &'a [T])
    requires a <= v@.len()
    ensures r@ == v@.subrange(a as int, v@.len() as int)
{ &v[a..] }

// ---- strings ---------------------------------------------------------------
pub open spec fn vx_spec_str_eq(a: &str, b: &str) -> bool { a@ == b@ }
#[verifier::external_body]
#[verifier::when_used_as_spec(vx_spec_str_eq)]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }

// ---- assumed contracts on std iterators -----------------------------------
pub struct It<T> { pub v: Vec<T> }

pub open spec fn vx_rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

/// The positions kept by `filter`: strictly increasing indices into `s`.
pub open spec fn vx_subseq<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>) -> bool {
    &&& idx.len() == r.len()
    &&& forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < s.len() && r[i] == s[idx[i]]
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j]
}

/// Ties the result of an iterator adaptor to its source (a trigger, carries no meaning).
pub uninterp spec fn vx_mark<T, U>(s: Seq<T>, r: Seq<U>) -> bool;
pub uninterp spec fn vx_acc<T, B>(s: Seq<T>, r: B) -> Seq<B>;
pub uninterp spec fn vx_idx<T>(s: Seq<T>, r: Seq<T>) -> Seq<int>;
pub uninterp spec fn vx_fm_src<T, U>(s: Seq<T>, r: Seq<U>, i: int) -> int;
pub uninterp spec fn vx_fm_dst<T, U>(s: Seq<T>, r: Seq<U>, j: int) -> int;
pub uninterp spec fn vx_parts<T, U>(s: Seq<T>, r: Seq<U>) -> Seq<It<U>>;
/// References to the elements of a sequence.
pub open spec fn vx_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

/// A filter that accepts exactly the first `k` elements is `take(k)`.
pub proof fn lemma_filter_prefix<T>(s: Seq<T>, r: Seq<T>, k: int)
    requires
        vx_subseq(s, r, vx_idx(s, r)), 0 <= k <= s.len(),
        forall|i: int| 0 <= i < r.len() ==> #[trigger] vx_idx(s, r)[i] < k,
        forall|j: int| 0 <= j < k ==> vx_idx(s, r).contains(j),
    ensures r == s.take(k)
{
    let idx = vx_idx(s, r);
    assert forall|i: int| 0 <= i < idx.len() implies #[trigger] idx[i] >= i by { lemma_increasing_ge(idx, i); }
    assert(r.len() <= k) by { if r.len() > k { assert(idx[r.len() - 1] >= r.len() - 1); } }
    assert forall|i: int| 0 <= i < k implies i < idx.len() && #[trigger] idx[i] == i by { lemma_increasing_cover(idx, k, i); }
    if k > 0 { assert(k - 1 < idx.len()) by { assert(idx[k - 1] == k - 1); } }
    assert(r =~= s.take(k)) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == s.take(k)[i] by { assert(idx[i] == i); } }
}
pub proof fn lemma_increasing_ge(idx: Seq<int>, i: int)
    requires 0 <= i < idx.len(), forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i],
        forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j],
    ensures idx[i] >= i
    decreases i
{ if i > 0 { lemma_increasing_ge(idx, i - 1); assert(idx[i - 1] < idx[i]); } }
pub proof fn lemma_increasing_cover(idx: Seq<int>, k: int, i: int)
    requires 0 <= i < k, forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < k,
        forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j],
        forall|j: int| 0 <= j < k ==> idx.contains(j),
    ensures i < idx.len() && idx[i] == i
    decreases i
{
    if i > 0 { lemma_increasing_cover(idx, k, i - 1); }
    assert(idx.contains(i));
    let w = choose|w: int| 0 <= w < idx.len() && idx[w] == i;
    if w < i { lemma_increasing_cover(idx, k, w); }
    lemma_increasing_ge(idx, w);
    assert(w == i);
}

/// `filter` by contract is `filter` by definition.
pub proof fn lemma_filter_is<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>, p: spec_fn(T) -> bool)
    requires vx_subseq(s, r, idx), forall|i: int| 0 <= i < r.len() ==> p(#[trigger] r[i]),
        forall|j: int| 0 <= j < s.len() && !idx.contains(j) ==> !p(#[trigger] s[j]),
    ensures r == s.filter(p)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { if r.len() > 0 { assert(0 <= idx[0] < s.len()); } assert(r =~= s.filter(p)); return; }
    let n = s.len() - 1;
    let s1 = s.drop_last();
    if idx.len() > 0 && idx.last() == n {
        let r1 = r.drop_last(); let i1 = idx.drop_last();
        assert forall|i: int| 0 <= i < i1.len() implies 0 <= #[trigger] i1[i] < s1.len() && r1[i] == s1[i1[i]] by { assert(idx[i] < idx[idx.len() - 1]); }
        assert forall|j: int| 0 <= j < s1.len() && !i1.contains(j) implies !p(#[trigger] s1[j]) by {
            if idx.contains(j) { let w = choose|w: int| 0 <= w < idx.len() && idx[w] == j; assert(i1[w] == j); }
            assert(s[j] == s1[j]);
        }
        lemma_filter_is(s1, r1, i1, p);
        assert(p(r[r.len() - 1]));
        assert(r =~= r1.push(s.last()));
    } else {
        assert(!idx.contains(n)) by {
            if idx.contains(n) { let w = choose|w: int| 0 <= w < idx.len() && idx[w] == n; if w < idx.len() - 1 { assert(idx[w] < idx[idx.len() - 1]); } }
        }
        assert(!p(s[n]));
        assert forall|i: int| 0 <= i < idx.len() implies 0 <= #[trigger] idx[i] < s1.len() && r[i] == s1[idx[i]] by {
            if idx[i] == n { assert(idx.contains(n)); }
        }
        assert forall|j: int| 0 <= j < s1.len() && !idx.contains(j) implies !p(#[trigger] s1[j]) by { assert(s[j] == s1[j]); }
        lemma_filter_is(s1, r, idx, p);
    }
}

/// What `filter_map` yields.
pub open spec fn vx_fm<T, U>(s: Seq<T>, f: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match f(s.last()) { Some(u) => vx_fm(s.drop_last(), f).push(u), None => vx_fm(s.drop_last(), f) } }
}
/// `filter_map` by contract is `filter_map` by definition.
pub proof fn lemma_fm_src<T, U>(s: Seq<T>, r: Seq<U>, src: Seq<int>, f: spec_fn(T) -> Option<U>)
    requires src.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] src[i] < s.len() && f(s[src[i]]) == Some(r[i]),
        forall|i: int, j: int| 0 <= i < j < src.len() ==> #[trigger] src[i] < #[trigger] src[j],
        forall|j: int| 0 <= j < s.len() && !src.contains(j) ==> f(#[trigger] s[j]) is None,
    ensures r == vx_fm(s, f)
    decreases s.len()
{
    if s.len() == 0 { if r.len() > 0 { assert(0 <= src[0] < s.len()); } assert(r =~= vx_fm(s, f)); return; }
    let n = s.len() - 1;
    let s1 = s.drop_last();
    if src.len() > 0 && src.last() == n {
        let r1 = r.drop_last(); let i1 = src.drop_last();
        assert forall|i: int| 0 <= i < r1.len() implies 0 <= #[trigger] i1[i] < s1.len() && f(s1[i1[i]]) == Some(r1[i]) by { assert(src[i] < src[src.len() - 1]); }
        assert forall|j: int| 0 <= j < s1.len() && !i1.contains(j) implies f(#[trigger] s1[j]) is None by {
            if src.contains(j) { let w = choose|w: int| 0 <= w < src.len() && src[w] == j; assert(i1[w] == j); }
            assert(s[j] == s1[j]);
        }
        lemma_fm_src(s1, r1, i1, f);
        assert(f(s[src[src.len() - 1]]) == Some(r[r.len() - 1]));
        assert(r =~= r1.push(r.last()));
    } else {
        assert(!src.contains(n)) by {
            if src.contains(n) { let w = choose|w: int| 0 <= w < src.len() && src[w] == n; if w < src.len() - 1 { assert(src[w] < src[src.len() - 1]); } }
        }
        assert(f(s[n]) is None);
        assert forall|i: int| 0 <= i < src.len() implies 0 <= #[trigger] src[i] < s1.len() && f(s1[src[i]]) == Some(r[i]) by {
            if src[i] == n { assert(src.contains(n)); }
        }
        assert forall|j: int| 0 <= j < s1.len() && !src.contains(j) implies f(#[trigger] s1[j]) is None by { assert(s[j] == s1[j]); }
        lemma_fm_src(s1, r, src, f);
    }
}
pub open spec fn vx_fm_ok<T, U>(s: Seq<T>, r: Seq<U>, f: spec_fn(T) -> Option<U>) -> bool {
    &&& forall|i: int| #![trigger vx_fm_src(s, r, i)] #![trigger r[i]] 0 <= i < r.len() ==> 0 <= vx_fm_src(s, r, i) < s.len() && f(s[vx_fm_src(s, r, i)]) == Some(r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] vx_fm_src(s, r, i) < #[trigger] vx_fm_src(s, r, j)
    &&& forall|j: int| 0 <= j < s.len() ==> f(#[trigger] s[j]) is None || (0 <= vx_fm_dst(s, r, j) < r.len() && vx_fm_src(s, r, vx_fm_dst(s, r, j)) == j)
}
pub proof fn lemma_fm_is<T, U>(s: Seq<T>, r: Seq<U>, f: spec_fn(T) -> Option<U>)
    requires vx_fm_ok(s, r, f)
    ensures r == vx_fm(s, f)
{
    let src = Seq::new(r.len(), |i: int| vx_fm_src(s, r, i));
    assert forall|j: int| 0 <= j < s.len() && !src.contains(j) implies f(#[trigger] s[j]) is None by {
        if f(s[j]) is Some { assert(src[vx_fm_dst(s, r, j)] == j); }
    }
    lemma_fm_src(s, r, src, f);
}
/// Length and pointwise form of `filter_map` when nothing is dropped.
pub proof fn lemma_fm_all<T, U>(s: Seq<T>, f: spec_fn(T) -> Option<U>)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) is Some
    ensures vx_fm(s, f).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> Some(#[trigger] vx_fm(s, f)[i]) == f(s[i])
    decreases s.len()
{
    if s.len() > 0 {
        assert(f(s[s.len() - 1]) is Some);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) is Some by { assert(s[i] == s.drop_last()[i]); }
        lemma_fm_all(s.drop_last(), f);
        assert forall|i: int| 0 <= i < s.len() implies Some(#[trigger] vx_fm(s, f)[i]) == f(s[i]) by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } }
    }
}

impl<T> It<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]), self@.len() <= usize::MAX
    { unimplemented!() }
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    /// The element the `for` loop binds at step `i` (moved out of the iterator).
    #[verifier::external_body]
    pub fn take_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures
            vx_mark(self@, r@),
            vx_subseq(self@, r@, vx_idx(self@, r@)),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((&(#[trigger] r@[i]),), true),
            forall|j: int| 0 <= j < self@.len() && !vx_idx(self@, r@).contains(j) ==> f.ensures((&(#[trigger] self@[j]),), false),
            // (the same about values)
            forall|x: T| #[trigger] r@.contains(x) ==> self@.contains(x) && f.ensures((&x,), true),
            forall|x: T| #[trigger] self@.contains(x) ==> r@.contains(x) || f.ensures((&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            vx_mark(self@, r@),
            r@.len() == self@.len(),
            forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            vx_mark(self@, r@),
            // every produced element comes from some input, every input that is not dropped produces its element
            forall|i: int| #![trigger vx_fm_src(self@, r@, i)] #![trigger r@[i]] 0 <= i < r@.len() ==> 0 <= vx_fm_src(self@, r@, i) < self@.len()
                && f.ensures((self@[vx_fm_src(self@, r@, i)],), Some(r@[i])),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] vx_fm_src(self@, r@, i) < #[trigger] vx_fm_src(self@, r@, j),
            forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), None)
                || (0 <= vx_fm_dst(self@, r@, j) < r@.len() && vx_fm_src(self@, r@, vx_fm_dst(self@, r@, j)) == j),
    { unimplemented!() }
    /// `parts`: what the closure made of each element.
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            vx_mark(self@, r@),
            vx_parts(self@, r@).len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), vx_parts(self@, r@)[i]),
            forall|u: U| #[trigger] r@.contains(u) ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] vx_parts(self@, r@)[i])@.contains(u),
            forall|i: int, u: U| 0 <= i < self@.len() && #[trigger] vx_parts(self@, r@)[i]@.contains(u) ==> r@.contains(u),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == vx_rev(self@) { unimplemented!() }
    /// First `Some` in order.
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), None),
            r is Some ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((self@[i],), r)
                && (forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self@[j],), None)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&(#[trigger] self@[i]),), false),
            r is Some ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && r == Some(self@[i]) && f.ensures((&self@[i],), true)
                && (forall|j: int| 0 <= j < i ==> f.ensures((&(#[trigger] self@[j]),), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures
            !r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxFromIter<T>>(self) -> (r: C) ensures C::vx_from(self@, r) { unimplemented!() }
    /// `r` is the last of the accumulated values.
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, b: B, f: F) -> (r: B)
        requires forall|a: B, x: T| #[trigger] f.requires((a, x)),
        ensures
            vx_acc(self@, r).len() == self@.len() + 1, vx_acc(self@, r)[0] == b, vx_acc(self@, r)[self@.len() as int] == r,
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((vx_acc(self@, r)[i], self@[i]), vx_acc(self@, r)[i + 1]),
    { unimplemented!() }
    /// The same elements in some order.
    #[verifier::external_body]
    pub fn sorted(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|x: T| #![trigger r@.contains(x)] #![trigger self@.contains(x)] r@.contains(x) <==> self@.contains(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@[self@.len() - 1])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_iter(self) -> (r: It<T>) ensures r@ == self@ { self }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>)
        ensures forall|x: T| #![trigger r@.contains(x)] #![trigger self@.contains(&x)] r@.contains(x) <==> self@.contains(&x), r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        ensures forall|x: T| #![trigger r@.contains(x)] #![trigger self@.contains(&x)] r@.contains(x) <==> self@.contains(&x), r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i]
    { unimplemented!() }
}

pub trait VxFromIter<T>: Sized { spec fn vx_from(s: Seq<T>, r: Self) -> bool; }
impl<T> VxFromIter<T> for Vec<T> { open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T> VxFromIter<EyreResult<T>> for EyreResult<Vec<T>> {
    open spec fn vx_from(s: Seq<EyreResult<T>>, r: Self) -> bool {
        &&& r is Ok ==> r->Ok_0@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger r->Ok_0@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, VErr>(r->Ok_0@[i])
        &&& r is Err ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err
    }
}
impl<T> VxFromIter<T> for HashSet<T> {
    open spec fn vx_from(s: Seq<T>, r: Self) -> bool {
        &&& forall|x: T| #[trigger] r@.contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
        &&& forall|x: T| #[trigger] r@.contains(x) <==> s.contains(x)
    }
}
impl<K, V> VxFromIter<(K, V)> for HashMap<K, V> {
    open spec fn vx_from(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> r@.dom().contains((#[trigger] s[i]).0)
        &&& forall|k: K| #[trigger] r@.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == (k, r@[k])
                && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k)
    }
}

/// Sources of iteration.
pub trait VIter { type Item; spec fn vx_seq(self, s: Seq<Self::Item>) -> bool; fn viter(self) -> (r: It<Self::Item>) ensures self.vx_seq(r@); }

impl<'a, T> VIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vx_seq(self, s: Seq<&'a T>) -> bool {
        &&& s == vx_refs::<T>(self@)
        &&& forall|x: T| #![trigger self@.contains(x)] #![trigger s.contains(&x)] self@.contains(x) <==> s.contains(&x)
    }
    #[verifier::external_body]
    fn viter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> VIter for &'a [T] {
    type Item = &'a T;
    open spec fn vx_seq(self, s: Seq<&'a T>) -> bool {
        &&& s == vx_refs::<T>(self@)
        &&& forall|x: T| #![trigger self@.contains(x)] #![trigger s.contains(&x)] self@.contains(x) <==> s.contains(&x)
    }
    #[verifier::external_body]
    fn viter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> VIter for &'a HashSet<T> {
    type Item = &'a T;
    open spec fn vx_seq(self, s: Seq<&'a T>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> self@.contains(*(#[trigger] s[i]))
        &&& forall|x: T| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == x
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j])
        &&& forall|x: T| #![trigger self@.contains(x)] #![trigger s.contains(&x)] self@.contains(x) <==> s.contains(&x)
    }
    #[verifier::external_body]
    fn viter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, K, V> VIter for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vx_seq(self, s: Seq<(&'a K, &'a V)>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> self@.dom().contains(*(#[trigger] s[i]).0) && self@[*s[i].0] == *s[i].1
        &&& forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    }
    #[verifier::external_body]
    fn viter(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() }
}

/// `IntoIterator` for the `for` loop desugaring.
pub trait VxIntoIter { type Item; spec fn vx_iseq(self, s: Seq<Self::Item>) -> bool; fn vx_into_impl(self) -> (r: It<Self::Item>) ensures self.vx_iseq(r@); }
impl<T> VxIntoIter for It<T> {
    type Item = T;
    open spec fn vx_iseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<T>) { self }
}
impl<T> VxIntoIter for Vec<T> {
    type Item = T;
    open spec fn vx_iseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<T>) { It { v: self } }
}
impl<T, const N: usize> VxIntoIter for [T; N] {
    type Item = T;
    open spec fn vx_iseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vx_iseq(self, s: Seq<&'a T>) -> bool { self.vx_seq(s) }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<&'a T>) { self.viter() }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn vx_iseq(self, s: Seq<&'a T>) -> bool { self.vx_seq(s) }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<&'a T>) { self.viter() }
}
impl<'a, T> VxIntoIter for &'a HashSet<T> {
    type Item = &'a T;
    open spec fn vx_iseq(self, s: Seq<&'a T>) -> bool { self.vx_seq(s) }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<&'a T>) { self.viter() }
}
impl<T> VxIntoIter for HashSet<T> {
    type Item = T;
    open spec fn vx_iseq(self, s: Seq<T>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> self@.contains(#[trigger] s[i])
        &&& forall|x: T| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == x
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) != (#[trigger] s[j])
        &&& forall|x: T| #![trigger self@.contains(x)] #![trigger s.contains(x)] self@.contains(x) <==> s.contains(x)
    }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, K, V> VxIntoIter for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vx_iseq(self, s: Seq<(&'a K, &'a V)>) -> bool { self.vx_seq(s) }
    #[verifier::external_body]
    fn vx_into_impl(self) -> (r: It<(&'a K, &'a V)>) { self.viter() }
}
pub fn vx_into_iter<C: VxIntoIter>(c: C) -> (r: It<C::Item>) ensures c.vx_iseq(r@) { c.vx_into_impl() }
pub trait VxIntoIterMethod: VxIntoIter + Sized { fn vinto_iter(self) -> (r: It<<Self as VxIntoIter>::Item>) ensures self.vx_iseq(r@); }
impl<T> VxIntoIterMethod for Vec<T> { fn vinto_iter(self) -> (r: It<T>) { vx_into_iter(self) } }
impl<'a, T> VxIntoIterMethod for &'a Vec<T> { fn vinto_iter(self) -> (r: It<&'a T>) { vx_into_iter(self) } }
impl<'a, T> VxIntoIterMethod for &'a [T] { fn vinto_iter(self) -> (r: It<&'a T>) { vx_into_iter(self) } }
impl<T> VxIntoIterMethod for HashSet<T> { fn vinto_iter(self) -> (r: It<T>) { vx_into_iter(self) } }

// ---- assumed contracts on std collections ----------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures
            self@.dom().contains(*k) ==> r == Some(&self@[*k]),
            !self@.dom().contains(*k) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            old(self)@.dom().contains(k) ==> r == Some(old(self)@[k]),
            !old(self)@.dom().contains(k) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            old(self)@.dom().contains(*k) ==> r == Some(old(self)@[*k]),
            !old(self)@.dom().contains(*k) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: It<&'a K>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i])),
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
            forall|k: K| #![trigger self@.dom().contains(k)] #![trigger r@.contains(&k)] self@.dom().contains(k) <==> r@.contains(&k),
    { unimplemented!() }
}
impl<K, T> HashMap<K, Vec<T>> {
    /// `entry(k).or_default().push(x)`
    #[verifier::external_body]
    pub fn vx_entry_push(&mut self, k: K, x: T)
        ensures
            final(self)@.dom() == old(self)@.dom().insert(k),
            final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::<T>::empty() }).push(x),
            forall|j: K| j != k && old(self)@.dom().contains(j) ==> #[trigger] final(self)@[j] == old(self)@[j],
    { unimplemented!() }
}
pub open spec fn rmem<K, T>(m: Map<K, HashSet<T>>, k: K, x: T) -> bool { m.dom().contains(k) && m[k]@.contains(x) }
impl<K, T> HashMap<K, HashSet<T>> {
    /// `entry(k).or_default().insert(x)`
    #[verifier::external_body]
    pub fn vx_entry_insert(&mut self, k: K, x: T) -> (r: bool)
        ensures
            final(self)@.dom() == old(self)@.dom().insert(k),
            final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Set::<T>::empty() }).insert(x),
            forall|j: K| j != k && old(self)@.dom().contains(j) ==> #[trigger] final(self)@[j] == old(self)@[j],
            forall|j: K, y: T| #[trigger] rmem(final(self)@, j, y) <==> (rmem(old(self)@, j, y) || (j == k && y == x)),
    { unimplemented!() }
    /// `for s in self.values_mut() { s.remove(x); }`
    #[verifier::external_body]
    pub fn vx_remove_each(&mut self, x: &T)
        ensures
            final(self)@.dom() == old(self)@.dom(),
            forall|j: K, y: T| #[trigger] rmem(final(self)@, j, y) <==> (rmem(old(self)@, j, y) && y != *x),
    { unimplemented!() }
    /// `values().flatten()`
    #[verifier::external_body]
    pub fn vx_values_flat<'a>(&'a self) -> (r: It<&'a T>)
        ensures forall|x: T| #[trigger] r@.contains(&x) <==> exists|k: K| #[trigger] rmem(self@, k, x),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { m: std::collections::HashSet<T> }
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &T) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn union<'a>(&'a self, o: &'a HashSet<T>) -> (r: It<&'a T>)
        ensures forall|x: T| #[trigger] r@.contains(&x) <==> self@.contains(x) || o@.contains(x) { unimplemented!() }
}

} // verus!
