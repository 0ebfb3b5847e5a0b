/// Trusted contracts of the std / external functions the code calls (everything external_body here
/// is an assumption; it is listed in the evidence).
pub mod vax {
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use crate::vutf::*;
verus! {
pub broadcast axiom fn ax_eq1(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq2(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq3(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq7(a: &str, b: String) ensures #[trigger] <&str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq8() ensures #![trigger <&str as PartialEqSpec<String>>::obeys_eq_spec()] <&str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq4() ensures #![trigger <String as PartialEqSpec<str>>::obeys_eq_spec()] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq5() ensures #![trigger <String as PartialEqSpec<&str>>::obeys_eq_spec()] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq6() ensures #![trigger <String as PartialEqSpec<String>>::obeys_eq_spec()] <String as PartialEqSpec<String>>::obeys_eq_spec();
/// a &str never holds more than isize::MAX bytes (std guarantee)
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] vstd::utf8::encode_utf8(s@).len() <= isize::MAX;
/// the same for the text a String holds
pub broadcast axiom fn ax_string_len(s: &String) ensures #[trigger] vstd::utf8::encode_utf8(s@).len() <= isize::MAX;
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
/// a &str value is determined by its characters (needed for match on string patterns)
pub broadcast axiom fn ax_str_ext(s: &str) ensures str_of(#[trigger] s@) == s;
pub broadcast group vgroup { ax_str_ext, ax_eq1, ax_eq2, ax_eq3, ax_eq4, ax_eq5, ax_eq6, ax_eq7, ax_eq8, ax_str_len }
} // verus!
}
pub mod vstubs {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vutf::*;
use crate::vspec::*;
use crate::vspec_json::hex4;
verus! {
broadcast use vstd::group_vstd_default;

// ---- HashSet<String>: a set of texts -----------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { p: std::marker::PhantomData<T> }
impl HashSet<String> {
    pub uninterp spec fn set(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.set() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, s: String) -> (r: bool) ensures final(self).set() == old(self).set().insert(s@), r == !old(self).set().contains(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, s: &str) -> (r: bool) ensures r == self.set().contains(s@) { unimplemented!() }
    /// same name after the renaming of `contains` (R3)
    pub fn v_contains(&self, s: &str) -> (r: bool) ensures r == self.set().contains(s@) { self.contains(s) }
}
impl Clone for HashSet<String> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- the user's replacer: an opaque function ------------------------------------------------------
#[verifier::external_body]
pub struct EncodeReplacer { p: u8 }
impl EncodeReplacer {
    /// a call of the user's function: any answer; the call and its answer are recorded
    #[verifier::external_body]
    pub fn v_call(&self, k: &str, v: &crate::JsonValue, p: &[crate::options::PathSegment], Tracked(tr): Tracked<&mut RpLog>) -> (r: Option<crate::JsonValue>)
        ensures final(tr).l == old(tr).l.push(RC { k: k@, v: v.sv(), p: crate::options::pv(p@), a: match r { Some(x) => Some(x.sv()), None => None } })
        opens_invariants none
    { unimplemented!() }
}
/// a new record of calls
pub axiom fn new_log() -> (tracked r: RpLog) ensures r.l == Seq::<RC>::empty();
/// E.into_iter().enumerate()
pub fn v_enum<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i]
{
    let mut o: Vec<(usize, T)> = Vec::new();
    let ghost s = v@;
    let mut i: usize = 0;
    let n = v.len();
    for x in it: v
        invariant it.seq() == s, n == s.len(), i == it.index(), o@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] o@[j]).0 == j && o@[j].1 == s[j],
    {
        o.push((i, x));
        if i < n { i += 1; }
    }
    o
}
/// lines.join(sep) for a separator of one character
pub trait VJoin { spec fn vjs(&self) -> Seq<Seq<char>>;
    fn v_join(&self, sep: &str) -> (r: String) ensures sep@.len() == 1 ==> r@ == join(self.vjs(), sep@[0]); }
impl VJoin for [String] { open spec fn vjs(&self) -> Seq<Seq<char>> { crate::strs(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }

// ---- patterns -------------------------------------------------------------------------------
pub trait VPat {
    spec fn pseq(&self) -> Seq<char>;
}
impl VPat for char {
    open spec fn pseq(&self) -> Seq<char> { seq![*self] }
}
impl VPat for &str {
    open spec fn pseq(&self) -> Seq<char> { self@ }
}

pub trait VLen {
    spec fn vlen(&self) -> int;
}

// ---- str ------------------------------------------------------------------------------------
pub trait VStr {
    spec fn vs(&self) -> Seq<char>;
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool)
        ensures r == has_sub(self.vs(), p.pseq());
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            None => sub_find(self.vs(), p.pseq(), 0) is None,
            Some(b) => is_bpos(self.vs(), b as int) && sub_find(self.vs(), p.pseq(), 0) == Some(cidx(self.vs(), b as int)),
        };
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool)
        ensures r == p.pseq().is_prefix_of(self.vs());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool)
        ensures r == p.pseq().is_suffix_of(self.vs());
    fn v_trim(&self) -> (r: &str) ensures r@ == trim(self.vs());
    /// chars().filter(..).count(), used as a capacity hint only
    fn v_some_count(&self) -> (r: usize) ensures r < isize::MAX;
    fn v_trim_start(&self) -> (r: &str) ensures r@ == ltrim(self.vs());
    fn v_parse<F: VParse>(&self) -> (r: Result<F, VParseError>)
        ensures match r { Ok(v) => F::pspec(self.vs()) == Some(v), Err(_) => F::pspec(self.vs()) is None };
    fn v_range(&self, a: usize, b: usize) -> (r: &str)
        requires is_bpos(self.vs(), a as int), is_bpos(self.vs(), b as int), a <= b,
        ensures r@ == self.vs().subrange(cidx(self.vs(), a as int), cidx(self.vs(), b as int));
    fn v_from(&self, a: usize) -> (r: &str)
        requires is_bpos(self.vs(), a as int),
        ensures r@ == self.vs().skip(cidx(self.vs(), a as int));
    fn v_to(&self, b: usize) -> (r: &str)
        requires is_bpos(self.vs(), b as int),
        ensures r@ == self.vs().take(cidx(self.vs(), b as int));
    fn v_eq(&self, o: &str) -> (r: bool)
        ensures r == (self.vs() == o@);
    /// one character, n times
    fn v_repeat(&self, n: usize) -> (r: String)
        ensures self.vs().len() == 1 ==> r@ == Seq::new(n as nat, |i: int| self.vs()[0]);
    /// split on a single character (path segments)
    fn v_split(&self, c: char) -> (r: Vec<&str>)
        ensures rstrs(r@) == split_on(self.vs(), c);
}
pub open spec fn rstrs(a: Seq<&str>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| a[i]@) }

impl VStr for str {
    open spec fn vs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_some_count(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse<F: VParse>(&self) -> (r: Result<F, VParseError>) { unimplemented!() }
    #[verifier::external_body]
    fn v_range(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_eq(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_split(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
}

pub struct VParseError {}
pub trait VParse: Sized {
    spec fn pspec(s: Seq<char>) -> Option<Self>;
}
impl VParse for usize {
    open spec fn pspec(s: Seq<char>) -> Option<usize> { parse_usize(s) }
}
impl VParse for f64 {
    open spec fn pspec(s: Seq<char>) -> Option<f64> { parse_f64(s) }
}

// ---- char / u8 ------------------------------------------------------------------------------
pub trait VCh {
    spec fn code(&self) -> int;
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.code() <= 57);
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (65 <= self.code() <= 90 || 97 <= self.code() <= 122);
    fn v_is_ascii_alphanumeric(&self) -> (r: bool)
        ensures r == (48 <= self.code() <= 57 || 65 <= self.code() <= 90 || 97 <= self.code() <= 122);
    fn v_is_ascii(&self) -> (r: bool) ensures r == (self.code() < 128);
    /// char::is_control: category Cc
    fn v_is_control(&self) -> (r: bool) ensures r == (0 <= self.code() < 0x20 || 0x7f <= self.code() <= 0x9f);
}
impl VCh for char {
    open spec fn code(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_control(&self) -> (r: bool) { unimplemented!() }
}
impl VCh for u8 {
    open spec fn code(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_control(&self) -> (r: bool) { unimplemented!() }
}

// ---- f64 ------------------------------------------------------------------------------------
pub trait VF64 {
    spec fn fv(&self) -> f64;
    fn v_is_zero(&self) -> (r: bool) ensures r == f_is_zero(self.fv()), f_is_zero(self.fv()) ==> f_is_finite(self.fv()), f_is_nan(self.fv()) ==> !f_is_finite(self.fv());
    fn v_is_nan(&self) -> (r: bool) ensures r == f_is_nan(self.fv()), f_is_zero(self.fv()) ==> f_is_finite(self.fv()), f_is_nan(self.fv()) ==> !f_is_finite(self.fv());
    fn v_is_finite(&self) -> (r: bool) ensures r == f_is_finite(self.fv()), f_is_zero(self.fv()) ==> f_is_finite(self.fv()), f_is_nan(self.fv()) ==> !f_is_finite(self.fv());
    fn v_is_sign_negative(&self) -> (r: bool) ensures r == f_is_neg(self.fv());
}
impl VF64 for f64 {
    open spec fn fv(&self) -> f64 { *self }
    #[verifier::external_body]
    fn v_is_zero(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_nan(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_finite(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_sign_negative(&self) -> (r: bool) { unimplemented!() }
}
/// arithmetic on floats: some float
#[verifier::external_body]
pub fn v_f64_op(a: f64, b: f64) -> (r: f64) { unimplemented!() }
#[verifier::external_body]
pub fn v_f64_some() -> (r: f64) { unimplemented!() }
pub trait VAsF64 { spec fn asf(&self) -> f64; fn v_as_f64(&self) -> (r: f64) ensures r == self.asf(); }
pub uninterp spec fn f_of_int(i: int) -> f64;
impl VAsF64 for usize { open spec fn asf(&self) -> f64 { f_of_int(*self as int) }
    #[verifier::external_body]
    fn v_as_f64(&self) -> (r: f64) { unimplemented!() } }
impl VAsF64 for i64 { open spec fn asf(&self) -> f64 { f_of_int(*self as int) }
    #[verifier::external_body]
    fn v_as_f64(&self) -> (r: f64) { unimplemented!() } }
#[verifier::external_body]
pub exec const v_f64_NAN: f64 ensures f_is_nan(v_f64_NAN), !f_is_finite(v_f64_NAN) { f64::NAN }
#[verifier::external_body]
pub fn v_f0() -> (r: f64) ensures r == f_zero() { unimplemented!() }
#[verifier::external_body]
pub fn v_f64_is_finite(f: f64) -> (r: bool) ensures r == f_is_finite(f) { unimplemented!() }
#[verifier::external_body]
pub fn v_f64_is_nan(f: f64) -> (r: bool) ensures r == f_is_nan(f) { unimplemented!() }
pub trait VInt { spec fn v_int(&self) -> Option<int>; }
impl VInt for Option<usize> { open spec fn v_int(&self) -> Option<int> { match *self { Some(x) => Some(x as int), None => None } } }
pub trait VOkAnd<T> {
    spec fn rv(&self) -> Result<T, VParseError>;
    fn v_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.rv() is Ok ==> f.requires((self.rv()->Ok_0,)),
        ensures self.rv() is Err ==> !r, self.rv() is Ok ==> f.ensures((self.rv()->Ok_0,), r);
}
impl<T> VOkAnd<T> for Result<T, VParseError> {
    open spec fn rv(&self) -> Result<T, VParseError> { *self }
    #[verifier::external_body]
    fn v_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}

// ---- Display --------------------------------------------------------------------------------
pub trait VDisp {
    spec fn disp(&self) -> Seq<char>;
    fn v_disp(&self) -> (r: String) ensures r@ == self.disp();
    fn v_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl VDisp for char {
    open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for usize {
    open spec fn disp(&self) -> Seq<char> { show_nat(*self as nat) }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for bool {
    open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for f64 {
    open spec fn disp(&self) -> Seq<char> { show_f64(*self) }
    #[verifier::external_body]
    fn v_disp(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
/// {:04x} of a u32
pub trait VHex { spec fn hv(&self) -> int; fn v_hex4(&self) -> (r: String) ensures 0 <= self.hv() < 0x10000 ==> r@ == hex4(self.hv()); }
impl VHex for u32 { open spec fn hv(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_hex4(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn v_opaque_fmt<T: ?Sized>(t: &T) -> (r: String) { unimplemented!() }

pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == blen(s@);

pub trait VTry<T> {
    spec fn vseq(&self) -> Seq<T>;
    /// iter().map(f).collect::<Result<Vec<_>, _>>()
    fn v_iter_try_map<U, E, F: Fn(&T) -> Result<U, E>>(&self, f: F) -> (r: Result<Vec<U>, E>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures match r {
            Ok(o) => o@.len() == self.vseq().len() && forall|i: int| 0 <= i < o@.len() ==> f.ensures((&self.vseq()[i],), Ok(#[trigger] o@[i])),
            Err(e) => exists|i: int| #![trigger self.vseq()[i]] 0 <= i < self.vseq().len() && f.ensures((&self.vseq()[i],), Err(e)) };
}
impl<T> VTry<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn v_iter_try_map<U, E, F: Fn(&T) -> Result<U, E>>(&self, f: F) -> (r: Result<Vec<U>, E>) {
        let mut o: Vec<U> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), o@.len() == i, forall|x: &T| #[trigger] f.requires((x,)),
              forall|j: int| 0 <= j < i ==> f.ensures((&self@[j],), Ok(#[trigger] o@[j])),
            decreases self.len() - i
        {
            match f(&self[i]) {
                Ok(u) => { o.push(u); }
                Err(e) => { assert(f.ensures((&self.vseq()[i as int],), Err(e))); return Err(e); }
            }
            i += 1;
        }
        Ok(o)
    }
}
pub trait VIntoTry<T> {
    spec fn viseq(&self) -> Seq<T>;
    /// into_iter().map(f).collect::<Result<Vec<_>, _>>()
    fn v_into_try_map<U, E, F: Fn(T) -> Result<U, E>>(self, f: F) -> (r: Result<Vec<U>, E>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures match r {
            Ok(o) => o@.len() == self.viseq().len() && forall|i: int| 0 <= i < o@.len() ==> f.ensures((self.viseq()[i],), Ok(#[trigger] o@[i])),
            Err(e) => exists|i: int| #![trigger self.viseq()[i]] 0 <= i < self.viseq().len() && f.ensures((self.viseq()[i],), Err(e)) };
}
impl<T> VIntoTry<T> for Vec<T> {
    open spec fn viseq(&self) -> Seq<T> { self@ }
    fn v_into_try_map<U, E, F: Fn(T) -> Result<U, E>>(self, f: F) -> (r: Result<Vec<U>, E>) {
        let mut o: Vec<U> = Vec::new();
        let ghost s = self@;
        for x in it: self
            invariant it.seq() == s, o@.len() == it.index(), forall|x: T| #[trigger] f.requires((x,)),
              forall|j: int| 0 <= j < it.index() ==> f.ensures((s[j],), Ok(#[trigger] o@[j])),
        {
            let ghost k = it.index();
            assert(x == s[k as int]);
            match f(x) {
                Ok(u) => { o.push(u); }
                Err(e) => { assert(f.ensures((self.viseq()[k as int],), Err(e))); return Err(e); }
            }
        }
        Ok(o)
    }
}
/// `a[i..]`, `a[..j]`, `a[i..j]` on slices
pub trait VSlice<T> {
    spec fn vslq(&self) -> Seq<T>;
    fn v_from(&self, i: usize) -> (r: &[T]) requires i <= self.vslq().len() ensures r@ == self.vslq().skip(i as int);
    fn v_to(&self, j: usize) -> (r: &[T]) requires j <= self.vslq().len() ensures r@ == self.vslq().take(j as int);
    fn v_sub(&self, i: usize, j: usize) -> (r: &[T]) requires i <= j <= self.vslq().len() ensures r@ == self.vslq().subrange(i as int, j as int);
}
impl<T> VSlice<T> for [T] {
    open spec fn vslq(&self) -> Seq<T> { self@ }
    fn v_from(&self, i: usize) -> (r: &[T]) { let r = vstd::slice::slice_subrange(self, i, self.len()); assert(r@ =~= self@.skip(i as int)); r }
    fn v_to(&self, j: usize) -> (r: &[T]) { let r = vstd::slice::slice_subrange(self, 0, j); assert(r@ =~= self@.take(j as int)); r }
    fn v_sub(&self, i: usize, j: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, i, j) }
}
pub trait VMap<T>: Sized {
    spec fn vmseq(&self) -> Seq<T>;
    /// into_iter().map(f).collect::<Vec<_>>()
    fn v_into_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vmseq().len() ==> #[trigger] f.requires((self.vmseq()[i],)),
        ensures r@.len() == self.vmseq().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.vmseq()[i],), #[trigger] r@[i]);
}
impl<T> VMap<T> for Vec<T> {
    open spec fn vmseq(&self) -> Seq<T> { self@ }
    fn v_into_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) {
        let mut o: Vec<U> = Vec::new();
        let ghost s = self@;
        assert(self.vmseq() == s);
        for x in it: self
            invariant it.seq() == s, o@.len() == it.index(), forall|i: int| 0 <= i < s.len() ==> #[trigger] f.requires((s[i],)),
              forall|j: int| 0 <= j < it.index() ==> f.ensures((s[j],), #[trigger] o@[j]),
        {
            assert(x == s[it.index() as int]);
            o.push(f(x));
        }
        o
    }
}
pub trait VIterMap<T> {
    spec fn vimseq(&self) -> Seq<T>;
    /// iter().map(f).collect::<Vec<_>>()
    fn v_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: Vec<U>) where T: 'a
        requires forall|i: int| 0 <= i < self.vimseq().len() ==> #[trigger] f.requires((&self.vimseq()[i],)),
        ensures r@.len() == self.vimseq().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vimseq()[i],), #[trigger] r@[i]);
}
impl<T> VIterMap<T> for [T] {
    open spec fn vimseq(&self) -> Seq<T> { self@ }
    fn v_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: Vec<U>) where T: 'a {
        assert(self.vimseq() == self@);
        let mut o: Vec<U> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), o@.len() == i, forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
              forall|j: int| 0 <= j < i ==> f.ensures((&self@[j],), #[trigger] o@[j]),
            decreases self.len() - i
        {
            o.push(f(&self[i]));
            i += 1;
        }
        o
    }
}
pub trait VIterTest<T>: View<V = Seq<T>> {
    /// iter().position(p)
    fn v_iter_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures match r {
            Some(k) => k < self@.len() && f.ensures((&self@[k as int],), true) && (forall|i: int| #![trigger self@[i]] 0 <= i < k ==> f.ensures((&self@[i],), false)),
            None => forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), false) };
    /// iter().all(p)
    fn v_iter_all<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures r ==> (forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), true)),
            !r ==> (exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((&self@[i],), false));
    /// iter().any(p)
    fn v_iter_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures !r ==> (forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), false)),
            r ==> (exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && f.ensures((&self@[i],), true));
}
impl<T> VIterTest<T> for [T] {
    fn v_iter_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
              forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&self@[j],), false),
            decreases self.len() - i
        {
            if f(&self[i]) { return Some(i); }
            assert(f.ensures((&self@[i as int],), false));
            i += 1;
        }
        None
    }
    fn v_iter_all<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
              forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&self@[j],), true),
            decreases self.len() - i
        {
            if !f(&self[i]) { assert(f.ensures((&self@[i as int],), false)); return false; }
            assert(f.ensures((&self@[i as int],), true));
            i += 1;
        }
        true
    }
    fn v_iter_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
              forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&self@[j],), false),
            decreases self.len() - i
        {
            if f(&self[i]) { assert(f.ensures((&self@[i as int],), true)); return true; }
            assert(f.ensures((&self@[i as int],), false));
            i += 1;
        }
        false
    }
}
/// sums of lengths (capacity hints): the caller shows they stay in range
pub open spec fn nsum(a: Seq<nat>) -> nat decreases a.len() { if a.len() == 0 { 0 } else { nsum(a.drop_last()) + a.last() } }
pub proof fn l_nsum(a: Seq<nat>, k: int) requires 0 <= k <= a.len() ensures nsum(a.take(k)) <= nsum(a), k < a.len() ==> nsum(a.take(k + 1)) == nsum(a.take(k)) + a[k] && nsum(a.take(k + 1)) <= nsum(a) decreases a.len()
{
    if k == a.len() { assert(a.take(k) =~= a); } else {
        l_nsum(a.drop_last(), k); assert(a.drop_last().take(k) =~= a.take(k));
        assert(a.take(k + 1).drop_last() =~= a.take(k));
        if k + 1 < a.len() { assert(a.drop_last().take(k + 1) =~= a.take(k + 1)); } else { assert(a.take(k + 1) =~= a); }
    }
}
pub open spec fn nats(d: Seq<usize>) -> Seq<nat> { Seq::new(d.len(), |i: int| d[i] as nat) }
pub proof fn l_nsum_le(a: Seq<nat>, b: Seq<nat>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i] ensures nsum(a) <= nsum(b) decreases a.len()
{ if a.len() > 0 { l_nsum_le(a.drop_last(), b.drop_last()); } }
pub trait VIterSum<T>: View<V = Seq<T>> {
    /// iter().map(f).sum::<usize>()
    fn v_iter_map_sum<F: Fn(&T) -> usize>(&self, f: F) -> (r: usize)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
            exists|w: Seq<nat>| #[trigger] nsum(w) <= usize::MAX && w.len() == self@.len() && forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] f.ensures((&self@[i],), q) ==> q <= w[i],
        ensures exists|d: Seq<usize>| d.len() == self@.len() && r == #[trigger] nsum(nats(d)) && forall|i: int| 0 <= i < d.len() ==> #[trigger] f.ensures((&self@[i],), d[i]),
            forall|w: Seq<nat>| w.len() == self@.len() && (forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] f.ensures((&self@[i],), q) ==> q <= w[i]) ==> r <= #[trigger] nsum(w),
            forall|w: Seq<nat>| w.len() == self@.len() && (forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] f.ensures((&self@[i],), q) ==> q == w[i]) ==> r == #[trigger] nsum(w);
}
impl<T> VIterSum<T> for [T] {
    fn v_iter_map_sum<F: Fn(&T) -> usize>(&self, f: F) -> (r: usize) {
        let ghost w = choose|w: Seq<nat>| #[trigger] nsum(w) <= usize::MAX && w.len() == self@.len() && forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] f.ensures((&self@[i],), q) ==> q <= w[i];
        let ghost mut d = Seq::<usize>::empty();
        let mut s: usize = 0;
        let mut i: usize = 0;
        proof { assert(nats(d) =~= Seq::empty()); }
        while i < self.len()
            invariant i <= self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)), d.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] f.ensures((&self@[j],), d[j]),
                nsum(w) <= usize::MAX, w.len() == self@.len(), forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] f.ensures((&self@[i],), q) ==> q <= w[i],
                s == nsum(nats(d))
            decreases self.len() - i
        {
            let x = f(&self[i]);
            proof {
                let d0 = d; d = d.push(x); assert(f.ensures((&self@[i as int],), x));
                assert(nats(d).drop_last() =~= nats(d0)); assert(nats(d).last() == x as nat);
                assert forall|j: int| 0 <= j < d.len() implies nats(d)[j] <= w.take(i + 1)[j] by { assert(f.ensures((&self@[j],), d[j])); }
                l_nsum_le(nats(d), w.take(i + 1)); l_nsum(w, i as int);
            }
            s = s + x;
            i += 1;
        }
        proof {
            assert forall|v: Seq<nat>| v.len() == self@.len() && (forall|i: int, q: usize| 0 <= i < v.len() && #[trigger] f.ensures((&self@[i],), q) ==> q <= v[i]) implies s <= #[trigger] nsum(v) by {
                assert forall|j: int| 0 <= j < v.len() implies nats(d)[j] <= v[j] by { assert(f.ensures((&self@[j],), d[j])); }
                l_nsum_le(nats(d), v);
            }
            assert forall|v: Seq<nat>| v.len() == self@.len() && (forall|i: int, q: usize| 0 <= i < v.len() && #[trigger] f.ensures((&self@[i],), q) ==> q == v[i]) implies s == #[trigger] nsum(v) by {
                assert forall|j: int| 0 <= j < v.len() implies v[j] == nats(d)[j] by { assert(f.ensures((&self@[j],), d[j])); }
                assert(v =~= nats(d));
            }
        }
        s
    }
}
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> Cow<'a, str> {
    pub open spec fn cv(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.cv() { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => s.as_str() } }
}
pub trait VOptMap<T>: Sized {
    spec fn ov(&self) -> Option<T>;
    fn v_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        requires self.ov() is None ==> d.requires(()), self.ov() is Some ==> f.requires((self.ov()->0,)),
        ensures self.ov() is None ==> d.ensures((), r), self.ov() is Some ==> f.ensures((self.ov()->0,), r);
}
impl<T> VOptMap<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn v_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { match self { None => d(), Some(x) => f(x) } }
}
pub open spec fn blens(a: Seq<Seq<char>>) -> Seq<nat> { Seq::new(a.len(), |i: int| blen(a[i]) as nat) }
/// X[i].clone() for the item types in use: the copy is equal
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for (String, crate::JsonValue) { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for crate::JsonValue { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for crate::options::PathSegment { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for crate::decode::scanner::ParsedLine { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
/// X.to_vec() on a slice of clonable items
pub trait VToVec<T> { spec fn vtseq(&self) -> Seq<T>; fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vtseq(); }
impl<T: VClone> VToVec<T> for [T] {
    open spec fn vtseq(&self) -> Seq<T> { self@ }
    fn v_to_vec(&self) -> (r: Vec<T>) {
        let mut o: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), o@ =~= self@.take(i as int),
            decreases self.len() - i
        { o.push(self[i].v_clone()); i += 1; }
        assert(self@.take(i as int) =~= self@);
        o
    }
}
pub open spec fn somes<U>(a: Seq<Option<U>>) -> Seq<U> decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match a.last() { Some(x) => somes(a.drop_last()).push(x), None => somes(a.drop_last()) } } }
pub trait VIterFilterMap<T>: View<V = Seq<T>> {
    /// iter().filter_map(f).collect::<Vec<_>>()
    fn v_iter_filter_map<U, F: Fn(&T) -> Option<U>>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures exists|w: Seq<Option<U>>| w.len() == self@.len() && r@ == #[trigger] somes(w) && forall|i: int| 0 <= i < w.len() ==> f.ensures((&self@[i],), #[trigger] w[i]);
}
impl<T> VIterFilterMap<T> for [T] {
    fn v_iter_filter_map<U, F: Fn(&T) -> Option<U>>(&self, f: F) -> (r: Vec<U>) {
        let mut o: Vec<U> = Vec::new();
        let mut i: usize = 0;
        let ghost mut w = Seq::<Option<U>>::empty();
        while i < self.len()
            invariant i <= self@.len(), w.len() == i, o@ == somes(w), forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
              forall|j: int| 0 <= j < i ==> f.ensures((&self@[j],), #[trigger] w[j]),
            decreases self.len() - i
        {
            let q = f(&self[i]);
            proof { let v = w; w = w.push(q); assert(w.drop_last() =~= v); assert(f.ensures((&self@[i as int],), w[i as int])); }
            if let Some(x) = q { o.push(x); }
            i += 1;
        }
        o
    }
}
pub trait VIterFind<T>: View<V = Seq<T>> {
    /// iter().find(p)
    fn v_iter_find<F: Fn(&&T) -> bool>(&self, f: F) -> (r: Option<&T>)
        requires forall|x: &T| #[trigger] f.requires((&x,)),
        ensures match r {
            Some(x) => exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && *x == self@[i] && f.ensures((&&self@[i],), true) && (forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&&self@[j],), false)),
            None => forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&&self@[i],), false) };
}
impl<T> VIterFind<T> for [T] {
    fn v_iter_find<F: Fn(&&T) -> bool>(&self, f: F) -> (r: Option<&T>) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|x: &T| #[trigger] f.requires((&x,)),
              forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&&self@[j],), false),
            decreases self.len() - i
        {
            let x = &self[i];
            if f(&x) { assert(f.ensures((&&self@[i as int],), true)); return Some(x); }
            assert(f.ensures((&&self@[i as int],), false));
            i += 1;
        }
        None
    }
}
pub trait VNum { spec fn nv(&self) -> nat;
    fn v_is_multiple_of(&self, o: usize) -> (r: bool) ensures r == (if o == 0 { self.nv() == 0 } else { self.nv() % (o as nat) == 0 }); }
impl VNum for usize { open spec fn nv(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn v_is_multiple_of(&self, o: usize) -> (r: bool) { unimplemented!() } }
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => b });
pub trait VUnwrapElse<T, E>: Sized {
    spec fn urv(&self) -> Result<T, E>;
    fn v_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T)
        requires self.urv() is Err ==> f.requires((self.urv()->Err_0,)),
        ensures match self.urv() { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
}
impl<T, E> VUnwrapElse<T, E> for Result<T, E> {
    open spec fn urv(&self) -> Result<T, E> { *self }
    fn v_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { match self { Ok(x) => x, Err(e) => f(e) } }
}
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == enc(s@);
/// a byte string literal
pub fn v_bs<'a, const N: usize>(a: &'a [u8; N]) -> (r: &'a [u8]) ensures r@ == a@ { a }
#[verifier::external_body]
pub fn v_byte(b: u8) -> (r: &'static [u8]) ensures r@ == seq![b] { unimplemented!() }
/// a panic site: reachable only if verification fails
#[verifier::external_body]
pub fn v_panic() -> (r: !) requires false { unimplemented!() }
/// Option::unwrap_or_else, is_some_and
pub trait VOptElse<T>: Sized {
    spec fn oel(&self) -> Option<T>;
    fn v_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.oel() is None ==> f.requires(())
        ensures match self.oel() { Some(x) => r == x, None => f.ensures((), r) };
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.oel() is Some ==> f.requires((self.oel()->0,))
        ensures match self.oel() { Some(x) => f.ensures((x,), r), None => r == d };
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.oel() is Some ==> f.requires((self.oel()->0,))
        ensures match self.oel() { Some(x) => f.ensures((x,), r), None => !r };
}
impl<T> VOptElse<T> for Option<T> {
    open spec fn oel(&self) -> Option<T> { *self }
    fn v_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { match self { Some(x) => x, None => f() } }
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(x) => f(x), None => d } }
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } }
}
} // verus!
}
