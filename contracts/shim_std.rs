// Trusted contracts for further functions of std. The current source uses none of them; they are
// here so that a change that brings them in can still be decided (see DESIGN.md, trusted base).
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::shim::*;
verus!{
// ---------------------------------------------------------------- integers
pub open spec fn be_2(b: Seq<u8>) -> int { b[0] as int * 256 + b[1] as int }
pub open spec fn be_4(b: Seq<u8>) -> int { b[0] as int * 16777216 + b[1] as int * 65536 + b[2] as int * 256 + b[3] as int }
pub open spec fn be_8(b: Seq<u8>) -> int { be_4(b) * 4294967296 + be_4(b.skip(4)) }
#[verifier::external_body]
pub fn u16_from_be_(b: [u8; 2]) -> (r: u16) ensures r == be_2(b@) { unimplemented!() }
#[verifier::external_body]
pub fn i16_from_be_(b: [u8; 2]) -> (r: i16) ensures r == (be_2(b@) as u16) as i16 { unimplemented!() }
#[verifier::external_body]
pub fn u32_from_be_(b: [u8; 4]) -> (r: u32) ensures r == be_4(b@) { unimplemented!() }
#[verifier::external_body]
pub fn i32_from_be_(b: [u8; 4]) -> (r: i32) ensures r == (be_4(b@) as u32) as i32 { unimplemented!() }
#[verifier::external_body]
pub fn u64_from_be_(b: [u8; 8]) -> (r: u64) ensures r == be_8(b@) { unimplemented!() }
#[verifier::external_body]
pub fn i64_from_be_(b: [u8; 8]) -> (r: i64) ensures r == (be_8(b@) as u64) as i64 { unimplemented!() }
pub open spec fn le_2(b: Seq<u8>) -> int { b[1] as int * 256 + b[0] as int }
pub open spec fn le_4(b: Seq<u8>) -> int { b[3] as int * 16777216 + b[2] as int * 65536 + b[1] as int * 256 + b[0] as int }
#[verifier::external_body]
pub fn u16_from_le_(b: [u8; 2]) -> (r: u16) ensures r == le_2(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u32_from_le_(b: [u8; 4]) -> (r: u32) ensures r == le_4(b@) { unimplemented!() }
pub assume_specification [usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u16::abs_diff](a: u16, b: u16) -> (r: u16) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u32::abs_diff](a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [i32::unsigned_abs](a: i32) -> (r: u32) ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [i64::unsigned_abs](a: i64) -> (r: u64) ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [i32::abs](a: i32) -> (r: i32) requires a != i32::MIN ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [i64::abs](a: i64) -> (r: i64) requires a != i64::MIN ensures r == if a >= 0 { a as int } else { -a };
pub assume_specification [usize::next_multiple_of](a: usize, b: usize) -> (r: usize)
  requires b > 0, a + b - 1 <= usize::MAX ensures a <= r < a + b, r % b == 0;
pub assume_specification [usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a as int + b as int - 1) / b as int;
pub assume_specification [u8::is_ascii_uppercase](a: &u8) -> (r: bool) ensures r == (0x41 <= *a <= 0x5a);
pub assume_specification [u8::is_ascii_lowercase](a: &u8) -> (r: bool) ensures r == (0x61 <= *a <= 0x7a);
pub assume_specification [u8::is_ascii_digit](a: &u8) -> (r: bool) ensures r == (0x30 <= *a <= 0x39);
pub assume_specification [u8::is_ascii](a: &u8) -> (r: bool) ensures r == (*a < 0x80);
pub assume_specification [char::is_ascii](a: &char) -> (r: bool) ensures r == ((*a as u32) < 0x80);
pub assume_specification [char::is_ascii_uppercase](a: &char) -> (r: bool) ensures r == (0x41 <= *a as u32 <= 0x5a);
pub assume_specification [char::is_ascii_lowercase](a: &char) -> (r: bool) ensures r == (0x61 <= *a as u32 <= 0x7a);
pub assume_specification [char::is_ascii_digit](a: &char) -> (r: bool) ensures r == (0x30 <= *a as u32 <= 0x39);
/// Cc: the two blocks of control characters
pub assume_specification [char::is_control](a: char) -> (r: bool) ensures r == ((a as u32) < 0x20 || 0x7f <= a as u32 <= 0x9f);
/// Cc below 0x80
pub assume_specification [char::is_ascii_control](a: &char) -> (r: bool) ensures r == ((*a as u32) < 0x20 || *a as u32 == 0x7f);
/// a * b, a + b
pub fn char_from_u8_(b: u8) -> (r: char) ensures r as u32 == b as u32 { b as char }
pub fn u8_from_bool_(b: bool) -> (r: u8) ensures r == if b { 1int } else { 0 } { if b { 1 } else { 0 } }

// ---------------------------------------------------------------- Option, Result, bool
/// `x.map(f)` and its like, by cases: what is inside, and how to rebuild the outside.
pub struct OptK {}
pub struct ResK<E> { pub e: Option<E> }
impl OptK {
  pub fn wrap_<U>(self, u: U) -> (r: Option<U>) ensures r == Some(u) { Some(u) }
  pub fn none_<U>(self) -> (r: Option<U>) ensures r == None::<U> { None }
}
impl<E> ResK<E> {
  pub fn wrap_<U>(self, u: U) -> (r: Result<U, E>) ensures r == Ok::<U, E>(u) { Ok(u) }
  pub fn none_<U>(self) -> (r: Result<U, E>) requires self.e is Some ensures r == Err::<U, E>(self.e->0) { match self.e { Some(e) => Err(e), None => vstd::pervasive::unreached() } }
}
pub trait Split_: Sized {
  type K; type T;
  spec fn inner_(self) -> Option<Self::T>;
  spec fn kind_(self) -> Self::K;
  fn split_(self) -> (r: (Self::K, Option<Self::T>)) ensures r.1 == self.inner_(), r.0 == self.kind_();
}
pub trait Transpose_: Sized { type R; fn transpose_(self) -> (r: Self::R) ensures self.tr_(r); spec fn tr_(self, r: Self::R) -> bool; }
impl<T, E> Transpose_ for Option<Result<T, E>> {
  type R = Result<Option<T>, E>;
  open spec fn tr_(self, r: Result<Option<T>, E>) -> bool { r == match self { None => Ok(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) } }
  fn transpose_(self) -> (r: Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) } }
}
impl<T, E> Transpose_ for Result<Option<T>, E> {
  type R = Option<Result<T, E>>;
  open spec fn tr_(self, r: Option<Result<T, E>>) -> bool { r == match self { Ok(None) => None, Ok(Some(t)) => Some(Ok(t)), Err(e) => Some(Err(e)) } }
  fn transpose_(self) -> (r: Option<Result<T, E>>) { match self { Ok(None) => None, Ok(Some(t)) => Some(Ok(t)), Err(e) => Some(Err(e)) } }
}
impl<T> Split_ for Option<T> {
  type K = OptK; type T = T;
  open spec fn inner_(self) -> Option<T> { self }
  open spec fn kind_(self) -> OptK { OptK {} }
  fn split_(self) -> (r: (OptK, Option<T>)) { (OptK {}, self) }
}
impl<T, E> Split_ for Result<T, E> {
  type K = ResK<E>; type T = T;
  open spec fn inner_(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
  open spec fn kind_(self) -> ResK<E> { ResK { e: match self { Ok(_) => None, Err(e) => Some(e) } } }
  fn split_(self) -> (r: (ResK<E>, Option<T>)) { match self { Ok(t) => (ResK { e: None }, Some(t)), Err(e) => (ResK { e: Some(e) }, None) } }
}
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](x: Result<T, E>, d: T) -> (r: T) where T: std::marker::Destruct, E: std::marker::Destruct
  ensures r == match x { Ok(t) => t, Err(_) => d };
pub assume_specification<T> [Option::<T>::or](x: Option<T>, d: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct
  ensures r == if x is Some { x } else { d };
pub assume_specification<T: Copy> [Option::<&T>::copied](x: Option<&T>) -> (r: Option<T>)
  ensures r == match x { Some(t) => Some(*t), None => None };
pub assume_specification<T> [std::mem::replace::<T>](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
pub fn then_some_<T>(b: bool, v: T) -> (r: Option<T>) ensures r == if b { Some(v) } else { None } { if b { Some(v) } else { None } }

// ---------------------------------------------------------------- strings
/// a char or a string, as a pattern
pub trait StrPat { spec fn ps(&self) -> Seq<char>; }
impl StrPat for char { open spec fn ps(&self) -> Seq<char> { seq![*self] } }
impl<'b> StrPat for &'b str { open spec fn ps(&self) -> Seq<char> { self@ } }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|k: int| #![trigger s[k]] #![trigger p[k]] 0 <= k < p.len() ==> s[k] == p[k] }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|k: int| #![trigger p[k]] #![trigger s[s.len() - p.len() + k]] 0 <= k < p.len() ==> s[s.len() - p.len() + k] == p[k] }
pub trait StrMore {
  spec fn strw(&self) -> Seq<char>;
  fn starts_with_<P: StrPat>(&self, p: P) -> (r: bool) ensures r == starts(self.strw(), p.ps());
  fn ends_with_<P: StrPat>(&self, p: P) -> (r: bool) ensures r == ends(self.strw(), p.ps());
  fn has_char_(&self, c: char) -> (r: bool) ensures r == self.strw().contains(c);
  fn strip_prefix_<P: StrPat>(&self, p: P) -> (r: Option<&str>)
    ensures r is Some == starts(self.strw(), p.ps()), r is Some ==> r->0@ == self.strw().skip(p.ps().len() as int);
  fn strip_suffix_<P: StrPat>(&self, p: P) -> (r: Option<&str>)
    ensures r is Some == ends(self.strw(), p.ps()), r is Some ==> r->0@ == self.strw().take(self.strw().len() - p.ps().len());
  fn find_(&self, c: char) -> (r: Option<usize>)
    ensures r is Some == self.strw().contains(c), r is Some ==> ({ let k = next_sep(self.strw(), c, 0); r->0 == boff(self.strw(), k) });
}
impl StrMore for str {
  open spec fn strw(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn starts_with_<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn ends_with_<P: StrPat>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn has_char_(&self, c: char) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn strip_prefix_<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn strip_suffix_<P: StrPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn find_(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
}

// ---------------------------------------------------------------- slices
/// membership, for elements whose == is equality
pub trait Plain: Sized {}
impl Plain for u8 {}
impl Plain for u16 {}
impl Plain for u32 {}
impl Plain for usize {}
impl Plain for char {}
pub trait SliceMore<T> { spec fn sw(&self) -> Seq<T>; fn has_(&self, x: &T) -> (r: bool) ensures r == self.sw().contains(*x); }
impl<T: Plain> SliceMore<T> for [T] {
  open spec fn sw(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn has_(&self, x: &T) -> (r: bool) { unimplemented!() }
}

/// tables of (offset, ..) searched by offset
pub open spec fn key_sorted<T>(s: Seq<(usize, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0 }
pub trait KeyMore<T> {
  spec fn kw(&self) -> Seq<(usize, T)>;
  /// binary_search_by_key(&x, |e| e.0)
  fn bsearch_key_(&self, x: usize) -> (r: Result<usize, usize>)
    ensures match r {
      Ok(k) => k < self.kw().len() && self.kw()[k as int].0 == x,
      Err(k) => k <= self.kw().len() && (key_sorted(self.kw()) ==> (forall|i: int| 0 <= i < k ==> (#[trigger] self.kw()[i]).0 < x) && (forall|i: int| k <= i < self.kw().len() ==> (#[trigger] self.kw()[i]).0 > x)),
    };
  /// partition_point(|e| e.0 < x)
  fn below_key_(&self, x: usize) -> (r: usize)
    ensures r <= self.kw().len(), key_sorted(self.kw()) ==> (forall|i: int| 0 <= i < r ==> (#[trigger] self.kw()[i]).0 < x) && (forall|i: int| r <= i < self.kw().len() ==> (#[trigger] self.kw()[i]).0 >= x);
  /// iter().position(|e| e.0 == x)
  fn position_key_(&self, x: usize) -> (r: Option<usize>)
    ensures match r {
      Some(k) => k < self.kw().len() && self.kw()[k as int].0 == x && (forall|i: int| 0 <= i < k ==> (#[trigger] self.kw()[i]).0 != x),
      None => self.kw().len() <= usize::MAX && forall|i: int| 0 <= i < self.kw().len() ==> (#[trigger] self.kw()[i]).0 != x,
    };
}
impl<T> KeyMore<T> for [(usize, T)] {
  open spec fn kw(&self) -> Seq<(usize, T)> { self@ }
  fn below_key_(&self, x: usize) -> (r: usize) {
    let mut k: usize = 0;
    while k < self.len() && self[k].0 < x
      invariant k <= self@.len(), forall|i: int| 0 <= i < k ==> (#[trigger] self@[i]).0 < x
      decreases self@.len() - k
    { k += 1; }
    proof { if k < self@.len() { assert(self@[k as int].0 >= x); } }
    k
  }
  fn bsearch_key_(&self, x: usize) -> (r: Result<usize, usize>) {
    let k = self.position_key_(x);
    match k { Some(k) => Ok(k), None => Err(self.below_key_(x)) }
  }
  fn position_key_(&self, x: usize) -> (r: Option<usize>) {
    let mut k: usize = 0;
    while k < self.len()
      invariant k <= self@.len(), forall|i: int| 0 <= i < k ==> (#[trigger] self@[i]).0 != x
      decreases self@.len() - k
    { if self[k].0 == x { return Some(k); } k += 1; }
    None
  }
}
impl<T> KeyMore<T> for Vec<(usize, T)> {
  open spec fn kw(&self) -> Seq<(usize, T)> { self@ }
  fn below_key_(&self, x: usize) -> (r: usize) { self.as_slice().below_key_(x) }
  fn bsearch_key_(&self, x: usize) -> (r: Result<usize, usize>) { self.as_slice().bsearch_key_(x) }
  fn position_key_(&self, x: usize) -> (r: Option<usize>) { self.as_slice().position_key_(x) }
}
}
