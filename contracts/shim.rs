// Trusted interface: std types and functions as the verified text uses them. Every item here
// that is external_body / uninterp / assume_specification is an assumption (see DESIGN.md).
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;
use std::ops::Deref;
verus!{

// ---------------------------------------------------------------- errors
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseError { x: u8 }
impl ParseError {
  #[verifier::external_body]
  pub fn any_() -> ParseError { unimplemented!() }
}

/// used by scripts/probe.py only: an unknown truth value
pub uninterp spec fn probe_(i: int) -> bool;
// ---------------------------------------------------------------- sequences as values
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v {}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of_view<T>(s: Seq<T>) requires s.len() <= 0x0fff_ffff_ffff_ffff ensures (#[trigger] vec_of(s))@ == s {}
pub uninterp spec fn slice_of<'a, T>(s: Seq<T>) -> &'a [T];
#[verifier::external_body]
pub broadcast proof fn axiom_slice_of<'a, T>(v: &'a [T]) ensures slice_of::<'a, T>(#[trigger] v@) == v {}
#[verifier::external_body]
pub broadcast proof fn axiom_slice_of_view<'a, T>(s: Seq<T>) requires s.len() <= 0x7fff_ffff_ffff_ffff ensures (#[trigger] slice_of::<'a, T>(s))@ == s {}
#[verifier::external_body]
pub broadcast proof fn axiom_slice_max(v: &[u8]) ensures (#[trigger] v@).len() <= 0x7fff_ffff_ffff_ffff {}
/// No allocation is larger than isize::MAX bytes.
#[verifier::external_body]
pub broadcast proof fn axiom_vec_pair_max<T>(v: Vec<(usize, T)>) ensures (#[trigger] v@).len() <= 0x0fff_ffff_ffff_ffff {}

pub fn vec_with_capacity_<T>(n: usize, limit: Ghost<int>) -> (r: Vec<T>)
  requires n <= limit@,
  ensures r@ == Seq::<T>::empty(),
{ Vec::with_capacity(n) }

// ---------------------------------------------------------------- strings
pub open spec fn ulen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + ulen(s.last()) } }
pub open spec fn boff(s: Seq<char>, k: int) -> int { blen(s.take(k)) }
pub open spec fn boundary(s: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] boff(s, k) == i }
pub open spec fn cidx(s: Seq<char>, i: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] boff(s, k) == i }
pub proof fn lemma_blen_nonneg(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { if s.len() > 0 { lemma_blen_nonneg(s.drop_last()); } }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len() {
  if b.len() == 0 { assert(a + b =~= a); } else {
    lemma_blen_add(a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
  }
}
pub proof fn lemma_boff_step(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures boff(s, k + 1) == boff(s, k) + ulen(s[k]) {
  assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn lemma_boff_mono(s: Seq<char>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures boff(s, b) >= boff(s, a) + (b - a) {
  lemma_blen_add(s.take(a), s.subrange(a, b));
  assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
  lemma_blen_nonneg(s.subrange(a, b));
}
pub proof fn lemma_boff_sub(s: Seq<char>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures boff(s, b) == boff(s, a) + blen(s.subrange(a, b)) {
  lemma_blen_add(s.take(a), s.subrange(a, b));
  assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
}
pub proof fn lemma_boff_ends(s: Seq<char>) ensures boff(s, 0) == 0, boff(s, s.len() as int) == blen(s) {
  assert(s.take(0) =~= Seq::<char>::empty());
  assert(s.take(s.len() as int) =~= s);
}
pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures boundary(s, #[trigger] boff(s, k)), cidx(s, boff(s, k)) == k {
  let c = cidx(s, boff(s, k));
  assert(0 <= c <= s.len() && boff(s, c) == boff(s, k));
  if c < k { lemma_boff_mono(s, c, k); } else if k < c { lemma_boff_mono(s, k, c); }
}

pub closed spec fn str_of<'a>(s: Seq<char>) -> &'a str { choose|x: &'a str| x@ == s }
pub broadcast proof fn lemma_str_of<'a>(x: &'a str) ensures str_of::<'a>(#[trigger] x@) == x { axiom_str_ext(str_of::<'a>(x@), x); }
#[verifier::external_body]
pub broadcast proof fn axiom_str_of_view<'a>(s: Seq<char>) requires blen(s) <= 0x7fff_ffff_ffff_ffff ensures (#[trigger] str_of::<'a>(s))@ == s {}
pub closed spec fn string_of(s: Seq<char>) -> String { choose|x: String| x@ == s }
pub broadcast proof fn lemma_string_of(x: String) ensures string_of(#[trigger] x@) == x { axiom_string_ext(string_of(x@), x); }
#[verifier::external_body]
pub broadcast proof fn axiom_string_of_view(s: Seq<char>) requires blen(s) <= 0x7fff_ffff_ffff_ffff ensures (#[trigger] string_of(s))@ == s {}
#[verifier::external_body]
pub broadcast proof fn axiom_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b {}
/// No allocation is larger than isize::MAX bytes.
#[verifier::external_body]
pub proof fn axiom_str_max(s: &str) ensures s.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff {}
/// one character in UTF-8: its length, and what its first byte can be
pub proof fn lemma_utf8_char(a: char)
  ensures encode_utf8(seq![a]).len() == ulen(a), (a as u32) < 0x80 ==> encode_utf8(seq![a])[0] as u32 == a as u32, (a as u32) >= 0x80 ==> encode_utf8(seq![a])[0] >= 0x80
{
  reveal_with_fuel(encode_utf8, 3);
  assert(seq![a].drop_first() =~= seq![]);
  assert(encode_utf8(seq![a]) =~= encode_scalar(a as u32));
  char_is_scalar(a);
  let c = a as u32;
  assert(c < 0x80 ==> (c & 0x7f) == c) by (bit_vector);
  assert(c < 0x80 ==> encode_scalar(c)[0] == leading_byte_width_1(c));
  assert(0x80 <= c < 0x800 ==> encode_scalar(c)[0] == leading_byte_width_2(c));
  assert(leading_byte_width_2(c) == 0xc0u8 | ((c >> 6) & 0x1f) as u8);
  assert(leading_byte_width_3(c) == 0xe0u8 | ((c >> 12) & 0xf) as u8);
  assert(leading_byte_width_4(c) == 0xf0u8 | ((c >> 18) & 0x7) as u8);
  assert(0xc0u8 | ((c >> 6) & 0x1f) as u8 >= 0x80) by (bit_vector);
  assert(0xe0u8 | ((c >> 12) & 0xf) as u8 >= 0x80) by (bit_vector);
  assert(0xf0u8 | ((c >> 18) & 0x7) as u8 >= 0x80) by (bit_vector);
}
pub proof fn lemma_utf8_len(s: Seq<char>) ensures encode_utf8(s).len() == blen(s) decreases s.len() {
  reveal_with_fuel(encode_utf8, 2);
  if s.len() > 0 { lemma_utf8_len(s.drop_last()); lemma_utf8_char(s.last()); encode_utf8_concat(s.drop_last(), seq![s.last()]); assert(s.drop_last() + seq![s.last()] =~= s); }
}
pub broadcast proof fn lemma_str_len(s: &str) ensures (#[trigger] s.spec_bytes()).len() == blen(s@), blen(s@) <= 0x7fff_ffff_ffff_ffff, s@.len() <= blen(s@)
{ lemma_utf8_len(s@); axiom_str_max(s); lemma_blen_nonneg(s@); }
/// The byte at a character boundary is the character itself when it is ASCII, and not ASCII otherwise.
pub broadcast proof fn lemma_str_bytes(s: &str, k: int) requires 0 <= k < s@.len()
  ensures #![trigger s.spec_bytes(), boff(s@, k)] 0 <= boff(s@, k) < blen(s@), (s@[k] as u32) < 0x80 ==> s.spec_bytes()[boff(s@, k)] as u32 == s@[k] as u32, (s@[k] as u32) >= 0x80 ==> s.spec_bytes()[boff(s@, k)] >= 0x80
{
  let t = s@; let c = seq![t[k]];
  lemma_blen_nonneg(t.take(k)); lemma_boff_mono(t, k, t.len() as int); lemma_boff_ends(t);
  lemma_utf8_len(t.take(k)); lemma_utf8_char(t[k]);
  encode_utf8_concat(t.take(k), c + t.skip(k + 1)); encode_utf8_concat(c, t.skip(k + 1));
  assert(t.take(k) + (c + t.skip(k + 1)) =~= t);
}

#[verifier::external_body]
pub struct CharIter<'a> { x: std::str::Chars<'a> }
impl<'a> CharIter<'a> {
  pub uninterp spec fn s(&self) -> Seq<char>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<char>)
    ensures final(self).s() == old(self).s(),
      0 <= old(self).pos() <= old(self).s().len(),
      old(self).pos() < old(self).s().len() ==> r == Some(old(self).s()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
      old(self).pos() >= old(self).s().len() ==> r is None && final(self).pos() == old(self).pos(),
  { unimplemented!() }
  pub fn all<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,)),
    ensures
      0 <= old(self).pos() <= old(self).s().len(),
      r ==> forall|i: int| old(self).pos() <= i < old(self).s().len() ==> call_ensures(f, (#[trigger] old(self).s()[i],), true),
      !r ==> exists|i: int| old(self).pos() <= i < old(self).s().len() && call_ensures(f, (#[trigger] old(self).s()[i],), false),
  {
    let ghost p0 = self.pos();
    loop
      invariant
        self.s() == old(self).s(), p0 == old(self).pos(), p0 <= self.pos(), self.pos() > p0 ==> 0 <= p0 && self.pos() <= self.s().len(),
        forall|c: char| call_requires(f, (c,)),
        forall|i: int| p0 <= i < self.pos() ==> call_ensures(f, (#[trigger] self.s()[i],), true),
      decreases self.s().len() - self.pos(),
    {
      let ghost p = self.pos();
      match self.next() { None => { return true; }, Some(c) => { if !f(c) { assert(call_ensures(f, (self.s()[p],), false)); return false; } } }
    }
  }
  pub fn any<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,)),
    ensures
      0 <= old(self).pos() <= old(self).s().len(),
      !r ==> forall|i: int| old(self).pos() <= i < old(self).s().len() ==> call_ensures(f, (#[trigger] old(self).s()[i],), false),
      r ==> exists|i: int| old(self).pos() <= i < old(self).s().len() && call_ensures(f, (#[trigger] old(self).s()[i],), true),
  {
    let ghost p0 = self.pos();
    loop
      invariant
        self.s() == old(self).s(), p0 == old(self).pos(), p0 <= self.pos(), self.pos() > p0 ==> 0 <= p0 && self.pos() <= self.s().len(),
        forall|c: char| call_requires(f, (c,)),
        forall|i: int| p0 <= i < self.pos() ==> call_ensures(f, (#[trigger] self.s()[i],), false),
      decreases self.s().len() - self.pos(),
    {
      let ghost p = self.pos();
      match self.next() { None => { return false; }, Some(c) => { if f(c) { assert(call_ensures(f, (self.s()[p],), true)); return true; } } }
    }
  }
}
#[verifier::external_body]
pub struct CharIndexIter<'a> { x: std::str::CharIndices<'a> }
impl<'a> CharIndexIter<'a> {
  pub uninterp spec fn s(&self) -> Seq<char>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<(usize, char)>)
    ensures final(self).s() == old(self).s(),
      0 <= old(self).pos() <= old(self).s().len(),
      old(self).pos() < old(self).s().len() ==> (match r { Some((i, c)) => i == boff(old(self).s(), old(self).pos()) && c == old(self).s()[old(self).pos()], None => false }) && final(self).pos() == old(self).pos() + 1,
      old(self).pos() >= old(self).s().len() ==> r is None && final(self).pos() == old(self).pos(),
  { unimplemented!() }
}
/// `split(char)`: the pieces between the separators, in order; pos is where the next piece starts
/// (one past the end of the string + 1 when exhausted).
pub open spec fn next_sep(s: Seq<char>, c: char, k: int) -> int decreases s.len() - k { if k >= s.len() || s[k] == c { k } else { next_sep(s, c, k + 1) } }
#[verifier::external_body]
pub struct SplitIter<'a> { x: std::str::Split<'a, char> }
impl<'a> SplitIter<'a> {
  pub uninterp spec fn s(&self) -> Seq<char>;
  pub uninterp spec fn c(&self) -> char;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a str>)
    ensures final(self).s() == old(self).s(), final(self).c() == old(self).c(),
      0 <= old(self).pos() <= old(self).s().len() + 1,
      old(self).pos() <= old(self).s().len() ==> ({ let e = next_sep(old(self).s(), old(self).c(), old(self).pos()); r is Some && r->0@ == old(self).s().subrange(old(self).pos(), e) && final(self).pos() == e + 1 && old(self).pos() <= e <= old(self).s().len() }),
      old(self).pos() > old(self).s().len() ==> r is None && final(self).pos() == old(self).pos(),
  { unimplemented!() }
}
pub trait StrShim {
  spec fn strv(&self) -> Seq<char>;
  fn chars_(&self) -> (r: CharIter<'_>) ensures r.s() == self.strv(), r.pos() == 0;
  fn char_indices_(&self) -> (r: CharIndexIter<'_>) ensures r.s() == self.strv(), r.pos() == 0;
  fn split_(&self, c: char) -> (r: SplitIter<'_>) ensures r.s() == self.strv(), r.c() == c, r.pos() == 0;
  fn slice_(&self, a: usize, b: usize) -> (r: &str)
    requires boundary(self.strv(), a as int), boundary(self.strv(), b as int), a <= b
    ensures r@ == self.strv().subrange(cidx(self.strv(), a as int), cidx(self.strv(), b as int));
  fn slice_from_(&self, a: usize) -> (r: &str)
    requires boundary(self.strv(), a as int)
    ensures r@ == self.strv().skip(cidx(self.strv(), a as int));
  fn eq_str_(&self, o: &str) -> (r: bool) ensures r == (self.strv() == o@), self.strv().len() == 0 && o@.len() == 0 ==> r;
  fn repeat_(&self, n: usize) -> (r: String)
    requires blen(self.strv()) * n <= 0x7fff_ffff_ffff_ffff
    ensures r@ == srepeat(self.strv(), n as nat);
}
pub open spec fn srepeat(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { srepeat(s, (n - 1) as nat) + s } }
impl StrShim for str {
  open spec fn strv(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn chars_(&self) -> (r: CharIter<'_>) { unimplemented!() }
  #[verifier::external_body]
  fn char_indices_(&self) -> (r: CharIndexIter<'_>) { unimplemented!() }
  #[verifier::external_body]
  fn split_(&self, c: char) -> (r: SplitIter<'_>) { unimplemented!() }
  #[verifier::external_body]
  fn slice_(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
  #[verifier::external_body]
  fn slice_from_(&self, a: usize) -> (r: &str) { unimplemented!() }
  fn eq_str_(&self, o: &str) -> (r: bool) { proof { if self@.len() == 0 && o@.len() == 0 { assert(self@ =~= o@); } } self == o }
  #[verifier::external_body]
  fn repeat_(&self, n: usize) -> (r: String) { unimplemented!() }
}
pub trait SliceShim<T> {
  spec fn sv(&self) -> Seq<T>;
  fn slice_(&self, a: usize, b: usize) -> (r: &[T])
    requires a <= b <= self.sv().len() ensures r@ == self.sv().subrange(a as int, b as int),
      forall|t: Seq<T>, k: int| 0 <= k <= t.len() && self.sv() == #[trigger] t.skip(k) ==> r@ == t.subrange(k + a, k + b);
  fn slice_from_(&self, a: usize) -> (r: &[T])
    requires a <= self.sv().len() ensures r@ == self.sv().skip(a as int);
  fn split_at_(&self, n: usize) -> (r: (&[T], &[T]))
    requires n <= self.sv().len()
    ensures r.0@ == self.sv().subrange(0, n as int), r.1@ == self.sv().skip(n as int),
      forall|t: Seq<T>, k: int| 0 <= k <= t.len() && self.sv() == #[trigger] t.skip(k) ==> r.0@ == t.subrange(k, k + n) && r.1@ == t.skip(k + n);
}
proof fn lemma_sub_skip<T>(t: Seq<T>, k: int, a: int, b: int) requires 0 <= k <= t.len(), 0 <= a <= b <= t.len() - k
  ensures t.skip(k).subrange(a, b) == t.subrange(k + a, k + b), t.skip(k).skip(b) == t.skip(k + b)
{ assert(t.skip(k).subrange(a, b) =~= t.subrange(k + a, k + b)); assert(t.skip(k).skip(b) =~= t.skip(k + b)); }
impl<T> SliceShim<T> for [T] {
  open spec fn sv(&self) -> Seq<T> { self@ }
  fn slice_(&self, a: usize, b: usize) -> (r: &[T]) {
    proof { assert forall|t: Seq<T>, k: int| 0 <= k <= t.len() && self.sv() == #[trigger] t.skip(k) implies self.sv().subrange(a as int, b as int) == t.subrange(k + a, k + b) by { lemma_sub_skip(t, k, a as int, b as int); } }
    vstd::slice::slice_subrange(self, a, b)
  }
  fn split_at_(&self, n: usize) -> (r: (&[T], &[T])) {
    proof { assert forall|t: Seq<T>, k: int| 0 <= k <= t.len() && self.sv() == #[trigger] t.skip(k) implies self.sv().subrange(0, n as int) == t.subrange(k, k + n) && self.sv().skip(n as int) == t.skip(k + n) by { lemma_sub_skip(t, k, 0, n as int); } }
    (self.slice_(0, n), self.slice_from_(n))
  }
  fn slice_from_(&self, a: usize) -> (r: &[T]) { let r = vstd::slice::slice_subrange(self, a, self.len()); assert(r@ =~= self.sv().skip(a as int)); r }
}

// ---------------------------------------------------------------- Cow / Rc
pub open spec fn cv(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
/// No allocation is larger than isize::MAX bytes.
#[verifier::external_body]
pub broadcast proof fn axiom_cow_len(c: Cow<'_, str>) ensures blen(#[trigger] cv(c)) <= 0x7fff_ffff_ffff_ffff {}
pub uninterp spec fn cow_ref<B: ?Sized + ToOwned>(c: Cow<'_, B>) -> &B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as Deref>::deref](x: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_ref(*x);
#[verifier::external_body]
pub broadcast proof fn axiom_cow_ref(c: Cow<'_, str>) ensures (#[trigger] cow_ref(c))@ == cv(c) {}
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as Clone>::clone](x: &'b Cow<'a, B>) -> (r: Cow<'a, B>) ensures r == *x;
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Rc<T, A> as Deref>::deref](x: &Rc<T, A>) -> (r: &T) ensures r == &**x;
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Arc<T, A> as Deref>::deref](x: &Arc<T, A>) -> (r: &T) ensures r == &**x;

/// clone() of a vector whose elements are copied
pub fn vec_copy_<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r == *v {
  broadcast use axiom_vec_of;
  let mut r: Vec<T> = Vec::new();
  let mut i: usize = 0;
  while i < v.len()
    invariant i <= v@.len(), r@ == v@.take(i as int)
    decreases v@.len() - i
  { r.push(v[i]); i += 1; assert(v@.take(i as int) =~= v@.take(i - 1).push(v@[i - 1])); }
  assert(v@.take(v@.len() as int) =~= v@);
  assert(vec_of(r@) == r && vec_of(v@) == *v);
  r
}
// ---------------------------------------------------------------- floats
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_of(b: u64) -> f64;
pub assume_specification [f32::from_bits](b: u32) -> (r: f32) ensures r == f32_of(b);
pub assume_specification [f64::from_bits](b: u64) -> (r: f64) ensures r == f64_of(b);

// ---------------------------------------------------------------- cells
/// RefCell / Mutex holding a constant pool reference. `first(c)` is the value it was created with,
/// `last(c)` the value it holds once linked; `linked(c)` is the knowledge that it has been linked.
/// The contents go from first to last at most once. Trusted: the pass that links the cells
/// (resolve_constant_pool, called once, on a pool it has just read) takes each cell once, so the
/// value it takes is the one the cell was created with.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct CafeCell<T> { x: std::cell::RefCell<T> }
impl<T> CafeCell<T> {
  pub uninterp spec fn first(&self) -> T;
  pub uninterp spec fn last(&self) -> T;
  pub uninterp spec fn linked(&self) -> bool;
  #[verifier::external_body]
  pub fn new(v: T) -> (r: Self) ensures r.first() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn borrow(&self) -> (r: &T) requires self.linked() ensures *r == self.last() { unimplemented!() }
  #[verifier::external_body]
  pub fn lock(&self) -> (r: Guard<'_, T>) requires self.linked() ensures r.v() == self.last() { unimplemented!() }
  #[verifier::external_body]
  pub fn take_(&self) -> (r: T) ensures r == self.first() { unimplemented!() }
  /// Write back a value read with take_ (the borrow is held in between).
  #[verifier::external_body]
  pub fn put_(&self, old: Ghost<T>, v: T)
    requires old@ == self.first()
    ensures v != self.first() ==> self.linked() && self.last() == v
  { unimplemented!() }
}

/// The result of Mutex::lock on an unpoisoned mutex, and the guard inside it.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Guard<'a, T> { x: &'a T }
impl<'a, T> Guard<'a, T> {
  pub uninterp spec fn v(&self) -> T;
  pub fn unwrap(self) -> (r: Self) ensures r == self { self }
  #[verifier::external_body]
  pub fn deref(&self) -> (r: &'a T) ensures *r == self.v() { unimplemented!() }
}

// ---------------------------------------------------------------- sets of identifiers
/// HashSet<T> with derived Eq/Hash: membership is equality of the keys.
pub trait Key { type K; spec fn key(&self) -> Self::K; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { x: std::collections::HashSet<T> }
impl<T: Key> HashSet<T> {
  pub uninterp spec fn keys(&self) -> Set<T::K>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.keys() == Set::<T::K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, v: T) -> (r: bool)
    ensures r == !old(self).keys().contains(v.key()), final(self).keys() == old(self).keys().insert(v.key())
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, v: &T) -> (r: bool) ensures r == self.keys().contains(v.key()) { unimplemented!() }
}
}

/// Formatting: what has been written so far, and whether the sink accepts everything (as a String does).
pub mod fmt {
use super::*;
verus!{
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { x: u8 }
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter<'a> { x: std::fmt::Formatter<'a> }
impl<'a> Formatter<'a> {
  pub uninterp spec fn out(&self) -> Seq<char>;
  pub uninterp spec fn sound(&self) -> bool;
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> (r: core::result::Result<(), Error>)
    ensures old(self).sound() ==> r is Ok && final(self).sound() && final(self).out() == old(self).out() + s@
  { unimplemented!() }
  #[verifier::external_body]
  pub fn write_char(&mut self, c: char) -> (r: core::result::Result<(), Error>)
    ensures old(self).sound() ==> r is Ok && final(self).sound() && final(self).out() == old(self).out() + seq![c]
  { unimplemented!() }
}
/// Display of std's texts under default options, which is what the arguments of write! get.
pub trait StdDisplay {
  spec fn shown(&self) -> Seq<char>;
  fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), Error>)
    ensures old(f).sound() ==> r is Ok && final(f).sound() && final(f).out() == old(f).out() + self.shown();
}
impl<'b> StdDisplay for Cow<'b, str> {
  open spec fn shown(&self) -> Seq<char> { cv(*self) }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), Error>) { unimplemented!() }
}
impl StdDisplay for str {
  open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), Error>) { unimplemented!() }
}
impl StdDisplay for String {
  open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), Error>) { unimplemented!() }
}
impl StdDisplay for char {
  open spec fn shown(&self) -> Seq<char> { seq![*self] }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), Error>) { unimplemented!() }
}
}
}

pub mod cesu8 {
use super::*;
verus!{
#[verifier::external_body]
#[derive(Debug)]
pub struct Cesu8DecodingError { x: u8 }
/// The dependency's decoder, uninterpreted: a function of the bytes.
pub uninterp spec fn decode<'a>(b: Seq<u8>) -> Option<Cow<'a, str>>;
#[verifier::external_body]
pub fn from_java_cesu8<'a>(b: &'a [u8]) -> (r: Result<Cow<'a, str>, Cesu8DecodingError>)
  ensures match r { Ok(c) => decode(b@) == Some(c), Err(_) => decode(b@) is None }
{ unimplemented!() }
}
}
