#![allow(unused_imports, dead_code, unused_macros, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, non_snake_case)]
#![feature(allocator_api)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use vstd::string::*;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;
use std::ops::Deref;
use std::ops::DerefMut;
use std::convert::TryFrom;
mod shim;
pub mod shim_std;
use shim::*;
#[allow(unused_imports)]
use shim_std::*;
use shim::cesu8;
use shim::fmt;
use shim::fmt::StdDisplay;
macro_rules! fail {
    ($m:literal $(, $a:expr)* $(,)?) => {{ $( let _ = &$a; )* return Err(ParseError::any_()); }};
    (($m:literal $(, $a:expr)* $(,)?), ($m2:literal $(, $a2:expr)* $(,)?)) => {{ $( let _ = &$a; )* $( let _ = &$a2; )* return Err(ParseError::any_()); }};
}
macro_rules! err {
    ($e:ident, $m:literal $(, $a:expr)* $(,)?) => {{ let _ = &$e; $( let _ = &$a; )* ParseError::any_() }};
    ($m:literal $(, $a:expr)* $(,)?) => {{ $( let _ = &$a; )* ParseError::any_() }};
    (($m:literal $(, $a:expr)* $(,)?), ($m2:literal $(, $a2:expr)* $(,)?)) => {{ $( let _ = &$a; )* $( let _ = &$a2; )* ParseError::any_() }};
}
verus!{
global size_of usize == 8;
broadcast use {shim::axiom_cow_ref, shim::axiom_str_ext, shim::axiom_string_ext, shim::axiom_vec_of, shim::axiom_slice_of, shim::lemma_str_of, shim::lemma_string_of, shim::axiom_str_of_view, shim::axiom_string_of_view,
  shim::lemma_str_len, shim::axiom_cow_len, shim::lemma_str_bytes, shim::axiom_slice_max, shim::axiom_vec_of_view, shim::axiom_vec_pair_max, shim::axiom_slice_of_view, shim::lemma_cidx};
}
