#![allow(non_snake_case, unused_imports, unused_variables, dead_code, unused_mut, unused_parens, non_camel_case_types, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::collections::HashMap;
verus! {
// ---- trusted: equality of std strings is equality of their contents
pub mod ax {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpec;
    pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
    pub broadcast axiom fn ax_str_string_obeys() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn ax_str_string_eq(a: &str, b: String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
    pub broadcast axiom fn ax_string_str_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
    pub broadcast axiom fn ax_string_str_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
    pub broadcast axiom fn ax_string_rstr_obeys() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
    pub broadcast axiom fn ax_string_rstr_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn ax_str_obeys() ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();
    pub broadcast axiom fn ax_str_eq(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
    pub broadcast axiom fn ax_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
}
broadcast use {ax::ax_string_str_obeys, ax::ax_string_str_eq, ax::ax_string_rstr_obeys, ax::ax_string_rstr_eq, ax::ax_string_obeys, ax::ax_string_eq, ax::ax_str_string_obeys, ax::ax_str_string_eq, ax::ax_str_ext};
// ---- a panic is a failed obligation
#[verifier::external_body]
fn vx_panic() -> ! requires false { panic!() }
fn vx_assert(b: bool) requires b { }
// functions of Option that vstd does not specify
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
#[verifier::external_body]
fn vx_format() -> String { String::new() }
// ---- vacuity probe: unprovable unless the context is contradictory
pub uninterp spec fn vx_probe() -> bool;
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
// ---- trusted: ToString and format! with one argument
#[verifier::external_body]
fn vx_to_string<T: VxShow + ?Sized>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
fn vx_format1<T: VxShow + ?Sized>(a: &str, x: &T, b: &str) -> (r: String) ensures r@ == a@ + x.shown() + b@ { unimplemented!() }
