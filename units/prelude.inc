#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_assignments, unused_must_use)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
pub fn rt_assert(c: bool) requires c { }
#[verifier::exec_allows_no_decreases_clause]
pub fn rt_unreachable() -> ! requires false { loop { } }
#[verifier::external_body] // formatting of diagnostics is not modelled
pub fn rt_format() -> String { unimplemented!() }
pub fn rt_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn rt_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
}
