#![feature(const_destruct, const_trait_impl)]
#![feature(allocator_api)]
#![allow(mismatched_lifetime_syntaxes, unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code)]
use std::ops::Range;
use std::slice::SliceIndex;
use vstd::prelude::*;
use vstd::multiset::Multiset;
use vstd::slice::SliceIndexSpec;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::{AddSpec, NotSpec};
