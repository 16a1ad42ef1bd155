#![feature(macro_metavar_expr_concat)]
//! Engine, generators and reference arithmetic shared by the checks. Nothing here uses /repo code.
pub mod big;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod json;
pub mod mp;
pub mod rng;
pub mod sf;
pub mod sys;

pub use engine::{Ctx, Meta, Out, Sub, Words};
pub use rng::Rng;
