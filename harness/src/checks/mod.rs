//! One function per property.
use crate::runner::Ctx;
pub mod comb;
pub mod consts;
pub mod generic;
pub mod illtyped;
mod robust;
mod determ;
pub mod rules;
pub mod initial;
pub mod linear;
pub mod modules;
pub mod pats;
pub mod seq;
mod simext;
pub mod stdlib;
pub mod stdseq;
pub mod asserts;
mod surface;
pub mod timing;

pub type Check = fn(&Ctx);
pub fn all() -> Vec<(&'static str, Check)> {
    vec![("C01", comb::c01 as Check), ("C02", seq::c02), ("C03", seq::c03), ("C04", pats::c04), ("C05", pats::c05), ("C06", stdlib::c06), ("C07", stdseq::c07), ("C08", generic::c08), ("C09", generic::c09), ("C10", linear::c10), ("C11", illtyped::c11), ("C12", timing::c12), ("C13", initial::c13), ("C14", modules::c14), ("C15", surface::c15), ("C16", asserts::c16), ("C17", simext::c17), ("C18", determ::c18), ("C19", robust::c19), ("C20", seq::c20)]
}
