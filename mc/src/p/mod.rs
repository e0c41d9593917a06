use crate::ctx::Ctx;

mod build;
mod circuit;
pub mod commit;
mod crypt;
mod encode;
pub mod full;
mod sign;
mod misc;
mod note;
mod proofs;
mod rng;
mod sig;
mod trans;
mod tree;
pub mod keys;

pub static ALL: &[(&str, fn(&mut Ctx))] = &[
    ("C01", build::c01),
    ("C02", build::c02),
    ("C03", rng::c03),
    ("C04", build::c04),
    ("C05", sign::c05),
    ("C06", proofs::c06),
    ("C07", proofs::c07),
    ("C08", proofs::c08),
    ("C09", commit::c09),
    ("C10", commit::c10),
    ("C11", crypt::c11),
    ("C12", crypt::c12),
    ("C13", crypt::c13),
    ("C14", keys::c14),
    ("C15", keys::c15),
    ("C16", keys::c16),
    ("C17", encode::c17),
    ("C18", tree::c18),
    ("C19", note::c19),
    ("C20", circuit::c20),
    ("C21", misc::c21),
    ("C22", rng::c22),
    ("C23", sig::c23),
    ("C24", trans::c24),
    ("C25", misc::c25),
    ("C26", sig::c26),
];
