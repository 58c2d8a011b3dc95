//! C01-C03, S01, S02: points of every curve.
use crate::ext::{Ext, PeFp2};
use crate::field::{el, val, Fld};
use crate::itf::Op;
use crate::util::*;
use ff::Field;
use group::cofactor::CofactorGroup;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use halo2curves::{bls12381, bn256, grumpkin, pluto_eris, secp256k1, secp256r1, secq256k1};
use halo2curves::{CurveAffine, CurveExt};
use num_bigint::BigInt;
use num_traits::Zero;
use subtle::{ConditionallySelectable, ConstantTimeEq};

/// Coordinates as pairs of integers.
pub trait Bs: Field + SerdeObject {
    /// byte length of an element
    const BL: usize;
    fn b(v: &[BigInt]) -> Result<Self, String>;
    fn c(&self) -> Vec<BigInt>;
}
macro_rules! bs1 { ($($t:ty),*) => { $( impl Bs for $t {
    const BL: usize = <$t as Fld>::L * 8;
    fn b(v: &[BigInt]) -> Result<Self, String> { if is0(&v[1]) { el(&v[0]) } else { Err("harness: c1".into()) } }
    fn c(&self) -> Vec<BigInt> { vec![val(self), BigInt::zero()] }
} )* } }
bs1!(bn256::Fq, bn256::Fr, secp256k1::Fp, secp256k1::Fq, secp256r1::Fp, bls12381::Fq, pluto_eris::Fp, pluto_eris::Fq);
macro_rules! bs2 { ($($t:ty : $b:ty),*) => { $( impl Bs for $t {
    const BL: usize = <$b as Fld>::L * 16;
    fn b(v: &[BigInt]) -> Result<Self, String> { <$t as Ext>::of(&v[0..2]) }
    fn c(&self) -> Vec<BigInt> { self.coeffs() }
} )* } }
bs2!(bn256::Fq2: bn256::Fq, bls12381::Fq2: bls12381::Fq, PeFp2: pluto_eris::Fp);


/// The machine of one curve, instantiated once per curve.
macro_rules! curve_machine {
    ($m:ident, $C:ty, $A:ty, $B:ty, $S:ty, $nm:literal) => {
pub mod $m {
use super::*;
pub type C = $C;
pub type A = $A;
pub type B = $B;
pub type S = $S;
pub const NM: &str = $nm;
include!("curve_body.rs");
}
    };
}
curve_machine!(bn_g1, bn256::G1, bn256::G1Affine, bn256::Fq, bn256::Fr, "bn_g1");
curve_machine!(bn_g2, bn256::G2, bn256::G2Affine, bn256::Fq2, bn256::Fr, "bn_g2");
curve_machine!(grumpkin_g, grumpkin::G1, grumpkin::G1Affine, bn256::Fr, bn256::Fq, "grumpkin");
curve_machine!(k1, secp256k1::Secp256k1, secp256k1::Secp256k1Affine, secp256k1::Fp, secp256k1::Fq, "k1");
curve_machine!(q1, secq256k1::Secq256k1, secq256k1::Secq256k1Affine, secp256k1::Fq, secp256k1::Fp, "q1");
curve_machine!(r1, secp256r1::Secp256r1, secp256r1::Secp256r1Affine, secp256r1::Fp, secp256r1::Fq, "r1");
curve_machine!(bls_g1, bls12381::G1, bls12381::G1Affine, bls12381::Fq, bls12381::Fr, "bls_g1");
curve_machine!(bls_g2, bls12381::G2, bls12381::G2Affine, bls12381::Fq2, bls12381::Fr, "bls_g2");
curve_machine!(pluto, pluto_eris::G1, pluto_eris::G1Affine, pluto_eris::Fp, pluto_eris::Fq, "pluto");
curve_machine!(eris, pluto_eris::Eris, pluto_eris::ErisAffine, pluto_eris::Fq, pluto_eris::Fp, "eris");
curve_machine!(triton, pluto_eris::G2, pluto_eris::G2Affine, PeFp2, pluto_eris::Fq, "triton");

pub fn machine(t: &str) -> Option<Box<dyn FnMut(&Op) -> R>> {
    macro_rules! m { ($($x:ident),*) => { $( if t == $x::NM { let mut m = $x::CvM::new(); return Some(Box::new(move |o| m.exec(o))); } )* } }
    m!(bn_g1, bn_g2, grumpkin_g, k1, q1, r1, bls_g1, bls_g2, pluto, eris, triton);
    None
}

/// E01 on points.
#[cfg(not(feature = "nohooks"))]
pub fn glvp(op: &Op) -> R {
    macro_rules! g { ($($x:ident),*) => { $( if op.t == $x::NM {
        let p = $x::proj(&op.a)?;
        let q = crate::endo::glvp(p, &op.a[7])?;
        return cmp("k1 P - k2 endo(P)", $x::norm(&q)?, op.e.clone());
    } )* } }
    g!(bn_g1, grumpkin_g, bls_g1, bls_g2);
    Err(format!("harness: no decomposition for {}", op.t))
}

pub fn dist(op: &Op) -> Option<R> {
    macro_rules! g { ($($m:ident),*) => { $( if op.t == $m::NM { return Some($m::dist(op)); } )* } }
    g!(bn_g1, bn_g2, grumpkin_g, k1, q1, r1, bls_g1, bls_g2, pluto, eris, triton);
    None
}
