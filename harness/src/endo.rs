//! E01: decomposition of scalars along the endomorphism (needs the cfg(halo2curves_verif) re-export).
use crate::itf::Op;
use crate::util::*;
use ff::{PrimeField, WithSmallOrderMulGroup};
use halo2curves::{bls12381, bn256, grumpkin, pasta, CurveEndo};
use num_bigint::BigInt;

fn sc<S: PrimeField>(v: &BigInt) -> Result<S, String> {
    let mut r = S::Repr::default();
    let n = r.as_ref().len();
    r.as_mut().copy_from_slice(&le(v, n));
    Option::from(S::from_repr(r)).ok_or_else(|| format!("from_repr rejects the canonical value {v}"))
}

fn glv<C: CurveEndo>(op: &Op) -> R {
    let k = sc::<C::ScalarExt>(&op.a[0])?;
    let z = int(C::ScalarExt::ZETA.to_repr().as_ref());
    if z != op.e[1] && z != op.e[2] {
        return Err(format!("ZETA = {z} is not a primitive cube root of unity of the scalar field"));
    }
    let r = &op.e[0];
    let (k1, n1, k2, n2) = C::decompose_scalar(&k);
    let sg = |v: u128, n: bool| if n { -BigInt::from(v) } else { BigInt::from(v) };
    let got = ((sg(k1, n1) - sg(k2, n2) * z) % r + r) % r;
    cmp("k1 - k2*lambda mod r", got, op.a[0].clone())
}

/// k P = k1 P - k2 endo(P), all by the library's own operations on the two halves.
pub fn glvp<C: CurveEndo>(p: C, k: &BigInt) -> Result<C, String> {
    let (k1, n1, k2, n2) = C::decompose_scalar(&sc::<C::ScalarExt>(k)?);
    let s = |v: u128, n: bool, p: C| { let q = p * C::ScalarExt::from_u128(v); if n { -q } else { q } };
    Ok(s(k1, n1, p) - s(k2, n2, p.endo()))
}

pub fn exec(op: &Op) -> R {
    match op.t.as_str() {
        "bn_g1" => glv::<bn256::G1>(op),
        "grumpkin" => glv::<grumpkin::G1>(op),
        "bls_g1" => glv::<bls12381::G1>(op),
        "bls_g2" => glv::<bls12381::G2>(op),
        "ep" => glv::<pasta::Ep>(op),
        "eq" => glv::<pasta::Eq>(op),
        t => Err(format!("harness: no decomposition for {t}")),
    }
}
