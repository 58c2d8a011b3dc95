//! B01, B02: pairings and the target groups.
use crate::ext::{Ext, PeFp12, PeFp2};
use crate::field::el;
use crate::itf::Op;
use crate::msm::Bytes;
use crate::util::*;
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::Group;
use halo2curves::{bls12381, bn256, pluto_eris, CurveAffine};
use num_bigint::BigInt;
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use subtle::{ConditionallySelectable, ConstantTimeEq};

macro_rules! engine {
    ($m:ident, $E:ty, $P:ty, $Q:ty, $B:ty, $Fp:ty, $Fp2:ty, $Fr:ty, $Gt:ty, $nm:literal) => {
        pub mod $m {
            use super::*;
            type Gt = $Gt;
            pub const NM: &str = $nm;

            fn g1(a: &[BigInt]) -> Result<$P, String> {
                if !is0(&a[2]) {
                    return Ok(<$P>::identity());
                }
                Option::from(<$P>::from_xy(el::<$Fp>(&a[0])?, el::<$Fp>(&a[1])?)).ok_or_else(|| "harness: G1 point rejected".into())
            }
            fn g2(a: &[BigInt]) -> Result<$Q, String> {
                if !is0(&a[4]) {
                    return Ok(<$Q>::identity());
                }
                Option::from(<$Q>::from_xy(<$Fp2 as Ext>::of(&a[0..2])?, <$Fp2 as Ext>::of(&a[2..4])?)).ok_or_else(|| "harness: G2 point rejected".into())
            }
            #[cfg(not(feature = "nohooks"))]
            fn inner(g: &Gt) -> $B {
                g.verif_inner()
            }
            #[cfg(not(feature = "nohooks"))]
            fn wrap(x: $B) -> Gt {
                Gt::verif_new(x)
            }
            // the target group is a tuple struct of one field element
            #[cfg(feature = "nohooks")]
            fn inner(g: &Gt) -> $B {
                unsafe { std::mem::transmute(*g) }
            }
            #[cfg(feature = "nohooks")]
            fn wrap(x: $B) -> Gt {
                unsafe { std::mem::transmute(x) }
            }
            fn v(g: &Gt) -> Vec<BigInt> {
                inner(g).coeffs()
            }

            pub fn dist(op: &Op) -> R {
                crate::rnd::dist(op, "Group::random", &mut |g| Ok(v(&Gt::random(g))))
            }

            pub struct M {
                regs: Vec<Gt>,
            }
            impl M {
                pub fn new() -> Self {
                    M { regs: vec![Gt::identity(); 4] }
                }
                fn store(&mut self, op: &Op, x: Gt) -> R {
                    self.regs[u(&op.a[0])] = x;
                    cmp(&op.o, v(&x), op.e.clone())
                }
                pub fn exec(&mut self, op: &Op) -> R {
                    let r = |i: usize| self.regs[u(&op.a[i])];
                    match op.o.as_str() {
                        "pair" => {
                            let (p, q) = (g1(&op.a[0..3])?, g2(&op.a[3..8])?);
                            cmp("pairing", v(&<$E>::pairing(&p, &q)), op.e.clone())?;
                            cmp("G1 pairing_with", v(&p.pairing_with(&q)), op.e.clone())?;
                            cmp("G2 pairing_with", v(&q.pairing_with(&p)), op.e.clone())?;
                            cmp("multi_miller_loop of one pair", v(&<$E>::multi_miller_loop(&[(&p, &q)]).final_exponentiation()), op.e.clone())
                        }
                        "multi" => {
                            let ts: Vec<($P, $Q)> = op.a.chunks(8).map(|c| Ok((g1(&c[0..3])?, g2(&c[3..8])?))).collect::<Result<_, String>>()?;
                            let rf: Vec<_> = ts.iter().map(|t| (&t.0, &t.1)).collect();
                            let rev: Vec<_> = ts.iter().rev().map(|t| (&t.0, &t.1)).collect();
                            cmp("multi_miller_loop", v(&<$E>::multi_miller_loop(&rf).final_exponentiation()), op.e.clone())?;
                            cmp("multi_miller_loop (reversed)", v(&<$E>::multi_miller_loop(&rev).final_exponentiation()), op.e.clone())
                        }
                        "gload" => {
                            let x = wrap(<$B as Ext>::of(&op.e)?);
                            self.store(op, x)
                        }
                        "gadd" => {
                            let (x, y) = (r(1), r(2));
                            let z = match u(&op.a[3]) { 0 => &x + &y, 1 => x + y, 2 => x + &y, 3 => &x + y, 4 => { let mut z = x; z += &y; z } _ => { let mut z = x; z += y; z } };
                            self.store(op, z)
                        }
                        "gsub" => {
                            let (x, y) = (r(1), r(2));
                            let z = match u(&op.a[3]) { 0 => &x - &y, 1 => x - y, 2 => x - &y, 3 => &x - y, 4 => { let mut z = x; z -= &y; z } _ => { let mut z = x; z -= y; z } };
                            self.store(op, z)
                        }
                        "gneg" => {
                            let x = r(1);
                            let z = if u(&op.a[2]) % 2 == 0 { -x } else { -&x };
                            self.store(op, z)
                        }
                        "gdbl" => {
                            let x = r(1);
                            let z = if u(&op.a[2]) % 2 == 0 { Group::double(&x) } else { x.double() };
                            self.store(op, z)
                        }
                        "gsum" => {
                            let l = pick(&self.regs, &op.a[2..]);
                            let z: Gt = if u(&op.a[1]) % 2 == 0 { l.iter().sum() } else { l.into_iter().sum() };
                            self.store(op, z)
                        }
                        "gsel" => {
                            let z = Gt::conditional_select(&r(1), &r(2), (u(&op.a[3]) as u8).into());
                            self.store(op, z)
                        }
                        "gid" => {
                            let z = if u(&op.a[1]) % 2 == 0 { Gt::identity() } else { <Gt as Group>::identity() };
                            self.store(op, z)
                        }
                        "gmul" => {
                            let (x, s) = (r(1), el::<$Fr>(&op.a[3])?);
                            let z = match u(&op.a[2]) { 0 => &x * &s, 1 => x * s, 2 => x * &s, 3 => &x * s, 4 => { let mut z = x; z *= &s; z } _ => { let mut z = x; z *= s; z } };
                            self.store(op, z)
                        }
                        "geq" => {
                            let (x, y) = (r(0), r(1));
                            let e: Vec<bool> = op.e.iter().map(|b| !is0(b)).collect();
                            cmp("==", x == y, e[0])?;
                            cmp("!=", x != y, !e[0])?;
                            cmp("ct_eq", bool::from(x.ct_eq(&y)), e[0])?;
                            cmp("== identity", x == Gt::identity(), e[1])?;
                            cmp("is_identity", bool::from(x.is_identity()), e[1])
                        }
                        "fexp" => {
                            let x = <$B as Ext>::of(&op.a)?;
                            cmp("final_exponentiation", v(&x.final_exponentiation()), op.e.clone())
                        }
                        "grand" => {
                            let mut rng = Bytes::new(&op.a[0], u(&op.a[1]), u(&op.a[2]) as u8);
                            let x = quiet(|| Gt::random(&mut rng))?;
                            let y = quiet(|| Gt::random(&mut rng))?;
                            let n = limbs(&op.a[3], 8);
                            for g in [&x, &y] {
                                cmp("random element raised to the group order", inner(&g).pow_vartime(&n) == <$B as Field>::ONE, true)?;
                            }
                            // the second draw starts no earlier than 12 base field elements into the stream
                            cmp("two successive random elements are equal", x == y, false)
                        }
                        o => Err(format!("harness: unknown operation {o}")),
                    }
                }
            }
        }
    };
}
engine!(bn, bn256::Bn256, bn256::G1Affine, bn256::G2Affine, bn256::Fq12, bn256::Fq, bn256::Fq2, bn256::Fr, bn256::Gt, "bn");
engine!(bls, bls12381::Bls12381, bls12381::G1Affine, bls12381::G2Affine, bls12381::Fq12, bls12381::Fq, bls12381::Fq2, bls12381::Fr, bls12381::Gt, "bls");
engine!(pluto, pluto_eris::Pluto, pluto_eris::G1Affine, pluto_eris::G2Affine, PeFp12, pluto_eris::Fp, PeFp2, pluto_eris::Fq, pluto_eris::Gt, "pe");

pub fn machine(t: &str) -> Option<Box<dyn FnMut(&Op) -> R>> {
    macro_rules! g { ($($m:ident),*) => { $( if t == $m::NM { let mut m = $m::M::new(); return Some(Box::new(move |o| m.exec(o))); } )* } }
    g!(bn, bls, pluto);
    None
}

pub fn dist(op: &Op) -> Option<R> {
    macro_rules! g { ($($m:ident),*) => { $( if op.t == $m::NM { return Some($m::dist(op)); } )* } }
    g!(bn, bls, pluto);
    None
}
