//! R01: samples recorded from the library's samplers, judged against the expectations of the specification.
use crate::itf::Op;
use crate::msm::Bytes;
use crate::util::*;
use num_bigint::BigInt;
use rand_core::RngCore;

/// A generator that counts what is drawn from it.
pub struct Counted {
    g: Bytes,
    pub n: usize,
}
impl Counted {
    pub fn new(seed: &BigInt) -> Self {
        Counted { g: Bytes::new(seed, 0, 0), n: 0 }
    }
}
impl RngCore for Counted {
    fn next_u32(&mut self) -> u32 {
        self.n += 4;
        self.g.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.n += 8;
        self.g.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.n += d.len();
        self.g.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

type Sampler<'a> = dyn FnMut(&mut Counted) -> Result<Vec<BigInt>, String> + 'a;

struct Bits {
    ones: Vec<i64>,
}
impl Bits {
    fn new(nb: usize) -> Self {
        Bits { ones: vec![0; nb] }
    }
    fn add(&mut self, w: &[u64]) {
        for (i, c) in self.ones.iter_mut().enumerate() {
            *c += (w[i / 64] >> (i % 64) & 1) as i64;
        }
    }
}

/// op.a = [seed, N, p, R, bits of p], op.e = [tolerance, N/2, wider tolerance, expected ones of each bit]
pub fn dist(op: &Op, what: &str, sample: &mut Sampler<'_>) -> R {
    let (n, p, mont, nb) = (u(&op.a[1]), &op.a[2], &op.a[3], u(&op.a[4]));
    let int = |i: usize| i64::try_from(&op.e[i]).unwrap();
    let (tol, half, wide) = (int(0), int(1), int(2));
    let k = (nb + 63) / 64;
    let shifts: Vec<usize> = [1usize, 32].into_iter().chain((1..k).map(|j| 64 * j)).collect();
    // the same generator gives the same element, another one another element
    let first = sample(&mut Counted::new(&op.a[0]))?;
    cmp(&format!("{what}: same generator, same element"), sample(&mut Counted::new(&op.a[0]))? == first, true)?;
    let m = first.len();
    let mut g = Counted::new(&op.a[0]);
    // per coordinate: canonical and internal form, correlations inside, with the previous sample, with the next coordinate
    let mut plain: Vec<[Bits; 2]> = (0..m).map(|_| [Bits::new(nb), Bits::new(nb)]).collect();
    let mut corr: Vec<Vec<Bits>> = (0..m).map(|_| (0..2 * shifts.len() + 2 * m + 1).map(|_| Bits::new(nb)).collect()).collect();
    let mut prev: Vec<Vec<u64>> = vec![vec![0; k]; m];
    let mut seen = std::collections::HashSet::new();
    for s in 0..n {
        let before = g.n;
        let v = sample(&mut g)?;
        // an element takes at least its own entropy from the generator
        cmp(&format!("{what}: bits drawn from the generator cover the field"), 8 * (g.n - before) >= nb, true)?;
        cmp(&format!("{what}: elements of independent draws are distinct"), seen.insert(v.clone()), true)?;
        let w: Vec<[Vec<u64>; 2]> = v.iter().map(|x| [limbs(x, k), limbs(&((x * mont) % p), k)]).collect();
        for j in 0..m {
            for f in 0..2 {
                plain[j][f].add(&w[j][f]);
                for (q, &sh) in shifts.iter().enumerate() {
                    let x: Vec<u64> = (0..k)
                        .map(|i| {
                            let hi = |i: usize| w[j][f].get(i).copied().unwrap_or(0);
                            let (a, b) = (sh / 64, sh % 64);
                            let t = if b == 0 { hi(i + a) } else { hi(i + a) >> b | hi(i + a + 1) << (64 - b) };
                            w[j][f][i] ^ t
                        })
                        .collect();
                    corr[j][2 * q + f].add(&x);
                }
            }
            let xor = |a: &[u64], b: &[u64]| a.iter().zip(b).map(|(a, b)| a ^ b).collect::<Vec<_>>();
            if s > 0 {
                corr[j][2 * shifts.len()].add(&xor(&w[j][0], &prev[j]));
            }
            for i in 0..m {
                if i != j {
                    corr[j][2 * shifts.len() + 1 + 2 * i].add(&xor(&w[j][0], &w[i][0]));
                    corr[j][2 * shifts.len() + 2 + 2 * i].add(&xor(&w[j][1], &w[i][1]));
                }
            }
        }
        for (p, w) in prev.iter_mut().zip(&w) {
            p.clone_from(&w[0]);
        }
    }
    for j in 0..m {
        for f in 0..2 {
            for i in 0..nb {
                let (got, want) = (plain[j][f].ones[i], int(3 + i));
                if (got - want).abs() > tol {
                    return Err(format!("{what}: coordinate {j}, bit {i} of the {} form is set in {got} of {n} samples, specification says {want} +- {tol}",
                        ["canonical", "internal"][f]));
                }
            }
        }
        let half_ok = |what2: String, b: &Bits, top: usize| -> R {
            for i in 0..nb.saturating_sub(top + 12) {
                if (b.ones[i] - half).abs() > wide {
                    return Err(format!("{what}: coordinate {j}, bit {i} agrees with {what2} in {} of {n} samples, specification says {half} +- {wide}",
                        n as i64 - b.ones[i]));
                }
            }
            Ok(())
        };
        for (q, &sh) in shifts.iter().enumerate() {
            half_ok(format!("the bit {sh} places above"), &corr[j][2 * q], sh)?;
            half_ok(format!("the bit {sh} places above (internal form)"), &corr[j][2 * q + 1], sh)?;
        }
        half_ok("the previous element".into(), &corr[j][2 * shifts.len()], 0)?;
        for i in (0..m).filter(|&i| i != j) {
            half_ok(format!("coordinate {i}"), &corr[j][2 * shifts.len() + 1 + 2 * i], 0)?;
            half_ok(format!("coordinate {i} (internal form)"), &corr[j][2 * shifts.len() + 2 + 2 * i], 0)?;
        }
    }
    Ok(())
}

pub fn exec(op: &Op) -> R {
    use crate::ext::{Ext, PeFp12, PeFp2, PeFp6};
    use crate::field::{val, Fld};
    use ff::Field;
    use halo2curves::{bls12381, bn256, pluto_eris, secp256k1, secp256r1};
    macro_rules! f { ($($t:ty),*) => { $( if op.t == <$t as Fld>::NM { return dist(op, "Field::random", &mut |g| Ok(vec![val(&<$t as Field>::random(g))])); } )* } }
    f!(bn256::Fr, bn256::Fq, bls12381::Fr, bls12381::Fq, secp256k1::Fp, secp256k1::Fq, secp256r1::Fp, secp256r1::Fq, pluto_eris::Fp, pluto_eris::Fq);
    macro_rules! x { ($($t:ty),*) => { $( if op.t == <$t as Ext>::NM { return dist(op, "Field::random", &mut |g| Ok(<$t as Field>::random(g).coeffs())); } )* } }
    x!(bn256::Fq2, bls12381::Fq2, PeFp2, bn256::Fq6, bn256::Fq12, bls12381::Fq6, bls12381::Fq12, PeFp6, PeFp12);
    match crate::curve::dist(op) {
        Some(r) => r,
        None => crate::pairing::dist(op).unwrap_or_else(|| Err(format!("harness: no sampler for {}", op.t))),
    }
}
