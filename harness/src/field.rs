//! F01-F04: prime fields.
use crate::itf::Op;
use crate::util::*;
use ff::{BatchInvert, Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::{inverse::BYInverter, jacobi::jacobi, Legendre};
use halo2curves::serde::{endian::EndianRepr, Repr, SerdeObject};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use subtle::Choice;

pub trait Fld:
    PrimeField
    + SerdeObject
    + EndianRepr
    + Ord
    + Hash
    + Legendre
    + PrimeFieldBits
    + WithSmallOrderMulGroup<3>
    + serde::Serialize
    + serde::de::DeserializeOwned
{
    const NM: &'static str;
    const L: usize;
    fn raw_limbs(v: &[u64]) -> Self;
    fn inh_from(b: &[u8]) -> Option<Self>;
    fn inh_to(&self) -> Vec<u8>;
    fn lex(&self) -> bool;
    fn uniform(b: &[u8]) -> Self;
    fn repr_of(b: &[u8]) -> Self::Repr;
    fn binop(form: usize, o: u8, x: &Self, y: &Self) -> Self;
    fn sizes() -> (usize, usize);
    fn inh_zero_one() -> (Self, Self);
    fn repr_from_ref(&self) -> Vec<u8>;
    fn dbl(&self) -> Self;
    fn sqr(&self) -> Self;
}

macro_rules! fld {
    ($t:ty, $nm:literal, $nl:literal, [$($u:literal),*]) => {
        impl Fld for $t {
            const NM: &'static str = $nm;
            const L: usize = $nl;
            fn raw_limbs(v: &[u64]) -> Self { <$t>::from_raw(v.try_into().unwrap()) }
            fn inh_from(b: &[u8]) -> Option<Self> { <$t>::from_bytes(b.try_into().unwrap()).into() }
            fn inh_to(&self) -> Vec<u8> { <$t>::to_bytes(self).to_vec() }
            fn lex(&self) -> bool { self.lexicographically_largest().into() }
            fn uniform(b: &[u8]) -> Self {
                $( if b.len() == $u { return <$t as FromUniformBytes<$u>>::from_uniform_bytes(b.try_into().unwrap()); } )*
                panic!("harness: unsupported uniform size")
            }
            fn repr_of(b: &[u8]) -> Self::Repr { Repr::<{ $nl * 8 }>::from(b) }
            fn binop(form: usize, o: u8, x: &Self, y: &Self) -> Self {
                match (o, form) {
                    (b'+', 0) => x + y, (b'+', 1) => *x + *y, (b'+', 2) => *x + y, (b'+', 3) => x + *y,
                    (b'+', 4) => { let mut z = *x; z += y; z } (b'+', _) => { let mut z = *x; z += *y; z }
                    (b'-', 0) => x - y, (b'-', 1) => *x - *y, (b'-', 2) => *x - y, (b'-', 3) => x - *y,
                    (b'-', 4) => { let mut z = *x; z -= y; z } (b'-', _) => { let mut z = *x; z -= *y; z }
                    (b'*', 0) => x * y, (b'*', 1) => *x * *y, (b'*', 2) => *x * y, (b'*', 3) => x * *y,
                    (b'*', 4) => { let mut z = *x; z *= y; z } (b'*', _) => { let mut z = *x; z *= *y; z }
                    (_, 0) => -x, (_, _) => -*x,
                }
            }
            fn sizes() -> (usize, usize) { (<$t>::NUM_LIMBS, <$t>::SIZE) }
            fn inh_zero_one() -> (Self, Self) { (<$t>::zero(), <$t>::one()) }
            fn repr_from_ref(&self) -> Vec<u8> {
                let a = Repr::<{ $nl * 8 }>::from(self);
                let b = Repr::<{ $nl * 8 }>::from(*self);
                assert_eq!(a.inner(), b.inner());
                a.inner().to_vec()
            }
            fn dbl(&self) -> Self { <$t>::double(self) }
            fn sqr(&self) -> Self { <$t>::square(self) }
        }
    };
}
use halo2curves::{bls12381, bn256, pluto_eris, secp256k1, secp256r1};
fld!(bn256::Fr, "bn_fr", 4, [64, 48]);
fld!(bn256::Fq, "bn_fq", 4, [64, 48]);
fld!(bls12381::Fr, "bls_fr", 4, [64]);
fld!(bls12381::Fq, "bls_fq", 6, [64, 96]);
fld!(secp256k1::Fp, "k1_fp", 4, [48, 64]);
fld!(secp256k1::Fq, "k1_fq", 4, [48, 64]);
fld!(secp256r1::Fp, "r1_fp", 4, [48, 64]);
fld!(secp256r1::Fq, "r1_fq", 4, [48, 64]);
fld!(pluto_eris::Fp, "pe_fp", 7, [64, 72, 112]);
fld!(pluto_eris::Fq, "pe_fq", 7, [64, 72, 112]);

pub fn val<F: PrimeField>(x: &F) -> BigInt {
    int(x.to_repr().as_ref())
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// An element from its canonical integer, through the checked decoder.
pub fn el<F: Fld>(v: &BigInt) -> Result<F, String> {
    let x: Option<F> = F::from_repr(F::repr_of(&le(v, 8 * F::L))).into();
    x.ok_or_else(|| format!("from_repr rejects the canonical value {v}"))
}
pub fn same<F: Fld>(what: &str, x: &F, v: &BigInt, raw: &BigInt) -> R {
    cmp(what, val(x), v.clone())?;
    cmp(&format!("{what} (internal form)"), int(&x.to_raw_bytes()), raw.clone())
}

pub struct FieldM<F: Fld> {
    regs: Vec<F>,
}

impl<F: Fld> FieldM<F> {
    pub fn new() -> Self {
        FieldM { regs: vec![F::ZERO; 8] }
    }

    fn store(&mut self, op: &Op, x: F) -> R {
        let d = u(&op.a[0]);
        self.regs[d] = x;
        same(&op.o, &x, &op.e[0], &op.e[1])?;
        // the same value obtained by decoding must be indistinguishable
        let y: F = el(&op.e[0])?;
        if !(x == y && bool::from(x.ct_eq(&y)) && hash(&x) == hash(&y)) {
            return Err("equal values compare or hash differently".into());
        }
        cmp("is_zero", bool::from(x.is_zero()), is0(&op.e[0]))?;
        cmp("is_zero_vartime", x.is_zero_vartime(), is0(&op.e[0]))
    }

    pub fn exec(&mut self, op: &Op) -> R {
        let r = |i: usize| self.regs[u(&op.a[i])];
        let form = |i: usize| u(&op.a[i]);
        match op.o.as_str() {
            // ---------------------------------------------------------------- F01
            "load" => {
                let x = el::<F>(&op.e[0])?;
                self.store(op, x)
            }
            "add" => { let x = F::binop(form(3), b'+', &r(1), &r(2)); self.store(op, x) }
            "sub" => { let x = F::binop(form(3), b'-', &r(1), &r(2)); self.store(op, x) }
            "mul" => { let x = F::binop(form(3), b'*', &r(1), &r(2)); self.store(op, x) }
            "mulsub" => {
                let d = self.regs[u(&op.a[0])];
                let x = F::binop(form(3), b'-', &F::binop(form(3), b'*', &r(1), &r(2)), &d);
                self.store(op, x)
            }
            "neg" => { let x = F::binop(form(2), b'~', &r(1), &r(1)); self.store(op, x) }
            "double" => { let x = if form(2) % 2 == 0 { Field::double(&r(1)) } else { r(1).dbl() }; self.store(op, x) }
            "square" => { let x = if form(2) % 2 == 0 { Field::square(&r(1)) } else { r(1).sqr() }; self.store(op, x) }
            "cube" => { let x = r(1).cube(); self.store(op, x) }
            "select" => {
                let c = Choice::from(u(&op.a[3]) as u8);
                let (a, b) = (r(1), r(2));
                let x = F::conditional_select(&a, &b, c);
                let mut y = a;
                y.conditional_assign(&b, c);
                cmp("conditional_assign", val(&y), val(&x))?;
                let (mut s, mut t) = (a, b);
                F::conditional_swap(&mut s, &mut t, c);
                cmp("conditional_swap", (val(&s), val(&t)), if u(&op.a[3]) == 1 { (val(&b), val(&a)) } else { (val(&a), val(&b)) })?;
                self.store(op, x)
            }
            "sum" => {
                let l = pick(&self.regs, &op.a[2..]);
                let x: F = if form(1) % 2 == 0 { l.iter().sum() } else { l.into_iter().sum() };
                self.store(op, x)
            }
            "product" => {
                let l = pick(&self.regs, &op.a[2..]);
                let x: F = if form(1) % 2 == 0 { l.iter().product() } else { l.into_iter().product() };
                self.store(op, x)
            }
            "chain" => {
                let mut acc = self.regs[u(&op.a[0])];
                let (x, y) = (r(1), r(2));
                for _ in 0..u(&op.a[3]) {
                    acc = acc * x + y;
                }
                self.store(op, acc)
            }
            "pow" => {
                let e = limbs(&op.a[3], (op.a[3].bits() as usize + 63) / 64 + form(2) % 2);
                let x = if form(2) < 3 { r(1).pow(&e) } else { r(1).pow_vartime(&e) };
                self.store(op, x)
            }
            "eq" => {
                let (x, y) = (r(0), r(1));
                let z = el::<F>(&op.a[2])?;
                let e: Vec<bool> = op.e.iter().map(|v| !is0(v)).collect();
                cmp("==", x == y, e[0])?;
                cmp("!=", x != y, !e[0])?;
                cmp("ct_eq", bool::from(x.ct_eq(&y)), e[0])?;
                cmp("== (one internal limb apart)", x == z, e[1])?;
                cmp("ct_eq (one internal limb apart)", bool::from(x.ct_eq(&z)), e[1])?;
                cmp("is_zero", bool::from(x.is_zero()), e[2])?;
                let (z0, o0) = F::inh_zero_one();
                cmp("== ONE", x == F::ONE, e[3])?;
                cmp("== one()", x == o0, e[3])?;
                cmp("== zero()", x == z0, e[2])?;
                cmp("== ZERO", x == F::ZERO, e[2])?;
                cmp("== default", x == F::default(), e[2])
            }
            "rand" => {
                let mut g = crate::msm::Bytes::new(&op.a[0], form(1), form(2) as u8);
                let (x, y) = (F::random(&mut g), F::random(&mut g));
                let z = F::random(&mut g);
                for v in [&x, &y, &z] {
                    cmp("random element in reduced form", int(&v.to_raw_bytes()) < op.e[0], true)?;
                    cmp("random element equals its decoded encoding", el::<F>(&val(v))? == *v, true)?;
                }
                cmp("successive random elements all equal", x == y && y == z, false)
            }
            // ---------------------------------------------------------------- F02
            "inv" => {
                let x = el::<F>(&op.a[0])?;
                let y: Option<F> = x.invert().into();
                match (y, is0(&op.e[0])) {
                    (None, true) => Ok(()),
                    (Some(y), false) => same("invert", &y, &op.e[1], &op.e[2]),
                    (y, _) => Err(format!("invert({}) returned {y:?}", op.a[0])),
                }
            }
            "batchinv" => {
                let mut v = op.a.iter().map(el::<F>).collect::<Result<Vec<_>, _>>()?;
                v.iter_mut().batch_invert();
                for (x, e) in v.iter().zip(&op.e) {
                    cmp("batch_invert", val(x), e.clone())?;
                }
                Ok(())
            }
            "leg" => {
                let x = el::<F>(&op.a[0])?;
                let l = BigInt::from(x.legendre());
                cmp("legendre", l, op.e[0].clone())?;
                let non = op.e[0] == BigInt::from(-1);
                cmp("ct_quadratic_non_residue", bool::from(x.ct_quadratic_non_residue()), non)?;
                cmp("ct_quadratic_residue", bool::from(x.ct_quadratic_residue()), !non)
            }
            "sqrt" => {
                let x = el::<F>(&op.a[0])?;
                let p = &op.a[1];
                let check = |what: &str, y: Option<F>| -> R {
                    match (y, is0(&op.e[0])) {
                        (None, true) => Ok(()),
                        (Some(y), false) => {
                            let v = val(&y);
                            cmp(&format!("{what} squared"), (&v * &v) % p, op.a[0].clone())?;
                            let n = el::<F>(&v)?;
                            cmp(&format!("{what} canonical"), n, y)
                        }
                        (y, _) => Err(format!("{what}({}) returned {y:?}", op.a[0])),
                    }
                };
                check("sqrt", x.sqrt().into())?;
                let (c, y) = x.sqrt_alt();
                check("sqrt_alt", if bool::from(c) { Some(y) } else { None })?;
                let l = x.legendre();
                cmp("legendre", l, if is0(&op.e[0]) { -1 } else if is0(&op.a[0]) { 0 } else { 1 })
            }
            "sqrtratio" => {
                let (n, d) = (el::<F>(&op.a[0])?, el::<F>(&op.a[1])?);
                let (c, y) = F::sqrt_ratio(&n, &d);
                cmp("sqrt_ratio flag", bool::from(c), !is0(&op.e[0]))?;
                let v = val(&y);
                cmp("sqrt_ratio squared", (&v * &v) % &op.a[2], op.e[1].clone())
            }
            // ---------------------------------------------------------------- F03
            "enc" => {
                let n = 8 * F::L;
                let x = el::<F>(&op.a[0])?;
                let (repr, bytes, raw) = (le(&op.e[0], n), le(&op.e[1], n), le(&op.e[2], n));
                cmp("to_repr", x.to_repr().as_ref().to_vec(), repr.clone())?;
                cmp("Repr::from", x.repr_from_ref(), repr.clone())?;
                cmp("to_bytes", x.inh_to(), bytes.clone())?;
                cmp("EndianRepr::to_bytes", EndianRepr::to_bytes(&x), bytes.clone())?;
                cmp("to_raw_bytes", x.to_raw_bytes(), raw.clone())?;
                let mut w = vec![];
                x.write_raw(&mut w).map_err(|e| e.to_string())?;
                cmp("write_raw", w.clone(), raw.clone())?;
                let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
                cmp("serde text", js.clone(), format!("\"{}\"", hex(&repr)))?;
                let bc = bincode::serialize(&x).map_err(|e| e.to_string())?;
                cmp("serde binary", bc.clone(), repr.clone())?;
                let bits = x.to_le_bits();
                for (i, b) in bits.iter().enumerate() {
                    cmp("to_le_bits", *b, repr[i / 8] >> (i % 8) & 1 == 1)?;
                }
                cmp("to_le_bits length", bits.len(), 8 * n)?;
                cmp("Debug", format!("{x:?}"), format!("0x{}", hex(&repr.iter().rev().copied().collect::<Vec<_>>())))?;
                cmp("is_odd", bool::from(x.is_odd()), !is0(&op.e[3]))?;
                cmp("is_even", bool::from(x.is_even()), is0(&op.e[3]))?;
                cmp("lexicographically_largest", x.lex(), !is0(&op.e[4]))?;
                // decode what was encoded
                let y: F = serde_json::from_str(&js).map_err(|e| e.to_string())?;
                cmp("serde text round trip", y, x)?;
                let y: F = bincode::deserialize(&bc).map_err(|e| e.to_string())?;
                cmp("serde binary round trip", y, x)?;
                cmp("from_bytes(to_bytes)", F::inh_from(&bytes), Some(x))?;
                cmp("EndianRepr round trip", Option::<F>::from(<F as EndianRepr>::from_bytes(&bytes)), Some(x))?;
                streams("", &x, &raw)?;
                serde_ways("", &x)?;
                cmp("from_repr_vartime", F::from_repr_vartime(F::repr_of(&repr)), Some(x))?;
                cmp("from_raw_bytes", F::from_raw_bytes(&raw), Some(x))?;
                cmp("from_raw_bytes_unchecked", F::from_raw_bytes_unchecked(&raw), x)?;
                cmp("read_raw", F::read_raw(&mut &raw[..]).ok(), Some(x))?;
                cmp("read_raw_unchecked", F::read_raw_unchecked(&mut &raw[..]), x)
            }
            "dec" => {
                let n = 8 * F::L;
                let b = le(&op.a[0], n);
                let want = |i: usize| if is0(&op.e[i]) { None } else { Some(op.e[i + 1].clone()) };
                let got = |o: Option<F>| o.map(|x| val(&x));
                cmp("from_repr", got(F::from_repr(F::repr_of(&b)).into()), want(0))?;
                cmp("from_repr_vartime", got(F::from_repr_vartime(F::repr_of(&b))), want(0))?;
                cmp("from_bytes", got(F::inh_from(&b)), want(2))?;
                cmp("EndianRepr::from_bytes", got(<F as EndianRepr>::from_bytes(&b).into()), want(2))?;
                cmp("from_raw_bytes", got(F::from_raw_bytes(&b)), want(4))?;
                cmp("read_raw", got(F::read_raw(&mut &b[..]).ok()), want(4))?;
                cmp("serde text", got(serde_json::from_str(&format!("\"{}\"", hex(&b))).ok()), want(0))?;
                cmp("serde binary", got(bincode::deserialize(&b).ok()), want(0))
            }
            "len" => {
                let n = 8 * F::L;
                let len = u(&op.a[1]);
                let mut raw = el::<F>(&op.a[0])?.to_raw_bytes();
                raw.resize(len, 0);
                cmp("from_raw_bytes (length)", F::from_raw_bytes(&raw).is_some(), !is0(&op.e[0]))?;
                let mut rd = &raw[..];
                let x = F::read_raw(&mut rd);
                cmp("read_raw (length)", x.is_ok(), !is0(&op.e[1]))?;
                if let Ok(x) = x {
                    cmp("read_raw (value)", val(&x), op.e[2].clone())?;
                    cmp("read_raw (consumed)", len - rd.len(), n)?;
                }
                let mut rep = le(&op.a[0], n);
                rep.resize(len, 0);
                cmp("serde text (length)", serde_json::from_str::<F>(&format!("\"{}\"", hex(&rep))).is_ok(), !is0(&op.e[0]))?;
                cmp("serde text (odd)", serde_json::from_str::<F>(&format!("\"{}0\"", hex(&rep))).is_ok(), false)?;
                cmp("serde text (not hex)", serde_json::from_str::<F>(&format!("\"{}zz\"", hex(&rep[..len.min(n - 1)]))).is_ok(), false)?;
                cmp("serde binary (length)", bincode::deserialize::<F>(&rep).is_ok(), !is0(&op.e[1]))
            }
            "cmp" => {
                let (x, y) = (el::<F>(&op.a[0])?, el::<F>(&op.a[1])?);
                let o = BigInt::from(x.cmp(&y) as i8);
                cmp("cmp", o, op.e[0].clone())?;
                cmp("partial_cmp", x.partial_cmp(&y), Some(x.cmp(&y)))?;
                cmp("== agrees with cmp", x == y, is0(&op.e[0]))?;
                cmp("< agrees with cmp", x < y, op.e[0] < BigInt::zero())?;
                cmp("max", val(&x.max(y)), if op.a[0] > op.a[1] { op.a[0].clone() } else { op.a[1].clone() })
            }
            "char" => {
                let n = 8 * F::L;
                let b = le(&op.e[0], n);
                for (i, x) in F::char_le_bits().iter().enumerate() {
                    cmp("char_le_bits", *x, b[i / 8] >> (i % 8) & 1 == 1)?;
                }
                Ok(())
            }
            // ---------------------------------------------------------------- F04
            "u64" => {
                let v = limbs(&op.a[0], 1)[0];
                same("From<u64>", &F::from(v), &op.e[0], &op.e[1])?;
                same("from_u128", &F::from_u128(v as u128), &op.e[0], &op.e[1])
            }
            "u128" => {
                let l = limbs(&op.a[0], 2);
                same("from_u128", &F::from_u128(l[0] as u128 | (l[1] as u128) << 64), &op.e[0], &op.e[1])
            }
            "bool" => {
                let x = if is0(&op.a[0]) { F::ZERO } else { F::ONE };
                same("ZERO/ONE", &x, &op.e[0], &op.e[1])?;
                same("From<bool>", &frombool::<F>(!is0(&op.a[0])), &op.e[0], &op.e[1])
            }
            "limbs" => same("from_raw", &F::raw_limbs(&limbs(&op.a[0], F::L)), &op.e[0], &op.e[1]),
            "uniform" => {
                let b = le(&op.a[1], u(&op.a[0]));
                same("from_uniform_bytes", &F::uniform(&b), &op.e[0], &op.e[1])
            }
            "str" => {
                let s = op.a[1].to_string();
                let s = match u(&op.a[0]) {
                    0 => s,
                    1 => format!("0{s}"),
                    2 => String::new(),
                    _ => format!("{}x{}", &s[..s.len() / 2], &s[s.len() / 2..]),
                };
                let x = F::from_str_vartime(&s);
                match (x, is0(&op.e[0])) {
                    (None, true) => Ok(()),
                    (Some(x), false) => same("from_str_vartime", &x, &op.e[1], &op.e[2]),
                    (x, _) => Err(format!("from_str_vartime({s:?}) returned {x:?}")),
                }
            }
            "u64range" => {
                let (lo, m) = (u(&op.a[0]) as u64, u(&op.a[1]) as u64);
                for i in 0..m {
                    cmp(&format!("From<u64>({})", lo + i), int(&F::from(lo + i).to_raw_bytes()), op.e[i as usize].clone())?;
                }
                Ok(())
            }
            "const" => {
                let e = &op.e;
                let m = BigInt::parse_bytes(F::MODULUS.trim_start_matches("0x").as_bytes(), 16).unwrap_or_default();
                cmp("MODULUS", m, e[0].clone())?;
                cmp("NUM_BITS", BigInt::from(F::NUM_BITS), e[1].clone())?;
                cmp("CAPACITY", BigInt::from(F::CAPACITY), e[2].clone())?;
                cmp("MULTIPLICATIVE_GENERATOR", val(&F::MULTIPLICATIVE_GENERATOR), e[3].clone())?;
                cmp("S", BigInt::from(F::S), e[4].clone())?;
                cmp("ROOT_OF_UNITY", val(&F::ROOT_OF_UNITY), e[5].clone())?;
                cmp("ROOT_OF_UNITY_INV", val(&F::ROOT_OF_UNITY_INV), e[6].clone())?;
                cmp("DELTA", val(&F::DELTA), e[7].clone())?;
                cmp("TWO_INV", val(&F::TWO_INV), e[8].clone())?;
                let z = val(&F::ZETA);
                if z != e[9] && z != e[10] {
                    return Err(format!("ZETA = {z} is not a primitive cube root of unity"));
                }
                cmp("NUM_LIMBS, SIZE", F::sizes(), (u(&e[11]), u(&e[12])))?;
                cmp("ONE", val(&F::ONE), BigInt::one())?;
                cmp("ZERO", val(&F::ZERO), BigInt::zero())
            }
            o => Err(format!("harness: unknown operation {o}")),
        }
    }
}

fn frombool<F: Fld>(b: bool) -> F {
    macro_rules! t { ($($t:ty),*) => { $( if F::NM == <$t as Fld>::NM {
        let x: $t = <$t as From<bool>>::from(b);
        return F::from_raw_bytes_unchecked(&x.to_raw_bytes());
    } )* } }
    t!(bn256::Fr, bn256::Fq, bls12381::Fr, bls12381::Fq, secp256k1::Fp, secp256k1::Fq, secp256r1::Fp, secp256r1::Fq, pluto_eris::Fp, pluto_eris::Fq);
    unreachable!()
}

/// The exported generic routines (byinv, jac).
pub fn generic(op: &Op) -> R {
    let l = u(&op.a[0]);
    match op.o.as_str() {
        "byinv" => {
            let n = (op.a[1].bits() as usize + 63) / 64;
            // the integer to invert may be wider or narrower than the modulus
            let nv = ((op.a[3].bits() as usize + 63) / 64).max(1);
            let (m, adj, v) = (limbs(&op.a[1], n), limbs(&op.a[2], n), limbs(&op.a[3], nv));
            macro_rules! go { ($($k:literal),*) => { match l { $( $k => BYInverter::<$k>::new(&m, &adj).invert::<8>(&v), )* _ => panic!("harness: L") } } }
            let r: Option<[u64; 8]> = go!(2, 3, 4, 5, 6, 7, 8, 9);
            let got = r.map(|r| int(&r.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
            cmp("BYInverter::invert", got, if is0(&op.e[0]) { None } else { Some(op.e[1].clone()) })
        }
        "jac" => {
            let ln = ((op.a[1].bits() as usize + 63) / 64).max(1);
            let ld = ((op.a[2].bits() as usize + 63) / 64).max(1);
            let (n, d) = (limbs(&op.a[1], ln), limbs(&op.a[2], ld));
            macro_rules! go { ($($k:literal),*) => { match l { $( $k => jacobi::<$k>(&n, &d), )* _ => panic!("harness: L") } } }
            let r: i64 = go!(1, 2, 3, 4, 5, 6, 7, 8);
            cmp("jacobi", BigInt::from(r), op.e[0].clone())
        }
        o => Err(format!("harness: unknown operation {o}")),
    }
}
