//! X01, X02: extension-field towers.
use crate::field::{el, val, Fld};
use crate::itf::Op;
use crate::util::*;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use halo2curves::ff_ext::cubic::{CubicExtField, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadSparseMul};
use halo2curves::ff_ext::{ExtField, Legendre};
use halo2curves::serde::{endian::EndianRepr, Repr, SerdeObject};
use halo2curves::{bls12381, bn256, pluto_eris};
use num_bigint::BigInt;
use num_traits::Zero;

pub type PeFp2 = QuadExtField<pluto_eris::Fp>;
pub type PeFp6 = CubicExtField<PeFp2>;
pub type PeFp12 = QuadExtField<PeFp6>;

/// A tower field as a list of integer coefficients in the library's nesting.
pub trait Ext: ExtField {
    const NM: &'static str;
    const N: usize;
    fn of(v: &[BigInt]) -> Result<Self, String>;
    fn coeffs(&self) -> Vec<BigInt>;
    fn binop(form: usize, o: u8, x: &Self, y: &Self) -> Self;
    fn inh(o: u8, x: &Self, y: &Self) -> Self;
    fn zero_one() -> (Self, Self);
    fn sparse(&self, _o: &str, _c: &[BigInt]) -> Option<Self> {
        None
    }
    fn conj(&self) -> Option<Self> {
        None
    }
    /// The norm to the subfield, as an element of the field.
    fn norm(&self) -> Option<Self> {
        None
    }
    fn cyc(&self) -> Option<Self> {
        None
    }
}

macro_rules! common {
    ($t:ty) => {
        fn binop(form: usize, o: u8, x: &Self, y: &Self) -> Self {
            match (o, form) {
                (b'+', 0) => x + y, (b'+', 1) => *x + *y, (b'+', 2) => *x + y, (b'+', 3) => x + *y,
                (b'+', 4) => { let mut z = *x; z += y; z } (b'+', _) => { let mut z = *x; z += *y; z }
                (b'-', 0) => x - y, (b'-', 1) => *x - *y, (b'-', 2) => *x - y, (b'-', 3) => x - *y,
                (b'-', 4) => { let mut z = *x; z -= y; z } (b'-', _) => { let mut z = *x; z -= *y; z }
                (b'*', 0) => x * y, (b'*', 1) => *x * *y, (b'*', 2) => *x * y, (b'*', 3) => x * *y,
                (b'*', 4) => { let mut z = *x; z *= y; z } (b'*', _) => { let mut z = *x; z *= *y; z }
                (_, 0) => -x, (_, _) => -*x,
            }
        }
        fn inh(o: u8, x: &Self, y: &Self) -> Self {
            match o {
                b'+' => <$t>::add(x, y),
                b'-' => <$t>::sub(x, y),
                b'*' => <$t>::mul(x, y),
                b'm' => { let mut z = *x; <$t>::mul_assign(&mut z, y); z }
                b'2' => <$t>::double(x),
                b's' => <$t>::square(x),
                b't' => { let mut z = *x; <$t>::square_assign(&mut z); z }
                _ => <$t>::neg(x),
            }
        }
        fn zero_one() -> (Self, Self) { (<$t>::zero(), <$t>::one()) }
    };
}
macro_rules! quad2 {
    ($t:ty, $b:ty, $nm:literal) => {
        impl Ext for $t {
            const NM: &'static str = $nm;
            const N: usize = 2;
            fn of(v: &[BigInt]) -> Result<Self, String> { Ok(<$t>::new(el::<$b>(&v[0])?, el::<$b>(&v[1])?)) }
            fn coeffs(&self) -> Vec<BigInt> { vec![val(self.c0()), val(self.c1())] }
            fn conj(&self) -> Option<Self> { let mut z = *self; z.conjugate(); Some(z) }
            fn norm(&self) -> Option<Self> { Some(<$t>::new(<$t>::norm(self), <$b>::ZERO)) }
            common!($t);
        }
    };
}
macro_rules! cubic6 {
    ($t:ty, $b:ty, $nm:literal) => {
        impl Ext for $t {
            const NM: &'static str = $nm;
            const N: usize = 6;
            fn of(v: &[BigInt]) -> Result<Self, String> { Ok(<$t>::new(<$b>::of(&v[0..2])?, <$b>::of(&v[2..4])?, <$b>::of(&v[4..6])?)) }
            fn coeffs(&self) -> Vec<BigInt> { [self.c0(), self.c1(), self.c2()].iter().flat_map(|c| c.coeffs()).collect() }
            fn sparse(&self, o: &str, c: &[BigInt]) -> Option<Self> {
                match o {
                    "m1" => Some(<$t as CubicSparseMul>::mul_by_1(self, &<$b>::of(&c[0..2]).unwrap())),
                    "m01" => Some(<$t as CubicSparseMul>::mul_by_01(self, &<$b>::of(&c[0..2]).unwrap(), &<$b>::of(&c[2..4]).unwrap())),
                    _ => None,
                }
            }
            common!($t);
        }
    };
}
macro_rules! quad12 {
    ($t:ty, $b:ty, $q:ty, $nm:literal) => {
        impl Ext for $t {
            const NM: &'static str = $nm;
            const N: usize = 12;
            fn of(v: &[BigInt]) -> Result<Self, String> { Ok(<$t>::new(<$b>::of(&v[0..6])?, <$b>::of(&v[6..12])?)) }
            fn coeffs(&self) -> Vec<BigInt> { [self.c0(), self.c1()].iter().flat_map(|c| c.coeffs()).collect() }
            fn conj(&self) -> Option<Self> { let mut z = *self; z.conjugate(); Some(z) }
            fn norm(&self) -> Option<Self> { Some(<$t>::new(<$t>::norm(self), <$b>::ZERO)) }
            fn cyc(&self) -> Option<Self> { let mut z = *self; z.cyclotomic_square(); Some(z) }
            fn sparse(&self, o: &str, c: &[BigInt]) -> Option<Self> {
                let mut z = *self;
                let k = |i: usize| <$q>::of(&c[2 * i..2 * i + 2]).unwrap();
                match o {
                    "m014" => <$t as QuadSparseMul>::mul_by_014(&mut z, &k(0), &k(1), &k(2)),
                    "m034" => <$t as QuadSparseMul>::mul_by_034(&mut z, &k(0), &k(1), &k(2)),
                    _ => return None,
                }
                Some(z)
            }
            common!($t);
        }
    };
}
quad2!(bn256::Fq2, bn256::Fq, "bn_fq2");
quad2!(bls12381::Fq2, bls12381::Fq, "bls_fq2");
quad2!(PeFp2, pluto_eris::Fp, "pe_fp2");
cubic6!(bn256::Fq6, bn256::Fq2, "bn_fq6");
cubic6!(bls12381::Fq6, bls12381::Fq2, "bls_fq6");
cubic6!(PeFp6, PeFp2, "pe_fp6");
quad12!(bn256::Fq12, bn256::Fq6, bn256::Fq2, "bn_fq12");
quad12!(bls12381::Fq12, bls12381::Fq6, bls12381::Fq2, "bls_fq12");
quad12!(PeFp12, PeFp6, PeFp2, "pe_fp12");

pub struct ExtM<F: Ext> {
    regs: Vec<F>,
}
impl<F: Ext> ExtM<F> {
    pub fn new() -> Self {
        ExtM { regs: vec![F::ZERO; 6] }
    }
    fn store(&mut self, op: &Op, x: F) -> R {
        self.regs[u(&op.a[0])] = x;
        cmp(&op.o, x.coeffs(), op.e.clone())
    }
    pub fn exec(&mut self, op: &Op) -> R {
        let r = |i: usize| self.regs[u(&op.a[i])];
        let form = |i: usize| u(&op.a[i]);
        match op.o.as_str() {
            "load" => {
                let x = F::of(&op.e)?;
                self.store(op, x)
            }
            "add" | "sub" | "mul" => {
                let o = match op.o.as_str() { "add" => b'+', "sub" => b'-', _ => b'*' };
                let (x, y) = (r(1), r(2));
                let z = F::binop(form(3), o, &x, &y);
                cmp(&format!("inherent {}", op.o), F::inh(o, &x, &y).coeffs(), op.e.clone())?;
                if o == b'*' {
                    cmp("mul_assign", F::inh(b'm', &x, &y).coeffs(), op.e.clone())?;
                }
                self.store(op, z)
            }
            "neg" => {
                let x = r(1);
                cmp("inherent neg", F::inh(b'n', &x, &x).coeffs(), op.e.clone())?;
                let z = F::binop(form(2) % 2, b'n', &x, &x);
                self.store(op, z)
            }
            "double" => {
                let x = r(1);
                cmp("inherent double", F::inh(b'2', &x, &x).coeffs(), op.e.clone())?;
                self.store(op, Field::double(&x))
            }
            "square" => {
                let x = r(1);
                cmp("inherent square", F::inh(b's', &x, &x).coeffs(), op.e.clone())?;
                cmp("square_assign", F::inh(b't', &x, &x).coeffs(), op.e.clone())?;
                self.store(op, Field::square(&x))
            }
            "frob" => {
                let mut x = r(1);
                x.frobenius_map(form(2));
                self.store(op, x)
            }
            "conj" => {
                let x = r(1).conj().ok_or("harness: no conjugation")?;
                self.store(op, x)
            }
            "norm" => {
                let x = Ext::norm(&r(1)).ok_or("harness: no norm")?;
                self.store(op, x)
            }
            "nonres" => {
                let x = r(1);
                cmp("NON_RESIDUE * x", (F::NON_RESIDUE * x).coeffs(), op.e.clone())?;
                self.store(op, x.mul_by_nonresidue())
            }
            "inv0" => {
                let y: Option<F> = r(0).invert().into();
                cmp("invert(0)", y.is_none(), true)
            }
            "inv" => {
                let y: Option<F> = r(1).invert().into();
                let y = y.ok_or("invert of a non-zero element returned none")?;
                self.store(op, y)
            }
            "select" => {
                let x = F::conditional_select(&r(1), &r(2), (form(3) as u8).into());
                self.store(op, x)
            }
            "sum" => {
                let l = pick(&self.regs, &op.a[2..]);
                let x: F = if form(1) % 2 == 0 { l.iter().sum() } else { l.into_iter().sum() };
                self.store(op, x)
            }
            "product" => {
                let l = pick(&self.regs, &op.a[2..]);
                let x: F = if form(1) % 2 == 0 { l.iter().product() } else { l.into_iter().product() };
                self.store(op, x)
            }
            "pow" => {
                let e = limbs(&op.a[3], 1);
                let x = if form(2) < 3 { r(1).pow(&e) } else { r(1).pow_vartime(&e) };
                self.store(op, x)
            }
            "eq" => {
                let (x, y) = (r(0), r(1));
                let e: Vec<bool> = op.e.iter().map(|v| !is0(v)).collect();
                let c = u(&op.a[2]);
                let mut v = x.coeffs();
                v[c] = op.a[3].clone();
                let z = F::of(&v)?;
                let only = F::of(&op.a[4..])?;
                cmp("==", x == y, e[0])?;
                cmp("!=", x != y, !e[0])?;
                cmp("ct_eq", bool::from(x.ct_eq(&y)), e[0])?;
                cmp("== (one coefficient differs)", x == z, false)?;
                cmp("ct_eq (one coefficient differs)", bool::from(x.ct_eq(&z)), false)?;
                cmp("is_zero", bool::from(x.is_zero()), e[1])?;
                cmp("is_zero_vartime", x.is_zero_vartime(), e[1])?;
                cmp("== ZERO", x == F::ZERO, e[1])?;
                cmp("== ONE", x == F::ONE, e[2])?;
                let (z0, o0) = F::zero_one();
                cmp("== zero()", x == z0, e[1])?;
                cmp("== one()", x == o0, e[2])?;
                cmp("== default", x == F::default(), e[1])?;
                cmp("is_zero (single coefficient)", bool::from(only.is_zero()), e[3])?;
                cmp("ct_eq ZERO (single coefficient)", bool::from(only.ct_eq(&F::ZERO)), e[3])
            }
            "m1" | "m01" | "m014" | "m034" => {
                let x = r(1).sparse(&op.o, &op.a[2..]).ok_or("harness: no sparse product")?;
                self.store(op, x)
            }
            "cyc" => {
                let mut x = F::of(&op.a[2..])?;
                for _ in 0..u(&op.a[1]) {
                    x = x.cyc().ok_or("harness: no cyclotomic square")?;
                }
                self.store(op, x)
            }
            o => Err(format!("harness: unknown operation {o}")),
        }
    }
}

// -------------------------------------------------------------------------------- X02
pub trait Q2: Ext + PrimeField + SerdeObject + EndianRepr + Ord + Legendre + WithSmallOrderMulGroup<3> + serde::Serialize + serde::de::DeserializeOwned {
    fn inh_from(b: &[u8]) -> Option<Self>;
    fn inh_to(&self) -> Vec<u8>;
    fn lex(&self) -> bool;
    fn uniform(b: &[u8]) -> Self;
    fn repr_of(b: &[u8]) -> Self::Repr;
    const SZ: usize;
}
macro_rules! q2 {
    ($t:ty, $b:ty, $u:literal) => {
        impl Q2 for $t {
            fn inh_from(b: &[u8]) -> Option<Self> { <$t>::from_bytes(b.try_into().unwrap()).into() }
            fn inh_to(&self) -> Vec<u8> { <$t>::to_bytes(self).to_vec() }
            fn lex(&self) -> bool { self.lexicographically_largest().into() }
            fn uniform(b: &[u8]) -> Self { <$t as FromUniformBytes<$u>>::from_uniform_bytes(b.try_into().unwrap()) }
            fn repr_of(b: &[u8]) -> Self::Repr { Repr::<{ <$b as Fld>::L * 16 }>::from(b) }
            const SZ: usize = <$t>::SIZE;
        }
    };
}
q2!(bn256::Fq2, bn256::Fq, 96);
q2!(bls12381::Fq2, bls12381::Fq, 128);
q2!(PeFp2, pluto_eris::Fp, 128);

pub fn q2exec<F: Q2>(op: &Op) -> R {
    let n = F::SZ / 2;
    let h = n; // bytes per coefficient
    match op.o.as_str() {
        "sqrt" => {
            let x = F::of(&op.a[0..2])?;
            cmp("legendre", BigInt::from(x.legendre()), op.e[1].clone())?;
            let non = op.e[1] == BigInt::from(-1);
            cmp("ct_quadratic_non_residue", bool::from(x.ct_quadratic_non_residue()), non)?;
            cmp("ct_quadratic_residue", bool::from(x.ct_quadratic_residue()), !non)?;
            let y: Option<F> = x.sqrt().into();
            match (y, is0(&op.e[0])) {
                (None, true) => Ok(()),
                (Some(y), false) => {
                    let c = y.coeffs();
                    let (p, be) = (&op.a[2], &op.a[3]);
                    let sq = vec![(&c[0] * &c[0] + be * &c[1] * &c[1]) % p, (&c[0] * &c[1] * 2) % p];
                    cmp("sqrt squared", sq, op.a[0..2].to_vec())
                }
                (y, _) => Err(format!("sqrt({:?}) returned {y:?}", &op.a[0..2])),
            }
        }
        "enc" => {
            let x = F::of(&op.a[0..2])?;
            let (repr, bytes, raw) = (le(&op.e[0], 2 * h), le(&op.e[1], 2 * h), le(&op.e[2], 2 * h));
            cmp("to_repr", x.to_repr().as_ref().to_vec(), repr.clone())?;
            cmp("to_bytes", x.inh_to(), bytes.clone())?;
            cmp("EndianRepr::to_bytes", EndianRepr::to_bytes(&x), bytes.clone())?;
            cmp("to_raw_bytes", x.to_raw_bytes(), raw.clone())?;
            let mut w = vec![];
            x.write_raw(&mut w).map_err(|e| e.to_string())?;
            cmp("write_raw", w, raw.clone())?;
            cmp("is_odd", bool::from(x.is_odd()), !is0(&op.e[3]))?;
            cmp("is_even", bool::from(x.is_even()), is0(&op.e[3]))?;
            cmp("lexicographically_largest", x.lex(), !is0(&op.e[4]))?;
            let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            let y: F = serde_json::from_str(&js).map_err(|e| format!("serde text: {e}"))?;
            cmp("serde text round trip", y, x)?;
            let bc = bincode::serialize(&x).map_err(|e| e.to_string())?;
            cmp("serde binary", bc.clone(), repr.clone())?;
            let y: F = bincode::deserialize(&bc).map_err(|e| format!("serde binary: {e}"))?;
            cmp("serde binary round trip", y, x)?;
            streams("", &x, &raw)?;
            serde_ways("", &x)?;
            cmp("from_repr", Option::<F>::from(F::from_repr(F::repr_of(&repr))), Some(x))?;
            cmp("from_repr_vartime", F::from_repr_vartime(F::repr_of(&repr)), Some(x))?;
            cmp("from_bytes", F::inh_from(&bytes), Some(x))?;
            cmp("EndianRepr::from_bytes", Option::<F>::from(<F as EndianRepr>::from_bytes(&bytes)), Some(x))?;
            cmp("from_raw_bytes", F::from_raw_bytes(&raw), Some(x))?;
            cmp("from_raw_bytes_unchecked", F::from_raw_bytes_unchecked(&raw), x)?;
            cmp("read_raw", F::read_raw(&mut &raw[..]).ok(), Some(x))?;
            cmp("read_raw_unchecked", F::read_raw_unchecked(&mut &raw[..]), x)
        }
        "dec" => {
            let mut b = le(&op.a[0], h);
            b.extend(le(&op.a[1], h));
            let want = |f: usize, i: usize| if is0(&op.e[f]) { None } else { Some(op.e[i..i + 2].to_vec()) };
            let got = |o: Option<F>| o.map(|x| x.coeffs());
            cmp("from_repr", got(F::from_repr(F::repr_of(&b)).into()), want(0, 1))?;
            cmp("from_repr_vartime", got(F::from_repr_vartime(F::repr_of(&b))), want(0, 1))?;
            cmp("from_bytes", got(F::inh_from(&b)), want(3, 4))?;
            cmp("EndianRepr::from_bytes", got(<F as EndianRepr>::from_bytes(&b).into()), want(3, 4))?;
            cmp("from_raw_bytes", got(F::from_raw_bytes(&b)), want(0, 6))?;
            cmp("read_raw", got(F::read_raw(&mut &b[..]).ok()), want(0, 6))?;
            cmp("serde binary", got(bincode::deserialize(&b).ok()), want(0, 1))?;
            let js = format!("{{\"c0\":\"{}\",\"c1\":\"{}\"}}", hex(&b[..h]), hex(&b[h..]));
            cmp("serde text", got(serde_json::from_str(&js).ok()), want(0, 1))
        }
        "len" => {
            let k = u(&op.a[0]);
            let raw = vec![0u8; k];
            cmp("from_raw_bytes (length)", F::from_raw_bytes(&raw).is_some(), !is0(&op.e[0]))?;
            let mut rd = &raw[..];
            let x = F::read_raw(&mut rd);
            cmp("read_raw (length)", x.is_ok(), !is0(&op.e[1]))?;
            if x.is_ok() {
                cmp("read_raw (consumed)", k - rd.len(), 2 * h)?;
            }
            cmp("serde binary (length)", bincode::deserialize::<F>(&raw).is_ok(), !is0(&op.e[1]))
        }
        "const" => {
            cmp("TWO_INV", F::TWO_INV.coeffs(), vec![op.e[0].clone(), BigInt::zero()])?;
            let z = F::ZETA;
            if z == F::ONE || z * z * z != F::ONE {
                return Err("ZETA is not a primitive cube root of unity".into());
            }
            cmp("SIZE", F::SZ, u(&op.e[1]))
        }
        "cmp" => {
            let (x, y) = (F::of(&op.a[0..2])?, F::of(&op.a[2..4])?);
            cmp("cmp", BigInt::from(x.cmp(&y) as i8), op.e[0].clone())?;
            cmp("partial_cmp", x.partial_cmp(&y), Some(x.cmp(&y)))?;
            cmp("== agrees with cmp", x == y, is0(&op.e[0]))?;
            cmp("< agrees with cmp", x < y, op.e[0] < BigInt::zero())
        }
        "uniform" => cmp("from_uniform_bytes", F::uniform(&le(&op.a[1], u(&op.a[0]))).coeffs(), op.e.clone()),
        "u64" => {
            let v = limbs(&op.a[0], 1)[0];
            cmp("From<u64>", F::from(v).coeffs(), op.e.clone())
        }
        o => Err(format!("harness: unknown operation {o}")),
    }
}
