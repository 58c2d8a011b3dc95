//! Long inputs of M01/T01, unfolded from the specification's stream, and thread pools of chosen sizes.
use crate::util::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::{Arc, Mutex, OnceLock};

/// The pseudo-random stream of spec/nt.qnt: r -> (r*RA + RC) mod 2^704.
pub struct Stream {
    r: BigInt,
    a: BigInt,
    c: BigInt,
}
impl Stream {
    pub fn new(r: &BigInt) -> Self {
        let h = |s: &str| BigInt::parse_bytes(s.as_bytes(), 16).unwrap();
        let a = h("2b5ad5c4795c026514f8317c7a215e218dccd6cf47a9b3c1d5e7f90123456789abcdef0fedcba98765432100112233445566778899aabbccddeeff1");
        Stream {
            r: r.clone(),
            a: (a << 64) + BigInt::from_str("5").unwrap(),
            c: h("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95"),
        }
    }
    pub fn next(&mut self) {
        let m: BigInt = (BigInt::from(1) << 704) - 1;
        self.r = (&self.r * &self.a + &self.c) & m;
    }
    pub fn f(&self, shift: usize, n: u64) -> u64 {
        let v: BigInt = (&self.r >> shift) % BigInt::from(n);
        u64::try_from(&v).unwrap()
    }
    pub fn big(&self, n: &BigInt) -> BigInt {
        (&self.r >> 160usize) % n
    }
}

/// par = [q0, md, kmax, idn], pool = 6 scalars: calls f(s, j, k, z) for the n terms.
pub fn unfold(par: &[BigInt], pool: &[BigInt], n: usize, r: &BigInt, mut f: impl FnMut(BigInt, usize, usize, usize) -> R) -> R {
    let mut q = Stream::new(&par[0]);
    let (md, kmax, idn) = (u(&par[1]), u(&par[2]), u(&par[3]));
    for _ in 0..n {
        let pick = || pool[q.f(680, 6) as usize].clone();
        let s = match (md, q.f(690, 4)) {
            (0, _) => q.big(r),
            (1, _) => pick(),
            (2, _) => BigInt::from(q.f(660, 1 << 16)),
            (_, 0) => pick(),
            (_, 1) => r - 1 - BigInt::from(q.f(660, 1 << 12)),
            (_, 2) => BigInt::from(q.f(660, 3)),
            _ => q.big(r),
        };
        let z = if (q.f(620, 64) as usize) < idn { 1 } else if q.f(615, 2) == 0 { 2 } else { 0 };
        f(s, q.f(650, 3) as usize, q.f(630, kmax as u64) as usize, z)?;
        q.next();
    }
    Ok(())
}

/// Run in a pool of exactly n worker threads.
pub fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    static P: OnceLock<Mutex<BTreeMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let p = P
        .get_or_init(Default::default)
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .entry(n)
        .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().unwrap()))
        .clone();
    p.install(f)
}

/// A byte source: n copies of one byte, then a xorshift stream.
pub struct Bytes {
    s: u64,
    n: usize,
    b: u8,
}
impl Bytes {
    pub fn new(seed: &BigInt, n: usize, b: u8) -> Self {
        Bytes { s: u64::try_from(seed).unwrap() | 1, n, b }
    }
}
impl rand_core::RngCore for Bytes {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = if self.n > 0 {
                self.n -= 1;
                self.b
            } else {
                self.s ^= self.s << 13;
                self.s ^= self.s >> 7;
                self.s ^= self.s << 17;
                (self.s >> 24) as u8
            };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
