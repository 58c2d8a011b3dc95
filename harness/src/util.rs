use num_bigint::{BigInt, Sign};
use num_traits::{ToPrimitive, Zero};

pub type R = Result<(), String>;

/// Little-endian byte string of fixed length for a specification integer.
pub fn le(n: &BigInt, len: usize) -> Vec<u8> {
    let (s, mut b) = n.to_bytes_le();
    assert!(s != Sign::Minus, "negative byte string in trace");
    while b.len() > len && b.last() == Some(&0) {
        b.pop();
    }
    assert!(b.len() <= len, "byte string too long in trace");
    b.resize(len, 0);
    b
}

pub fn int(b: &[u8]) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, b)
}

pub fn u(n: &BigInt) -> usize {
    n.to_usize().expect("small index in trace")
}

pub fn limbs(n: &BigInt, k: usize) -> Vec<u64> {
    le(n, 8 * k).chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn is0(n: &BigInt) -> bool {
    n.is_zero()
}

pub fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, specification says {want:?}"))
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The list regs[i], regs[i + j], regs[i + 2j], ... of n elements; a = [n, i, j].
pub fn pick<T: Copy>(regs: &[T], a: &[BigInt]) -> Vec<T> {
    let (n, i, j) = (u(&a[0]), u(&a[1]), u(&a[2]));
    (0..n).map(|q| regs[(i + q * j) % regs.len()]).collect()
}

/// A reader and writer that moves at most k bytes per call.
pub struct Drip<'a> {
    pub src: &'a [u8],
    pub out: Vec<u8>,
    pub k: usize,
}
impl<'a> Drip<'a> {
    pub fn new(src: &'a [u8], k: usize) -> Self {
        Drip { src, out: vec![], k }
    }
}
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.k).min(self.src.len());
        b[..n].copy_from_slice(&self.src[..n]);
        self.src = &self.src[n..];
        Ok(n)
    }
}
impl std::io::Write for Drip<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.k);
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Read and write failures reach the caller.
pub struct Broken;
impl std::io::Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"))
    }
}
impl std::io::Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Streams in pieces and failing streams: x has the raw form `raw`.
pub fn streams<T: halo2curves::serde::SerdeObject + PartialEq + std::fmt::Debug>(what: &str, x: &T, raw: &[u8]) -> R {
    for k in [1, 5, 32] {
        let mut d = Drip::new(raw, k);
        cmp(&format!("{what} read_raw in pieces of {k} bytes"), T::read_raw(&mut d).ok().as_ref(), Some(x))?;
        cmp(&format!("{what} bytes left by read_raw in pieces"), d.src.len(), 0)?;
        let mut d = Drip::new(raw, k);
        cmp(&format!("{what} read_raw_unchecked in pieces of {k} bytes"), &T::read_raw_unchecked(&mut d), x)?;
        let mut d = Drip::new(&[], k);
        x.write_raw(&mut d).map_err(|e| e.to_string())?;
        cmp(&format!("{what} write_raw in pieces of {k} bytes"), &d.out[..], raw)?;
    }
    cmp(&format!("{what} read_raw reports a failing stream"), T::read_raw(&mut Broken).is_err(), true)?;
    cmp(&format!("{what} write_raw reports a failing stream"), x.write_raw(&mut Broken).is_err(), true)
}
/// Other ways into and out of a serde form: owned text, readers, values.
pub fn serde_ways<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> R {
    let js = serde_json::to_string(x).map_err(|e| e.to_string())?;
    let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
    cmp(&format!("{what} serde value"), v.to_string(), js.clone())?;
    cmp(&format!("{what} serde from a value"), serde_json::from_value::<T>(v).ok().as_ref(), Some(x))?;
    cmp(&format!("{what} serde from a reader"), serde_json::from_reader::<_, T>(Drip::new(js.as_bytes(), 3)).ok().as_ref(), Some(x))?;
    let bc = bincode::serialize(x).map_err(|e| e.to_string())?;
    cmp(&format!("{what} serde binary from a reader"), bincode::deserialize_from::<_, T>(Drip::new(&bc, 3)).ok().as_ref(), Some(x))?;
    let l = serde_json::to_string(&[x, x]).map_err(|e| e.to_string())?;
    cmp(&format!("{what} serde list"), l, format!("[{js},{js}]"))
}

/// Run code that must not panic, turning a panic into a value.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("panicked: {m}")
    })
}

/// Stand-in for the expanded message of this thread (a guarded hook of the repository).
#[cfg(not(feature = "nohooks"))]
pub fn expanded(b: Option<Vec<u8>>) -> R {
    halo2curves::hash_to_curve::verif::EXPANDED.with(|e| *e.borrow_mut() = b);
    Ok(())
}
#[cfg(feature = "nohooks")]
pub fn expanded(_: Option<Vec<u8>>) -> R {
    Err("skip: built without hooks".into())
}
