//! Reading of ITF traces written by `quint run` and the operation record they carry.
use num_bigint::BigInt;
use serde::de::{self, Deserializer, MapAccess, Visitor};
use serde::Deserialize;
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Z(pub BigInt);

impl<'de> Deserialize<'de> for Z {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Z;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an ITF integer")
            }
            fn visit_i64<E: de::Error>(self, v: i64) -> Result<Z, E> {
                Ok(Z(BigInt::from(v)))
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Z, E> {
                Ok(Z(BigInt::from(v)))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Z, A::Error> {
                let (_k, v): (String, String) =
                    m.next_entry()?.ok_or_else(|| de::Error::custom("empty integer"))?;
                BigInt::from_str(&v).map(Z).map_err(de::Error::custom)
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(Clone, Debug, Deserialize)]
pub struct RawOp {
    pub o: String,
    pub t: String,
    pub a: Vec<Z>,
    pub e: Vec<Z>,
}

#[derive(Deserialize)]
struct State {
    log: Vec<RawOp>,
}

#[derive(Deserialize)]
struct Trace {
    states: Vec<State>,
}

/// Operations of one trace, in order, with the step they belong to.
pub struct Op {
    pub step: usize,
    pub o: String,
    pub t: String,
    pub a: Vec<BigInt>,
    pub e: Vec<BigInt>,
}

pub fn read(path: &str) -> Result<Vec<Op>, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let t: Trace = serde_json::from_str(&s).map_err(|e| format!("{path}: {e}"))?;
    let mut v = vec![];
    for (i, st) in t.states.into_iter().enumerate() {
        for op in st.log {
            v.push(Op {
                step: i,
                o: op.o,
                t: op.t,
                a: op.a.into_iter().map(|z| z.0).collect(),
                e: op.e.into_iter().map(|z| z.0).collect(),
            });
        }
    }
    Ok(v)
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let j = |v: &Vec<BigInt>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        write!(f, "step={} op={} type={} args=[{}] expected=[{}]", self.step, self.o, self.t, j(&self.a), j(&self.e))
    }
}
