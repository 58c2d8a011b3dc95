//! Replays traces of the Quint specification in the real library and compares every observation.
//! usage: replay [-j THREADS] TRACE.itf.json...
//! Output: one JSON line per finding / summary on stdout.  Exit 0 = all agreed, 1 = differences.
mod curve;
#[cfg(not(feature = "nohooks"))]
mod endo;
mod ext;
mod field;
mod itf;
mod lint;
mod msm;
mod pairing;
mod rnd;
mod util;

use ext::*;
use field::*;
use halo2curves::{bls12381, bn256, pluto_eris, secp256k1, secp256r1};
use itf::Op;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

#[derive(Default)]
struct Machines {
    m: BTreeMap<String, Box<dyn FnMut(&Op) -> R>>,
}

/// `x2`: the trace is about encodings and roots of the quadratic fields (X02), not the register machine.
fn machine(t: &str, x2: bool) -> Option<Box<dyn FnMut(&Op) -> R>> {
    macro_rules! f { ($($ty:ty),*) => { $( if t == <$ty as Fld>::NM { let mut m = FieldM::<$ty>::new(); return Some(Box::new(move |o| m.exec(o))); } )* } }
    f!(bn256::Fr, bn256::Fq, bls12381::Fr, bls12381::Fq, secp256k1::Fp, secp256k1::Fq, secp256r1::Fp, secp256r1::Fq, pluto_eris::Fp, pluto_eris::Fq);
    macro_rules! x { ($($ty:ty),*) => { $( if t == <$ty as Ext>::NM { let mut m = ExtM::<$ty>::new(); return Some(Box::new(move |o| m.exec(o))); } )* } }
    if !x2 {
        x!(bn256::Fq2, bls12381::Fq2, PeFp2);
    }
    x!(bn256::Fq6, bn256::Fq12, bls12381::Fq6, bls12381::Fq12, PeFp6, PeFp12);
    macro_rules! q { ($($ty:ty),*) => { $( if t == <$ty as Ext>::NM { return Some(Box::new(q2exec::<$ty>)); } )* } }
    q!(bn256::Fq2, bls12381::Fq2, PeFp2);
    if let Some(m) = curve::machine(t) {
        return Some(m);
    }
    if let Some(m) = pairing::machine(t) {
        return Some(m);
    }
    if let Some(m) = lint::machine(t) {
        return Some(m);
    }
    if t == "gen" {
        return Some(Box::new(generic));
    }
    None
}

const X2: [&str; 8] = ["sqrt", "enc", "dec", "len", "const", "cmp", "uniform", "u64"];

impl Machines {
    fn exec(&mut self, op: &Op) -> R {
        match op.o.as_str() {
            #[cfg(not(feature = "nohooks"))]
            "glv" => return endo::exec(op),
            #[cfg(not(feature = "nohooks"))]
            "glvp" => return curve::glvp(op),
            #[cfg(feature = "nohooks")]
            "glv" | "glvp" => return Err("skip: built without hooks".into()),
            "dist" => return rnd::exec(op),
            _ => (),
        }
        if !self.m.contains_key(&op.t) {
            let m = machine(&op.t, X2.contains(&op.o.as_str())).ok_or_else(|| format!("harness: unknown type {}", op.t))?;
            self.m.insert(op.t.clone(), m);
        }
        self.m.get_mut(&op.t).unwrap()(op)
    }
}

struct Work {
    // start of the operation in progress and its description, per thread
    cur: Mutex<Option<(Instant, String)>>,
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut threads = 8;
    let mut limit = 120u64;
    let mut echo = false;
    while args.first().map_or(false, |a| a.starts_with('-')) {
        let a = args.remove(0);
        match a.as_str() {
            "-j" => threads = args.remove(0).parse().unwrap(),
            "-t" => limit = args.remove(0).parse().unwrap(),
            "-v" => echo = true,
            _ => {
                eprintln!("bad option {a}");
                std::process::exit(2)
            }
        }
    }
    // @FILE: one trace path per line
    args = args
        .into_iter()
        .flat_map(|a| match a.strip_prefix('@') {
            Some(f) => std::fs::read_to_string(f).unwrap().lines().map(String::from).collect(),
            None => vec![a],
        })
        .collect();
    std::panic::set_hook(Box::new(|_| {}));
    let next = AtomicUsize::new(0);
    let bad = AtomicBool::new(false);
    let tool = AtomicBool::new(false);
    let counts: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let seen: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let work: Vec<Work> = (0..threads).map(|_| Work { cur: Mutex::new(None) }).collect();
    let (done, skipped) = (AtomicUsize::new(0), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for w in &work {
            let (next, bad, tool, counts, seen, done, skipped, args) = (&next, &bad, &tool, &counts, &seen, &done, &skipped, &args);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= args.len() {
                            break;
                        }
                        let ops = match itf::read(&args[i]) {
                            Ok(o) => o,
                            Err(e) => {
                                println!("{}", serde_json::json!({"tool_error": e}));
                                tool.store(true, Ordering::SeqCst);
                                continue;
                            }
                        };
                        let mut ms = Machines::default();
                        let mut local: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                        let mut hs = vec![];
                        for (k, op) in ops.iter().enumerate() {
                            *w.cur.lock().unwrap() = Some((Instant::now(), format!("{} #{k} {op}", args[i])));
                            if echo {
                                eprintln!("AT {} #{k} {op}", args[i]);
                            }
                            let r = quiet(|| ms.exec(op)).unwrap_or_else(Err);
                            if matches!(&r, Err(e) if e.starts_with("skip:")) {
                                skipped.fetch_add(1, Ordering::SeqCst);
                                continue;
                            }
                            let c = local.entry(format!("{}:{}", op.t, op.o)).or_default();
                            c.0 += 1;
                            if op.a.iter().any(|x| x.bits() > 6) {
                                c.1 += 1;
                            }
                            {
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                (&op.o, &op.t, &op.a, &op.e).hash(&mut h);
                                hs.push(h.finish());
                            }
                            if let Err(e) = r {
                                if e.starts_with("harness:") {
                                    println!("{}", serde_json::json!({"tool_error": e, "at": op.to_string()}));
                                    tool.store(true, Ordering::SeqCst);
                                } else {
                                    println!("{}", serde_json::json!({"mismatch": e, "trace": args[i], "index": k, "op": op.o, "type": op.t,
                                        "args": op.a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "step": op.step,
                                        "expected": op.e.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
                                    bad.store(true, Ordering::SeqCst);
                                }
                                break; // later steps of this history are meaningless
                            }
                        }
                        *w.cur.lock().unwrap() = None;
                        let mut c = counts.lock().unwrap();
                        for (k, v) in local {
                            let e = c.entry(k).or_default();
                            e.0 += v.0;
                            e.1 += v.1;
                        }
                        seen.lock().unwrap().extend(hs);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: an operation that does not return is a difference too
        while done.load(Ordering::SeqCst) < work.len() {
            std::thread::sleep(Duration::from_millis(5));
            for w in &work {
                if let Some((t, d)) = &*w.cur.lock().unwrap() {
                    if t.elapsed() > Duration::from_secs(limit) {
                        println!("{}", serde_json::json!({"mismatch": format!("operation did not return within {limit} s"), "at": d}));
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let c = counts.into_inner().unwrap();
    let ops: u64 = c.values().map(|v| v.0).sum();
    let map: BTreeMap<_, _> = c.iter().map(|(k, v)| (k.clone(), v.0)).collect();
    println!("{}", serde_json::json!({"summary": {"traces": args.len(), "ops": ops, "skipped": skipped.load(Ordering::SeqCst), "distinct": seen.into_inner().unwrap().len(), "by_op": map}}));
    std::process::exit(if tool.load(Ordering::SeqCst) { 2 } else if bad.load(Ordering::SeqCst) { 1 } else { 0 });
}
