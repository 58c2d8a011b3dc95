// -*- mode: Bluespec; -*-
// R01: random sampling.  The sampler is specified as a state machine on small instances, where its
// exact distribution is computed by running it over *every* output of the generator; for the real
// types the specification gives the exact expectation of every bit of a uniform element, and the
// tolerance (seven standard deviations), against which samples recorded from the library are judged.
module r01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import curve.* from "./curve"

  var log: List[Op]
  // small instance of the sampler of points
  var ph: str
  var xs: int
  var sg: int
  var pt: (int, int)

  // ---- expectation of the bits of a uniform element of 0..p-1
  pure def onesAt(p: int, i: int): int = {
    val m = 2^(i + 1)
    val t = p % m - 2^i
    (p / m) * 2^i + (if (t > 0) t else 0)
  }
  pure def isqrt(n: int): int = range(0, 40).foldl(n, (x, i) => if (x == 0) 0 else { val y = (x + n / x) / 2 if (y < x) y else x })
  pure def distOp(nm: str, p: int, R: int, N: int, seed: int): Op =
    { o: "dist", t: nm, a: [seed % 2^64, N, p, R, bitlen(p)],
      e: [(7 * isqrt(N)) / 2 + 3, N / 2, (7 * isqrt(N)) / 2 + 3 + N / 2^10].concat(range(0, bitlen(p)).foldl([], (l, i) => l.append((N * onesAt(p, i)) / p))) }

  // ---- the types: name, base prime, number of samples
  type T = { nm: str, F: Field, n: int }
  pure val BN = FIELDS[1]
  pure val BLS = FIELDS[3]
  pure val PE = FIELDS[8]
  pure val PRIMES: List[T] = FIELDS.foldl([], (l, F) => l.append({ nm: F.nm, F: F, n: 65536 }))
  pure val EXTS: List[T] = [
    { nm: "bn_fq2", F: BN, n: 8192 }, { nm: "bls_fq2", F: BLS, n: 8192 }, { nm: "pe_fp2", F: PE, n: 8192 },
    { nm: "bn_fq6", F: BN, n: 4096 }, { nm: "bls_fq6", F: BLS, n: 4096 }, { nm: "pe_fp6", F: PE, n: 4096 },
    { nm: "bn_fq12", F: BN, n: 2048 }, { nm: "bls_fq12", F: BLS, n: 2048 }, { nm: "pe_fp12", F: PE, n: 2048 }]
  pure val POINTS: List[T] = CURVES.foldl([], (l, C) => l.append({ nm: C.nm, F: C.F, n: if (C.ext) 300 else 1000 }))
  pure val TARGETS: List[T] = [{ nm: "bn", F: BN, n: 300 }, { nm: "bls", F: BLS, n: 200 }, { nm: "pe", F: PE, n: 200 }]
  pure def ops(ts: List[T], s: int): List[Op] =
    ts.foldl((s, []), (z, t) => (nxt(z._1), z._2.append(distOp(t.nm, t.F.p, t.F.R, t.n, z._1 / 2^200))))._2

  // ---- small sampler: draw x, draw a sign, accept if x is on the curve, else draw again
  // y^2 = x^3 + 3 over Z/13 (no point with y = 0, so no point counted twice)
  pure val P0 = 13
  pure val B0 = 3
  pure def rhs0(x: int): int = (x * x * x + B0) % P0
  pure def roots(v: int): Set[int] = 0.to(P0 - 1).filter(y => (y * y) % P0 == v)
  pure def root(v: int, s: int): int = roots(v).filter(y => y % 2 == s).fold(0, (a, y) => y)
  pure val ALLPTS = tuples(0.to(P0 - 1), 0.to(P0 - 1)).filter(q => (q._2 * q._2) % P0 == rhs0(q._1))

  action init = all { log' = [], ph' = "x", xs' = 0, sg' = 0, pt' = (0, 0) }
  action keep(l: List[Op]): bool = all { log' = l, ph' = ph, xs' = xs, sg' = sg, pt' = pt }
  // traces for the real types
  action stepR = { nondet s = 0.to(RM - 1).oneOf() keep(ops(PRIMES, s).concat(ops(EXTS, nxt(s) + 1))) }
  action stepP = { nondet s = 0.to(RM - 1).oneOf() keep(ops(POINTS, s).concat(ops(TARGETS, nxt(s) + 1))) }
  // the small machine: w is one output of the generator
  action drawX = { nondet w = 0.to(255).oneOf() all { ph == "x", ph' = "s", xs' = w % P0, sg' = sg, pt' = pt, log' = [] } }
  action drawS = { nondet w = 0.to(255).oneOf() all { ph == "s", ph' = "t", xs' = xs, sg' = w % 2, pt' = pt, log' = [] } }
  action reject = all { ph == "t", roots(rhs0(xs)) == Set(), ph' = "x", xs' = xs, sg' = sg, pt' = pt, log' = [] }
  action accept = all { ph == "t", roots(rhs0(xs)) != Set(), ph' = "done", xs' = xs, sg' = sg, pt' = (xs, root(rhs0(xs), sg)), log' = [] }
  action again = all { ph == "done", ph' = "x", xs' = xs, sg' = sg, pt' = pt, log' = [] }
  action step = any { drawX, drawS, reject, accept, again }
  // whatever the generator returns, an accepted point is on the curve
  val okR01 = ph == "done" implies ALLPTS.contains(pt)

  // wide reduction: with k extra bits no residue is more than one part in 2^k more likely than another
  run wideTest = assert(1.to(40).forall(p => 0.to(8).forall(k => {
    val nb = bitlen(p) + k
    val c = 0.to(p - 1).map(v => (2^nb - 1 - v) / p + 1)
    c.forall(a => c.forall(b => a - b <= 1 and (a > b implies b >= 2^k - 1)))
  })))
  // every point is reached by exactly one (x, sign): equal weights
  run weightTest = all {
    assert(ALLPTS.forall(q => tuples(0.to(P0 - 1), 0.to(1)).filter(z => roots(rhs0(z._1)) != Set() and (z._1, root(rhs0(z._1), z._2)) == q).size() == 1)),
    assert(ALLPTS.size() > 0 and ALLPTS.forall(q => q._2 != 0))
  }
  // multiplication by the cofactor is onto the subgroup with equal weights (cyclic group of order h r)
  run clearTest = assert(tuples(1.to(9), Set(3, 5, 7, 11)).forall(z => {
    val n = z._1 * z._2
    val img = 0.to(n - 1).map(k => (k * z._1) % n)
    img.size() == z._2 and img.forall(v => 0.to(n - 1).filter(k => (k * z._1) % n == v).size() == z._1)
  }))
  // expectation of a bit: brute force for every small modulus
  run bitsTest = assert(1.to(70).forall(p => 0.to(6).forall(i => 0.to(p - 1).filter(v => (v / 2^i) % 2 == 1).size() == onesAt(p, i))))
}
