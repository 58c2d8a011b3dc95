// -*- mode: Bluespec; -*-
// F02, the two algorithms behind the exported routines, as state machines with a parametric word
// size, so that small words drive every branch often:
//   BY:  Bernstein-Yang inversion, one action per batch of division steps of a jump, then the update of
//        (f, g, d, e) by the jump's matrix;
//   JAC: Jacobi symbol by Pornin-style approximated binary Euclid, one action per inner iteration.
// The invariants are what makes the results right for every input; finished runs are also replayed in
// the real (62- and 64-bit) code, which must give the same result.
module alg {
  import nt.* from "./nt"
  type M2 = { a: int, b: int, c: int, d: int }
  type By = { w: int, M: int, A: int, x: int, delta: int, f: int, g: int, d: int, e: int,
              // inside a jump: remaining steps, low words of f and g, matrix
              steps: int, fl: int, gl: int, t: M2, jumps: int }
  type Jc = { wb: int, lim: int, n0: int, d0: int, n: int, d: int, t: int, a: int, b: int, u: (int, int), v: (int, int), i: int, fresh: bool, outer: int }
  var mode: int            // 0: BY in a jump, 1: JAC, 2: finished
  var by: By
  var jc: Jc
  var log: List[Op]

  pure def pmod(x: int, m: int): int = ((x % m) + m) % m
  pure def fdiv(x: int, m: int): int = (x - pmod(x, m)) / m
  pure def absI(x: int): int = if (x < 0) -x else x
  pure def minI(x: int, y: int): int = if (x < y) x else y
  pure def maxI(x: int, y: int): int = if (x < y) y else x
  // trailing zeros, at most cap
  pure def tz(x: int, cap: int): int = range(0, cap).foldl((x, 0), (s, i) => if (s._1 % 2 == 0) (s._1 / 2, s._2 + 1) else s)._2
  // two's complement reading of the low w bits
  pure def sgn(x: int, w: int): int = { val y = pmod(x, 2^w) if (y >= 2^(w - 1)) y - 2^w else y }
  pure def xorB(x: int, y: int): int = range(0, 3).foldl(0, (s, i) => s + (if ((x / 2^i) % 2 != (y / 2^i) % 2) 2^i else 0))
  pure def bit1(x: int): int = (pmod(x, 4)) / 2

  // ------------------------------------------------------------------ BY
  pure val ID2 = { a: 1, b: 0, c: 0, d: 1 }
  // full words (the code's f is an i64, g an i128 read from one w-bit word)
  pure def enterJump(s: By): By = { ...s, steps: s.w, fl: pmod(s.f, 2^s.w), gl: pmod(s.g, 2^s.w), t: ID2 }
  pure def batchStep(s0: By): By = {
    val z = tz(s0.gl, s0.steps)
    val s = { ...s0, steps: s0.steps - z, delta: s0.delta + z, gl: fdiv(s0.gl, 2^z),
              t: { ...s0.t, a: s0.t.a * 2^z, b: s0.t.b * 2^z } }
    if (s.steps == 0) s else {
      val q = if (s.delta > 0) { ...s, delta: -s.delta, fl: s.gl, gl: -s.fl, t: { a: s.t.c, b: s.t.d, c: -s.t.a, d: -s.t.b } } else s
      val k = minI(minI(q.steps, 1 - q.delta), 5)
      // w * f = -g (mod 2^k)
      val wv = range(0, 32).foldl(0, (c, i) => if (pmod(i * q.fl + q.gl, 2^k) == 0 and i < 2^k) i else c)
      { ...q, gl: q.gl + wv * q.fl, t: { ...q.t, c: q.t.a * wv + q.t.c, d: q.t.b * wv + q.t.d } }
    }
  }
  // end of a jump: apply the matrix to (f, g) exactly and to (d, e) modulo M.  t is scaled by 2^w.
  // rows as in the code: row 0 -> f?  The code keeps row 0 for f and row 1 for g with z-shifts on row 0.
  pure def leaveJump(s: By): By = {
    val W2 = 2^s.w
    val nf = (s.t.a * s.f + s.t.b * s.g)
    val ng = (s.t.c * s.f + s.t.d * s.g)
    def upd(r0, r1) = {
      val base = (if (s.d < 0) r0 else 0) + (if (s.e < 0) r1 else 0)
      val low = pmod(r0 * s.d + r1 * s.e, W2)
      val iM = inv(pmod(s.M, W2), W2)
      val m = base - pmod(iM * low + base, W2)
      fdiv(r0 * s.d + r1 * s.e + m * s.M, W2)
    }
    { ...s, f: fdiv(nf, W2), g: fdiv(ng, W2), d: upd(s.t.a, s.t.b), e: upd(s.t.c, s.t.d), t: ID2, steps: 0, jumps: s.jumps + 1 }
  }
  pure def divisible(s: By): bool =
    (s.t.a * s.f + s.t.b * s.g) % 2^s.w == 0 and (s.t.c * s.f + s.t.d * s.g) % 2^s.w == 0
  pure def normBy(s: By): int = {
    val v1 = if (s.d < 0) s.d + s.M else s.d
    val v2 = if (s.f == -1) -v1 else v1
    if (v2 < 0) v2 + s.M else v2
  }
  pure def limbsFor(b: int): int = (b + 64 + 61) / 62
  pure def byOp(s: By): Op = {
    val g = egcd(pmod(s.x, s.M), s.M)
    { o: "byinv", t: "gen", a: [maxI(2, limbsFor(bitlen(maxI(s.M, s.x)))), s.M, s.A, s.x],
      e: if (g._1 == 1) [1, (g._2 * s.A) % s.M] else [0, 0] }
  }
  // bounds and relations of the inversion
  def okBy(s: By): bool = and {
    s.f % 2 != 0,
    pmod(s.d * s.x - s.f * s.A, s.M) == 0,
    pmod(s.e * s.x - s.g * s.A, s.M) == 0,
    -2 * s.M < s.d and s.d < s.M,
    -2 * s.M < s.e and s.e < s.M,
    absI(s.f) <= maxI(s.M, s.x), absI(s.g) <= maxI(s.M, s.x),
    absI(s.t.a) + absI(s.t.b) <= 2^s.w, absI(s.t.c) + absI(s.t.d) <= 2^s.w,
    // termination (theorem 11.2 of the paper, rounded up to whole jumps)
    s.jumps * s.w <= (49 * bitlen(maxI(s.M, s.x)) + 80) / 17 + s.w
  }
  def doneBy(s: By): bool = and {
    s.g == 0,
    absI(s.f) == egcd(pmod(s.x, s.M), s.M)._1,
    (absI(s.f) != 1 or (normBy(s) >= 0 and normBy(s) < s.M and pmod(normBy(s) * s.x - s.A, s.M) == 0))
  }

  // ------------------------------------------------------------------ JAC
  // words of wb bits; approximations keep the wb/2 low bits exactly and high bits from the top word only
  pure def inner(s: Jc): int = s.wb / 2 - 2
  pure def topWord(x: int, y: int, wb: int): int = range(0, 40).foldl(0, (k, i) => if (x / 2^(wb * i) > 0 or y / 2^(wb * i) > 0) i else k)
  pure def enterInner(s: Jc): Jc = {
    val k = topWord(s.n, s.d, s.wb)
    val W = 2^s.wb
    val H = 2^(s.wb / 2)
    val x = s.n / W^k
    val y = s.d / W^k
    val z = s.wb - maxI(bitlen(x), bitlen(y))
    def hi(v) = ((v * 2^z) / H) * H
    { ...s, a: if (k == 0) s.n else hi(x) + s.n % H, b: if (k == 0) s.d else hi(y) + s.d % H,
      u: (1, 0), v: (0, 1), i: inner(s), fresh: k == 0 }
  }
  pure def innerStep(s: Jc): Jc =
    if (s.a % 2 == 1) {
      val q = if (s.a < s.b) { ...s, a: s.b, b: s.a, u: s.v, v: s.u, t: xorB(s.t, if (bit1(s.a) == 1 and bit1(s.b) == 1) 2 else 0) } else s
      { ...q, a: (q.a - q.b) / 2, u: (q.u._1 - q.v._1, q.u._2 - q.v._2), v: (2 * q.v._1, 2 * q.v._2), i: q.i - 1,
        t: xorB(q.t, if (q.b % 8 == 3 or q.b % 8 == 5) 2 else 0) }
    } else {
      val z = minI(s.i, if (s.a == 0) s.i else tz(s.a, s.i))
      { ...s, a: s.a / 2^z, v: (s.v._1 * 2^z, s.v._2 * 2^z), i: s.i - z,
        t: if (z % 2 == 1 and (s.b % 8 == 3 or s.b % 8 == 5)) xorB(s.t, 2) else s.t }
    }
  // exact values behind the approximations
  pure def exact(s: Jc, c: (int, int)): int = (c._1 * s.n + c._2 * s.d) / 2^(inner(s) - s.i)
  pure def exactDiv(s: Jc): bool = (s.u._1 * s.n + s.u._2 * s.d) % 2^(inner(s) - s.i) == 0 and (s.v._1 * s.n + s.v._2 * s.d) % 2^(inner(s) - s.i) == 0
  pure def leaveInner(s: Jc): Jc = {
    val n = exact(s, s.u)
    val d = exact(s, s.v)
    if (n < 0) { ...s, n: -n, d: d, t: xorB(s.t, if (bit1(d) == 1) 2 else 0), u: (1, 0), v: (0, 1), i: inner(s), outer: s.outer + 1 }
    else { ...s, n: n, d: absI(d), u: (1, 0), v: (0, 1), i: inner(s), outer: s.outer + 1 }
  }
  pure def jacAbs(x: int, y: int): int = jacobi(pmod(x, absI(y)), absI(y))
  pure def sg(t: int): int = if ((t / 2) % 2 == 1) -1 else 1
  pure def jacOp(s: Jc): Op =
    { o: "jac", t: "gen", a: [maxI(1, (bitlen(maxI(s.n0, s.d0)) + 31 + 63) / 64), s.n0, s.d0], e: [jacobi(s.n0 % s.d0, s.d0)] }
  def okJac(s: Jc): bool = {
    val x = exact(s, s.u)
    val y = exact(s, s.v)
    and {
      exactDiv(s),
      y % 2 != 0,
      // never both negative: what makes reciprocity applicable and the sign handling complete
      not(x < 0 and y < 0),
      absI(x) <= maxI(s.n, s.d), absI(y) <= maxI(s.n, s.d),
      // congruent modulo 8 while the symbol is being tracked
      (s.i > 0).implies(pmod(x - s.a, 8) == 0 and pmod(y - s.b, 8) == 0),
      absI(s.u._1) + absI(s.u._2) <= 2^inner(s), absI(s.v._1) + absI(s.v._2) <= 2^inner(s),
      // the tracked symbol
      jacobi(s.n0 % s.d0, s.d0) == sg(s.t) * jacAbs(x, y),
      s.outer <= 4 * bitlen(maxI(s.n0, s.d0)) + 8
    }
  }

  // ------------------------------------------------------------------ transitions
  pure val NOBY = { w: 6, M: 3, A: 1, x: 1, delta: 1, f: 3, g: 1, d: 0, e: 1, steps: 0, fl: 0, gl: 0, t: ID2, jumps: 0 }
  pure val NOJC = { wb: 8, lim: 8, n0: 1, d0: 1, n: 1, d: 1, t: 0, a: 0, b: 0, u: (1, 0), v: (0, 1), i: 2, fresh: false, outer: 0 }
  // runs of zeros and ones, multiples and neighbours of the other number, shared factors
  pure def num(r: int, bits: int, other: int): int = {
    val m = (r / 2^180) % 9
    val k = (r / 2^190) % bits
    val v = (r / 2^210) % 2^bits
    (if (m <= 2) v
    else if (m == 3) v % 2^(k + 1)
    else if (m == 4) 2^k + v % 2
    else if (m == 5) 2^bits - 1 - (v % 5)
    else if (m == 6) other + 2 * (v % 5)
    else if (m == 7) other * (v % 7) + v % 3
    else (v / 2^k) * 2^k + v % 8) % 2^bits
  }
  pure def mkBy(r: int, w: int, bits: int): By = {
    val M0 = 2 * (num(r, bits - 1, 3)) + 1
    val x0 = num(nxt(r), bits, M0)
    val c = (r / 2^620) % 4
    val k = 2 * ((r / 2^630) % 2^(bits / 2)) + 1
    val M = if (c == 0 and M0 * k < 2^bits) M0 * k else M0
    val x = if (c == 0 and x0 * k < 2^bits) x0 * k else x0
    val A = if ((r / 2^640) % 2 == 0) 1 % M else (nxt(r) / 2^170) % M
    { w: w, M: M, A: A, x: x, delta: 1, f: M, g: x, d: 0, e: A, steps: 0, fl: 0, gl: 0, t: ID2, jumps: 0 }
  }
  pure def mkJac(r: int, wb: int, bits: int): Jc = {
    val d0 = 2 * num(r, bits - 1, 5) + 1
    val n0 = num(nxt(r), bits, d0)
    val c = (r / 2^620) % 4
    val k = 2 * ((r / 2^630) % 2^(bits / 2)) + 1
    val d = if (c == 0 and d0 * k < 2^bits) d0 * k else d0
    val n = if (c == 0 and n0 * k < 2^bits) n0 * k else n0
    { wb: wb, lim: bits, n0: n, d0: d, n: n, d: d, t: 0, a: 0, b: 0, u: (1, 0), v: (0, 1), i: wb / 2 - 2, fresh: false, outer: 0 }
  }
  pure val WBS = [6, 7, 8, 10, 16, 62]
  pure val WJS = [8, 10, 12, 16, 64]
  action startBy = {
    nondet r = 0.to(RM - 1).oneOf()
    val w = WBS[(r / 2^650) % 6]
    val s = mkBy(r, w, 2 + (r / 2^660) % (if (w == 62) 400 else 5 * w))
    all { mode' = 0, by' = s, jc' = NOJC, log' = [] }
  }
  action startJac = {
    nondet r = 0.to(RM - 1).oneOf()
    val w = WJS[(r / 2^650) % 5]
    val s = mkJac(r, w, 2 + (r / 2^660) % (if (w == 64) 400 else 5 * w))
    all { mode' = 1, by' = NOBY, jc' = enterInner(s), log' = [] }
  }
  action init = any { startBy, startJac }
  action initBy = startBy
  action initJac = startJac
  action stepBy = all {
    mode == 0,
    if (by.steps == 0)
      (if (by.g == 0) all { mode' = 2, by' = by, jc' = jc, log' = [byOp(by)] }
       else all { mode' = 0, by' = enterJump(by), jc' = jc, log' = [] })
    else {
      val s = batchStep(by)
      all { mode' = 0, by' = if (s.steps == 0) leaveJump({ ...s, f: by.f, g: by.g }) else s, jc' = jc, log' = [] }
    }
  }
  action stepJac = all {
    mode == 1,
    // one word left (the short routine, exact), or n has become zero: finished
    if (jc.fresh and jc.i == inner(jc) or jc.n == 0) all { mode' = 2, by' = by, jc' = jc, log' = [jacOp(jc)] }
    else if (jc.i == 0) all { mode' = 1, by' = by, jc' = enterInner(leaveInner(jc)), log' = [] }
    else all { mode' = 1, by' = by, jc' = innerStep(jc), log' = [] }
  }
  action step = any { stepBy, stepJac, all { mode == 2, any { startBy, startJac } } }
  val ok = and {
    (mode == 0).implies(okBy(by)),
    (mode == 0 and by.steps != 0).implies(by.steps > 0 and by.steps <= by.w),
    (mode == 2 and log[0].o == "byinv").implies(doneBy(by)),
    (mode == 1).implies(okJac(jc)),
    (mode == 2 and log[0].o == "jac" and jc.n == 0).implies((if (jc.d == 1) sg(jc.t) else 0) == log[0].e[0])
  }
}
