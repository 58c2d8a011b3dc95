// M01: sums of scalar multiples.  The specification's view of an input is a list of terms
// (s, j, k, z): scalar s times the base  z * (A_j + k*D)  with z in {0 (identity), 1, -1},
// over a few atoms A_0.. and a difference point D (any curve points, in or out of the subgroup).
// The expected sum is  sum_j W_j A_j + V D  with integer weights.
module m01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var log: List[Op]
  // weights of the terms of the last operation, and its terms (specification-level check)
  pure val NA = 3

  type Term = { s: int, j: int, k: int, z: int }
  type Acc = { w: List[int], v: int }
  pure val ACC0: Acc = { w: [0, 0, 0], v: 0 }
  pure def acct(a: Acc, t: Term): Acc =
    if (t.z == 0) a else {
      val sg = t.s * t.z
      { w: a.w.replaceAt(t.j, a.w[t.j] + sg), v: a.v + sg * t.k }
    }
  pure def smulz(C: Curve, n: int, P: Pt): Pt = if (n < 0) cneg(C, smul(C, -n, P)) else smul(C, n, P)
  pure def total(C: Curve, A: List[Pt], D: Pt, a: Acc): Pt =
    range(0, NA).foldl(smulz(C, a.v, D), (p, j) => cadd(C, p, smulz(C, a.w[j], A[j])))

  pure def pnt(P: Pt): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, 1, 0, if (P.inf) 1 else 0]

  // scalars: boundary values and patterns that provoke carries of a windowed signed-digit recoding
  pure def gensc(r: int, C: Curve): int = {
    val m = (r / 2^660) % 12
    val n = C.S.nb
    val a = (r / 2^600) % n
    val b = (r / 2^612) % n
    val c = 1 + (r / 2^624) % 14
    if (m == 0) (r / 2^600) % 40
    else if (m == 1) C.r - 1 - (r / 2^600) % 20
    else if (m == 2) (2^n - 1 - (2^a - 1)) % C.r
    else if (m == 3) (2^a + 2^b) % C.r
    else if (m == 4) ((2^a - 1) * 2^b) % C.r
    else if (m == 5) {
      // the same c-bit digit (0, 1, half, half+1, all ones) repeated
      val q = (r / 2^640) % 5
      val dg = if (q == 0) 1 else if (q == 1) 2^(c - 1) else if (q == 2) 2^(c - 1) + 1 else if (q == 3) 2^c - 1 else 2^c - 2
      (dg * ((2^(c * (1 + a / c)) - 1) / (2^c - 1))) % C.r
    }
    else if (m == 6) (2^a - 1) % C.r
    else if (m == 7) (r / 2^500) % 2^(8 * (1 + b / 8)) % C.r
    else genv(r, C.S)
  }

  // ---- inputs
  // atoms and difference: generic, equal, opposite, chained, the identity
  pure def atoms(r: int, C: Curve): { a: List[Pt], d: Pt } = {
    val r2 = nxt(r)
    val r3 = nxt(r2)
    val P = genPt(r2, C)
    val m = (r / 2^200) % 6
    val Q = if (m == 0) cneg(C, P) else if (m == 1) P else if (m == 2) cadd(C, P, P) else C.g
    val R = if ((r / 2^210) % 3 == 0) INF else genPt(r3, C)
    val k = (r / 2^220) % 6
    val D = if (k == 0) INF else if (k == 1) P else if (k == 2) cneg(C, P) else if (k == 3) cneg(C, Q) else genPt(nxt(r3), C)
    { a: [P, Q, R], d: D }
  }
  pure def hdr(C: Curve, A: List[Pt], D: Pt): List[int] =
    pnt(A[0]).concat(pnt(A[1])).concat(pnt(A[2])).concat(pnt(D))

  // explicit term lists; ds: how many different scalars, kmax: how many multiples of D, zs: signs
  pure def terms(r: int, C: Curve, n: int, ds: int, kmax: int, zs: int): List[Term] = {
    val pool = range(0, ds).foldl(([], r), (s, i) => (s._1.append(gensc(s._2, C)), nxt(s._2)))._1
    range(0, n).foldl(([], nxt(r + 1)), (s, i) => {
      val q = s._2
      val z = (q / 2^640) % 8
      (s._1.append({ s: pool[(q / 2^600) % ds], j: (q / 2^610) % NA, k: (q / 2^620) % kmax,
                     z: if (zs == 0) 1 else if (z == 0) 0 else if (z < 4 or zs == 1) 1 else -1 }), nxt(q))
    })._1
  }
  pure def small(r: int, C: Curve): Op = {
    val m = (r / 2^300) % 16
    val n = if (m < 6) (r / 2^310) % 9 else if (m < 10) (r / 2^310) % 40 else if (m < 14) (r / 2^310) % 140 else (r / 2^310) % 300
    val x = atoms(r, C)
    val ts = terms(nxt(r + 7), C, n, 1 + (r / 2^330) % 12, 1 + (r / 2^340) % 9, (r / 2^350) % 3)
    val e = total(C, x.a, x.d, ts.foldl(ACC0, acct))
    val flat = ts.foldl([], (l, t) => l.concat([t.s, t.j, t.k, t.z + 1]))
    { o: "msm", t: C.nm, a: hdr(C, x.a, x.d).concat([workers(r), n]).concat(flat), e: ptl(e) }
  }
  // inputs too long to list: the terms are unfolded from a seed on both sides
  // term i from stream state q:  scalar class c = (q/2^690)%4 under mode md, index fields below
  pure def unfold(q: int, r: int, pool: List[int], md: int, kmax: int, idn: int): Term = {
    val c = (q / 2^690) % 4
    { s: if (md == 0) (q / 2^160) % r
         else if (md == 1) pool[(q / 2^680) % 6]
         else if (md == 2) (q / 2^660) % 2^16
         else if (c == 0) pool[(q / 2^680) % 6] else if (c == 1) r - 1 - (q / 2^660) % 2^12 else if (c == 2) (q / 2^660) % 3 else (q / 2^160) % r,
      j: (q / 2^650) % NA, k: (q / 2^630) % kmax,
      z: if ((q / 2^620) % 64 < idn) 0 else if ((q / 2^615) % 2 == 0) 1 else -1 }
  }
  pure def large(r: int, C: Curve, n: int): Op = {
    val x = atoms(r, C)
    val pool = range(0, 6).foldl(([], nxt(r + 3)), (s, i) => (s._1.append(gensc(s._2, C)), nxt(s._2)))._1
    val md = (r / 2^300) % 4
    val km = (r / 2^310) % 4
    val kmax = if (km == 0) 1 else if (km == 1) 3 else if (km == 2) 700 else 9000
    val idn = if ((r / 2^320) % 2 == 0) 0 else 3
    val q0 = nxt(r + 11)
    val res = range(0, n).foldl((ACC0, q0), (s, i) => (acct(s._1, unfold(s._2, C.r, pool, md, kmax, idn)), nxt(s._2)))._1
    { o: "msml", t: C.nm, a: hdr(C, x.a, x.d).concat([workers(r), n, q0, md, kmax, idn]).concat(pool),
      e: ptl(total(C, x.a, x.d, res)) }
  }
  // inputs of millions of terms: a block of m terms (unfolded as above) repeated up to n terms
  pure def tiled(r: int, C: Curve, n: int, m: int): Op = {
    val x = atoms(r, C)
    val pool = range(0, 6).foldl(([], nxt(r + 3)), (s, i) => (s._1.append(gensc(s._2, C)), nxt(s._2)))._1
    val md = if ((r / 2^300) % 2 == 0) 0 else 3
    val idn = if ((r / 2^320) % 2 == 0) 0 else 3
    val kmax = if ((r / 2^310) % 2 == 0) 300 else 3000
    val q0 = nxt(r + 11)
    val part = n % m
    val res = range(0, m).foldl((ACC0, ACC0, q0), (s, i) => {
      val t = unfold(s._3, C.r, pool, md, kmax, idn)
      (acct(s._1, t), if (i < part) acct(s._2, t) else s._2, nxt(s._3))
    })
    val w = { w: range(0, NA).foldl([], (l, j) => l.append((n / m) * res._1.w[j] + res._2.w[j])), v: (n / m) * res._1.v + res._2.v }
    { o: "msmt", t: C.nm, a: hdr(C, x.a, x.d).concat([8, n, q0, md, kmax, idn]).concat(pool).concat([m]),
      e: ptl(total(C, x.a, x.d, w)) }
  }
  pure def mismatch(r: int, C: Curve): Op = {
    val n = (r / 2^300) % 40
    val m0 = if ((r / 2^320) % 3 == 0) n + 1 else if ((r / 2^320) % 3 == 1) (r / 2^310) % 50 else 0
    { o: "mis", t: C.nm, a: [n, if (m0 == n) n + 2 else m0], e: [] }
  }
  pure def one(r: int, C: Curve, i: int): Op =
    if (i == 3) mismatch(r, C) else small(r, C)
  pure val BATCH = 4
  pure def batch(r: int, C: Curve): List[Op] =
    range(0, BATCH).foldl(([], r), (s, i) => (s._1.append(one(nxt(s._2), C, i)), nxt(nxt(s._2))))._1

  pure def opEmpty(C: Curve): Op = { o: "msm", t: C.nm, a: hdr(C, [INF, INF, INF], INF).concat([3, 0]), e: ptl(INF) }
  action at(f: int): bool = all { cid' = f, log' = [opEmpty(CURVES[f])] }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]) }
  }
  // long inputs: lengths around the threshold of the batched path, and above
  action stepL = {
    nondet s = 0.to(RM - 1).oneOf()
    val m = (s / 2^400) % 4
    val n = if (m == 0) 8104 + (s / 2^410) % 8 else if (m == 1) 8104 - (s / 2^410) % 3 else 8200 + (s / 2^410) % 5000
    all { cid' = cid, log' = [large(s, CURVES[cid], n)] }
  }
  action stepXL = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = [large(s, CURVES[cid], 22000 + (s / 2^410) % 9000)] }
  }
  // millions of terms, one window width each (msm_best: c = ceil(ln n)).  Width 15 divides the bit
  // length 255 of three scalar fields: the top window then holds the last carry alone.
  action tile(lo: int, hi: int): bool = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = [tiled(s, CURVES[cid], lo + (s / 2^410) % (hi - lo), 2500 + (s / 2^440) % 1500)] }
  }
  action step15 = tile(1202700, 1300000)
  action step12 = tile(59900, 162000)
  action step13 = tile(162800, 400000)
  action step14 = tile(442500, 700000)
  // the sum over the list = the sum of the two halves (small operations)
  val okM01 = log.length() > 0 and log.select(o => o.o == "msm").foldl(true, (ok, o) => {
    val C = CURVES[cid]
    val e = if (o.e[0] == 1) INF else aff((o.e[1], o.e[2]), (o.e[3], o.e[4]))
    ok and onc(C, e)
  })

  // ---- the algorithm's design, model-checked on small numbers --------------------------------
  // Signed windows: digit w of s for width c is  d = ((s*2) >> (c*w)) mod 2^(c+1), mapped to
  // ceil(d/2) (top bit clear) or ceil(d/2) - 2^c.  Their weighted sum is s again, for as many
  // windows as cover one bit more than s; every digit fits a table of 2^(c-1) buckets.
  pure def digit(s: int, c: int, w: int): int = {
    val d = ((2 * s) / 2^(c * w)) % 2^(c + 1)
    if (d < 2^c) (d + 1) / 2 else (d + 1) / 2 - 2^c
  }
  pure def recoded(s: int, c: int, nw: int): int = range(0, nw).foldl(0, (a, w) => a + digit(s, c, w) * 2^(c * w))
  // summation by parts over buckets b_1..b_m gives sum k*b_k
  pure def parts(b: List[int]): int =
    range(0, b.length()).foldl((0, 0), (st, i) => {
      val rs = st._1 + b[b.length() - 1 - i]
      (rs, st._2 + rs)
    })._2
  run recodingTest = all {
    assert(1.to(5).forall(c => 0.to(255).forall(s =>
      recoded(s, c, 8 / c + 1) == s and 0.to(8 / c).forall(w => digit(s, c, w) <= 2^(c - 1) and digit(s, c, w) >= -(2^(c - 1)))))),
    assert(CURVES.foldl(true, (ok, C) => ok and Set(1, 3, 5, 7, 10, 11, 14, 20).forall(c =>
      Set(0, 1, C.r - 1, C.r / 2, 2^(C.S.nb - 1), 2^(C.S.nb - 1) - 1).forall(s => recoded(s, c, C.S.nb / c + 1) == s)))),
    assert(parts([5, 7, 11]) == 5 + 14 + 33),
  }
}
