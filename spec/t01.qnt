// T01: the discrete Fourier transform by definition, over the scalar field of every curve and over
// the points of the curve:  out_j = sum_i a_i w^(ij),  in natural order.
module t01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var log: List[Op]

  pure def twoAdic(p: int): int = range(0, 40).foldl((0, p - 1), (s, i) => if (s._2 % 2 == 0) (s._1 + 1, s._2 / 2) else s)._1
  // a primitive 2^k-th root of unity: an odd power of g^((p-1)/2^k)
  pure def rootOf(C: Curve, k: int, r: int): int =
    powmod(powmod(C.S.g, (C.r - 1) / 2^k, C.r), 1 + 2 * ((r / 2^400) % 2^(k + 1)), C.r)

  pure def eval(p: int, a: List[int], x: int): int =
    range(0, a.length()).foldl(0, (s, i) => (s * x + a[a.length() - 1 - i]) % p)
  // all evaluations at 1, w, w^2, ...
  pure def dft(p: int, a: List[int], w: int): List[int] =
    a.foldl(([], 1), (s, z) => (s._1.append(eval(p, a, s._2)), (s._2 * w) % p))._1
  // batch of inverses of the non-zero elements of a list (used to sum 1/(c w^i - 1))
  pure def invs(p: int, d: List[int]): List[int] = {
    val pre = d.foldl(([], 1), (s, x) => (s._1.append(s._2), (s._2 * x) % p))
    val n = d.length()
    range(0, n).foldl(([], powmod(pre._2, p - 2, p)), (s, i) => {
      val k = n - 1 - i
      (s._1.append((s._2 * pre._1[k]) % p), (s._2 * d[k]) % p)
    })._1
  }
  // sum_j c^j out_j without computing the outputs:  (c^n - 1) * sum_i a_i / (c w^i - 1),
  // for c outside the group of w
  pure def functional(p: int, a: List[int], w: int, c: int): int = {
    val n = a.length()
    val d = a.foldl(([], c), (s, z) => (s._1.append((s._2 + p - 1) % p), (s._2 * w) % p))._1
    val iv = invs(p, d)
    val t = range(0, n).foldl(0, (s, i) => (s + a[i] * iv[n - 1 - i]) % p)
    (t * ((powmod(c, n, p) + p - 1) % p)) % p
  }

  pure def input(r: int, C: Curve, n: int): List[int] = {
    val m = (r / 2^300) % 6
    val k = (r / 2^310) % n
    if (m == 0) range(0, n).foldl([], (l, i) => l.append(if (i == k) 1 else 0))
    else if (m == 1) range(0, n).foldl([], (l, i) => l.append(C.r - 1))
    else range(0, n).foldl(([], nxt(r + 5)), (s, i) => (s._1.append(if (m == 2 and i % 3 != 0) 0 else genv(s._2, C.S)), nxt(s._2)))._1
  }
  pure def small(r: int, C: Curve): Op = {
    val s2 = twoAdic(C.r)
    val k = (r / 2^320) % (1 + if (s2 < 6) s2 else 6)
    val w = rootOf(C, k, nxt(r))
    val a = input(nxt(nxt(r)), C, 2^k)
    { o: "fft", t: C.nm, a: [workers(r), k, w].concat(a), e: dft(C.r, a, w) }
  }
  // element i of a long input
  pure def elem(q: int, p: int, md: int): int =
    if (md == 0) (q / 2^160) % p else if ((q / 2^660) % 4 == 0) p - 1 - (q / 2^640) % 3 else if ((q / 2^660) % 4 == 1) 0 else (q / 2^160) % p
  pure def largeN(r: int, C: Curve, lo: int, hi: int): List[Op] = {
    val s2 = twoAdic(C.r)
    if (s2 < lo) [] else {
      val k = lo + (r / 2^320) % (1 + (if (s2 < hi) s2 else hi) - lo)
      val n = 2^k
      val p = C.r
      val w = rootOf(C, k, nxt(r))
      val q0 = nxt(nxt(r))
      val md = (r / 2^330) % 2
      val a = range(0, n).foldl(([], q0), (s, i) => (s._1.append(elem(s._2, p, md)), nxt(s._2)))._1
      val c = C.S.g
      val j1 = (r / 2^340) % n
      val j2 = (n - 1 - (r / 2^340) % 3)
      [{ o: "fftl", t: C.nm, a: [workers(r), k, w, q0, md, c, j1, j2],
         e: [functional(p, a, w, c), eval(p, a, powmod(w, j1, p)), eval(p, a, powmod(w, j2, p))] }]
    }
  }
  // the recursive step alone: it expects bit-reversed input and every s-th entry of the twiddle table
  pure def bitrev(k: int, i: int): int = range(0, k).foldl((0, i), (s, _) => (2 * s._1 + s._2 % 2, s._2 / 2))._1
  pure def butterfly(r: int, C: Curve): Op = {
    val s2 = twoAdic(C.r)
    val k = 1 + (r / 2^320) % (if (s2 < 6) s2 else 6)
    val t = (r / 2^330) % (1 + if (s2 - k < 3) s2 - k else 3)
    val w = rootOf(C, k + t, nxt(r))
    val a = input(nxt(nxt(r)), C, 2^k)
    val b = range(0, 2^k).foldl([], (l, i) => l.append(a[bitrev(k, i)]))
    { o: "bfly", t: C.nm, a: [workers(r), k, t, w].concat(b), e: dft(C.r, a, powmod(w, 2^t, C.r)) }
  }
  // points a_i = d_i G
  pure def group(r: int, C: Curve): Op = {
    val s2 = twoAdic(C.r)
    val k = (r / 2^320) % (1 + if (s2 < 3) s2 else 3)
    val w = rootOf(C, k, nxt(r))
    val d = input(nxt(nxt(r)), C, 2^k)
    val pts = d.foldl([], (l, x) => { val P = smul(C, x, C.g) l.concat([P.x._1, P.x._2, P.y._1, P.y._2, 1, 0, if (P.inf) 1 else 0]) })
    { o: "fftg", t: C.nm, a: [workers(r), k, w].concat(pts),
      e: dft(C.r, d, w).foldl([], (l, x) => l.concat(ptl(smul(C, x, C.g)))) }
  }
  pure def badLen(r: int, C: Curve): Op = {
    val n = (r / 2^320) % 70
    { o: "fftlen", t: C.nm, a: [1 + (r / 2^360) % 9, n, (r / 2^370) % 6], e: [if (n == 2^((r / 2^370) % 6)) 1 else 0] }
  }
  pure def batch(r: int, C: Curve): List[Op] = {
    val r2 = nxt(nxt(nxt(r)))
    val r3 = nxt(nxt(nxt(r2)))
    val r4 = nxt(nxt(nxt(r3)))
    [small(r, C), small(r2, C), badLen(r3, C)].concat(if ((r / 2^100) % 3 == 0) [group(r4, C)] else if ((r / 2^100) % 3 == 1) [butterfly(r4, C)] else [small(r4, C)])
  }
  pure def one(C: Curve): Op = { o: "fft", t: C.nm, a: [3, 0, 1, 5], e: [5] }
  action at(f: int): bool = all { cid' = f, log' = [one(CURVES[f])] }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]) }
  }
  action stepL = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = largeN(s, CURVES[cid], 5, 12) }
  }
  action stepXL = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = largeN(s, CURVES[cid], 11, 15) }
  }
  // inversion theorem on the small operations: transforming back with w^-1 gives n * a
  val okT01 = log.foldl(true, (ok, o) => ok and (o.o != "fft" or {
    val C = CURVES[cid]
    val n = o.a.length() - 3
    val bk = dft(C.r, o.e, powmod(o.a[2], C.r - 2, C.r))
    range(0, n).foldl(true, (b, i) => b and bk[i] == (n * o.a[i + 3]) % C.r)
  }))
  run functionalTest = {
    // the closed form agrees with the definition, exhaustively chosen small fields
    all {
      assert(Set((17, 2), (17, 4), (17, 13), (97, 33)).forall(q => {
        val p = q._1 val w = q._2
        val n = range(1, 9).foldl(0, (f, i) => if (f != 0) f else if (powmod(w, i, p) == 1) i else 0)
        val a = range(0, n).foldl([], (l, i) => l.append((i * i + 3 * i + 1) % p))
        val o = dft(p, a, w)
        2.to(p - 1).filter(c => powmod(c, n, p) != 1).forall(c => functional(p, a, w, c) == eval(p, o, c))
      })),
    }
  }
}
