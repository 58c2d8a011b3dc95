// X02: quadratic extension fields: squares, order, encodings.
module x02 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"

  var fid: int
  var log: List[Op]
  pure val BATCH = 14
  pure val QS = [TOWERS[0], TOWERS[3], TOWERS[6]]
  pure val UNI = [96, 128, 128]

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def rev(b: int, n: int): int = range(0, n).foldl((0, b), (s, i) => (s._1 * 256 + s._2 % 256, s._2 / 256))._1

  // a coefficient on either side of the acceptance boundary
  pure def gbytes(r: int, F: Field): int = {
    val p = F.p
    val top = 2^(64 * F.nl)
    val m = (r / 2^180) % 10
    val d = (r / 2^190) % 4
    val b =
      if (m == 0) p + d
      else if (m == 1) p - 1 - d
      else if (m == 2) top - 1 - d
      else if (m == 3) genv(r, F) + p * ((r / 2^230) % 4 + 1)
      else if (m == 4) patt(r, F.nl, p)
      else if (m == 5) p + 2^((r / 2^200) % (64 * F.nl))
      else genv(r, F)
    b % top
  }
  pure def lexl(p: int, x: P2): bool =
    if (x._2 != 0) x._2 > p - x._2 else if (x._1 != 0) x._1 > p - x._1 else false

  pure def oneOp(g0: G, q: int): G = {
    val T = QS[q]
    val F = T.F
    val p = T.p
    val be = T.beta
    val n = 8 * F.nl
    val r = nxt(g0.r)
    val r2 = nxt(nxt(r))
    val r3 = nxt(nxt(r2))
    val g = { ...g0, r: nxt(r3) }
    val k = (r / 2^165) % 20
    val x = gen2(r, F)
    val y = gen2(r2, F)
    val t = T.nm
    if (k < 3) { val l = sq2(p, be, x) out(g, "sqrt", t, [x._1, x._2, p, be], [b2i(l >= 0), l]) }
    else if (k < 7) { val s = m2(p, be, x, x) out(g, "sqrt", t, [s._1, s._2, p, be], [1, if (x == (0, 0)) 0 else 1]) }
    else if (k == 7) {
      // non-squares: a square times a fixed non-square
      val ns = range(1, 12).foldl((0, 0), (v, c) => if (v != (0, 0)) v else if (sq2(p, be, (c, 1)) == -1) (c, 1) else v)
      val s = m2(p, be, m2(p, be, x, x), ns)
      out(g, "sqrt", t, [s._1, s._2, p, be], [b2i(s == (0, 0)), if (s == (0, 0)) 0 else -1])
    }
    else if (k == 8) { out(g, "sqrt", t, [0, 0, p, be], [1, 0]) }
    else if (k == 9) {
      // small-order elements times squares
      val e2 = (p * p - 1)
      val w = pow2(p, be, (3, 1), range(0, 40).foldl(e2, (m, i) => if (m % 2 == 0) m / 2 else m) * 2^((r / 2^170) % 34))
      val s = m2(p, be, w, if ((r / 2^180) % 3 == 0) (1, 0) else m2(p, be, y, y))
      val l = sq2(p, be, s)
      out(g, "sqrt", t, [s._1, s._2, p, be], [b2i(l >= 0), l])
    }
    else if (k < 13) {
      val b0 = if (F.be) rev(x._1, n) else x._1
      val b1 = if (F.be) rev(x._2, n) else x._2
      val s = 2^(8 * n)
      out(g, "enc", t, [x._1, x._2], [x._1 + s * x._2, b0 + s * b1, raw(F, x._1) + s * raw(F, x._2), if (x._1 != 0) x._1 % 2 else x._2 % 2, b2i(lexl(p, x))])
    }
    else if (k < 17) {
      val b = gbytes(r2, F)
      val c = gbytes(r3, F)
      val rb = if (F.be) rev(b, n) else b
      val rc = if (F.be) rev(c, n) else c
      // [bytes c0, bytes c1] -> repr: accept, values; bytes: accept, values; raw: accept, values
      out(g, "dec", t, [b, c], [b2i(b < p and c < p), b % p, c % p, b2i(rb < p and rc < p), rb % p, rc % p,
          (b % p * F.Ri) % p, (c % p * F.Ri) % p])
    }
    else if (k == 17) {
      val c = (r / 2^170) % 6
      val y1 = if (c == 0) x else if (c == 1) n2(p, x) else if (c == 2) (y._1, x._2) else if (c == 3) (x._1, y._2) else y
      out(g, "cmp", t, [x._1, x._2, y1._1, y1._2],
        [if (x._2 < y1._2) -1 else if (x._2 > y1._2) 1 else if (x._1 < y1._1) -1 else if (x._1 > y1._1) 1 else 0])
    }
    else if (k == 18) {
      val h = UNI[q] / 2
      val b0 = ((r2 / 2^10) * 2^300 + r3 / 2^160 + (if ((r / 2^180) % 3 == 0) p * 2^((r / 2^190) % 20) else 0)) % 2^(8 * h)
      val b1 = if ((r / 2^185) % 3 == 0) 2^(8 * h) - 1 - (r3 / 2^170) % 5 else ((r3 / 2^20) * 2^250 + r / 2^150) % 2^(8 * h)
      out(g, "uniform", t, [UNI[q], b0 + b1 * 2^(8 * h)], [b1 % p, b0 % p])
    }
    else {
      val v = if ((r / 2^180) % 3 == 0) 2^64 - 1 - (r / 2^190) % 3 else (r / 2^190) % 2^((r / 2^182) % 65)
      out(g, "u64", t, [v], [v % p, 0])
    }
  }
  pure def batch(r: int, q: int): List[Op] =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, q)).ops

  // every length of raw input and stream, once per behaviour
  pure def lens(q: int): List[Op] = {
    val n = 8 * QS[q].F.nl
    [0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 4 * n].foldl([], (l, k) =>
      l.append({ o: "len", t: QS[q].nm, a: [k], e: [b2i(k == 2 * n), b2i(k >= 2 * n)] }))
  }
  action init = {
    nondet f = 0.to(2).oneOf()
    all { fid' = f, log' = lens(f).append({ o: "const", t: QS[f].nm, a: [QS[f].p], e: [powmod(2, QS[f].p - 2, QS[f].p), 2 * 8 * QS[f].F.nl] }) }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    nondet f = 0.to(2).oneOf()
    all { fid' = f, log' = batch(s, f) }
  }
  // exactly one of x, -x is largest unless x = 0; squares of the spec are squares
  val invX02 = log.foldl(true, (b, o) => b and (o.o != "enc" or {
      val p = QS[fid].p
      val x = (o.a[0], o.a[1])
      if (x == (0, 0)) not(lexl(p, x)) else lexl(p, x) != lexl(p, n2(p, x)) }))
}
