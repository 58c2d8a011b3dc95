// E01: splitting a scalar along the endomorphism.  lambda: a primitive cube root of unity modulo
// the group order.  The lattice L = {(x, y): x = lambda*y mod r} is reduced by Euclid's algorithm;
// scalars are placed at and around the corners of its fundamental cell, where the two halves of a
// decomposition are longest and where rounding changes.
module e01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var log: List[Op]
  pure val P_PALLAS = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
  pure val P_VESTA = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
  pure def pasta(p: int): Field = { ...toyF(p), g: 5, nl: 4 }
  pure val EC: List[Curve] = [
    CURVES[0], CURVES[2], CURVES[6], CURVES[7],
    mkCurve("ep", pasta(P_PALLAS), 0, (0, 0), (5, 0), pasta(P_VESTA), (P_PALLAS - 1, 0), (2, 0), 0),
    mkCurve("eq", pasta(P_VESTA), 0, (0, 0), (5, 0), pasta(P_PALLAS), (P_VESTA - 1, 0), (2, 0), 0)
  ]
  // lambda, depending on the choice of the root
  pure def root(C: Curve, w: int): int = { val z = powmod(C.S.g, (C.r - 1) / 3, C.r) if (w == 0) z else (z * z) % C.r }

  // two short vectors of {(x, y): x = lambda y mod r}
  type V2 = (int, int)
  pure def isqrt(n: int): int = range(0, 300).foldl(2^((bitlen(n) + 1) / 2 + 1), (x, i) => { val y = (x + n / x) / 2 if (y < x) y else x })
  pure def basis(r: int, l: int): { a: V2, b: V2 } = {
    // rows (rem, t) with rem = t*l mod r
    val q = range(0, 400).foldl((r, 0, l, 1), (s, i) =>
      if (s._3 * s._3 < r) s else { val k = s._1 / s._3 (s._3, s._4, s._1 - k * s._3, s._2 - k * s._4) })
    // (s3, s4) is the first row below sqrt(r); the second vector is the shorter of the neighbours
    val k2 = q._1 / q._3
    val nx = (q._1 - k2 * q._3, q._2 - k2 * q._4)
    val n1 = q._1 * q._1 + q._2 * q._2
    val n2 = nx._1 * nx._1 + nx._2 * nx._2
    { a: (q._3, q._4), b: if (n1 < n2) (q._1, q._2) else nx }
  }
  pure def absI(x: int): int = if (x < 0) -x else x
  pure def pmod(x: int, r: int): int = ((x % r) + r) % r

  pure def scalar(q: int, C: Curve): int = {
    val l = root(C, (q / 2^600) % 2)
    val m = (q / 2^610) % 8
    if (m == 0) genv(nxt(q), C.S)
    else if (m == 1) (q / 2^500) % 40
    else if (m == 2) C.r - 1 - (q / 2^500) % 40
    else {
      val v = basis(C.r, l)
      // corner (or edge / centre) of the cell, plus a small offset
      val c1 = (q / 2^400) % 5 - 2
      val c2 = (q / 2^404) % 5 - 2
      val dx = (q / 2^420) % 7 - 3
      val dy = (q / 2^424) % 7 - 3
      val x = (c1 * v.a._1 + c2 * v.b._1) / 2 + (if (m == 3) (q / 2^160) % 2^64 else dx)
      val y = (c1 * v.a._2 + c2 * v.b._2) / 2 + (if (m == 4) (q / 2^240) % 2^64 else dy)
      if (m < 7) pmod(x - l * y, C.r)
      else pmod((q / 2^160) % 2^127 - 2^126 - l * ((q / 2^300) % 2^127 - 2^126), C.r)
    }
  }
  pure def one(q: int, C: Curve): Op =
    { o: "glv", t: C.nm, a: [scalar(q, C)], e: [C.r, root(C, 0), root(C, 1)] }
  pure def onPoint(q: int, C: Curve): Op = {
    val k = scalar(q, C)
    val P = genSub(nxt(nxt(q)), C)
    { o: "glvp", t: C.nm, a: [P.x._1, P.x._2, P.y._1, P.y._2, 1, 0, if (P.inf) 1 else 0, k], e: ptl(smul(C, k, P)) }
  }
  pure val BATCH = 40
  pure def batch(q: int, C: Curve, lib: bool): List[Op] = {
    val l = range(0, BATCH).foldl(([], q), (s, i) => (s._1.append(one(s._2, C)), nxt(nxt(s._2))))
    if (lib) l._1.append(onPoint(nxt(l._2), C)) else l._1
  }
  action at(f: int): bool = all { cid' = f, log' = range(0, 3).foldl([], (l, i) => l.append({ o: "glv", t: EC[f].nm, a: [if (i == 2) EC[f].r - 1 else i], e: [EC[f].r, root(EC[f], 0), root(EC[f], 1)] })) }
  action init = { nondet f = 0.to(5).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, EC[cid], cid < 4) }
  }
  val okE01 = log.length() > 0 and log.foldl(true, (ok, o) => ok and (o.o != "glv" or (o.a[0] >= 0 and o.a[0] < o.e[0])))
  // every cell has its corners within 128 bits (so a half-width decomposition exists for every scalar),
  // and both vectors lie in the lattice
  run latticeTest = all {
    assert(range(0, 6).foldl(true, (ok, i) => ok and Set(0, 1).forall(w => {
      val C = EC[i]
      val l = root(C, w)
      val v = basis(C.r, l)
      and {
        (l * l + l + 1) % C.r == 0,
        pmod(v.a._1 - l * v.a._2, C.r) == 0, pmod(v.b._1 - l * v.b._2, C.r) == 0,
        absI(v.a._1 * v.b._2 - v.a._2 * v.b._1) == C.r,
        absI(v.a._1) + absI(v.b._1) < 2^128, absI(v.a._2) + absI(v.b._2) < 2^128
      }
    })))
  }
}
