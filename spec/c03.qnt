// C03: projective, Jacobian and affine forms of one point; equality; curve membership.
module c03 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var log: List[Op]
  pure val BATCH = 8

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 4 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def pin(P: Pt, l: P2): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0]
  pure def c6(x: P2, y: P2, z: P2): List[int] = [x._1, x._2, y._1, y._2, z._1, z._2]
  pure def sq(C: Curve, x: P2): P2 = fm(C, x, x)

  // homogeneous and weighted curve equations
  pure def isProj(C: Curve, x: P2, y: P2, z: P2): bool = {
    val zz = sq(C, z)
    and {
      fm(C, z, sq(C, y)) == fa(C, fm(C, fa(C, sq(C, x), fm(C, C.a, zz)), x), fm(C, C.b, fm(C, zz, z))),
      or { x != (0, 0), y != (0, 0), z != (0, 0) }
    }
  }
  pure def isJac(C: Curve, x: P2, y: P2, z: P2): bool = {
    val zz = sq(C, z)
    val z4 = sq(C, zz)
    sq(C, y) == fa(C, fm(C, fa(C, sq(C, x), fm(C, C.a, z4)), x), fm(C, C.b, fm(C, z4, zz)))
  }
  pure def bump(r: int, C: Curve, x: P2): P2 = {
    val m = (r / 2^640) % 4
    if (m == 0) fa(C, x, (1, 0)) else if (m == 1) n2(C.p, x)
    else if (m == 2) (if (C.ext) (x._2, x._1) else genx(r, C)) else genx(r, C)
  }

  pure def oneOp(g0: G, C: Curve): G = {
    val r = nxt(g0.r)
    val r2 = nxt(r)
    val r3 = nxt(r2)
    val r4 = nxt(nxt(r3))
    val g = { ...g0, r: nxt(r4) }
    val k = (r / 2^200) % 26
    val f = (r / 2^240) % 12
    val P = genPt(r2, C)
    val l = lam(r3, C)
    if (k < 4) out(g, "conv", C.nm, pin(P, l), ptl(P))
    else if (k < 7) {
      // batch normalisation: n points, a pattern of identities, different scalings
      val n = if ((r / 2^270) % 8 == 0) listLen(r) else (r / 2^250) % 7
      val pat = (r / 2^260) % 2^7
      val s = range(0, n).foldl((r4, [], []), (t, i) => {
        val Q = if ((pat / 2^(i % 7)) % 2 == 1) INF else if (i % 2 == 0 or i > 8) P else genPt(nxt(t._1), C)
        val z = lam(nxt(nxt(t._1)), C)
        (nxt(nxt(nxt(t._1))), t._2.concat(pin(Q, z)), t._3.concat(ptl(Q)))
      })
      out({ ...g, r: s._1 }, "batch", C.nm, [n].concat(s._2), s._3)
    }
    else if (k < 10) {
      // two representations: the same point, its negative, a point with the same x or y, anything
      val Q = if (f < 3) P else if (f < 5) cneg(C, P) else if (f == 5) cadd(C, P, C.g) else if (f == 6) INF
              else if (f == 7 and C.a == (0, 0) and not(P.inf)) aff(fk(C, powmod(C.F.g, (C.p - 1) / 3, C.p), P.x), P.y)
              else genPt(r4, C)
      out(g, "eq", C.nm, pin(P, l).concat(pin(Q, lam(nxt(r4), C))), [b2i(P == Q), b2i(P.inf), b2i(Q.inf)])
    }
    else if (k < 14) {
      // Jacobian coordinates (x l^2, y l^3, l), possibly corrupted; z = 0 only as the canonical identity
      val l2 = sq(C, l)
      val l3 = fm(C, l2, l)
      val j = if (P.inf) (sq(C, l), fm(C, sq(C, l), l), (0, 0)) else (fm(C, P.x, l2), fm(C, P.y, l3), l)
      val q = if (P.inf or f < 5) j
              else if (f == 5) (bump(r4, C, j._1), j._2, j._3)
              else if (f == 6) (j._1, bump(r4, C, j._2), j._3)
              else if (f == 7) (j._1, j._2, bump(r4, C, j._3))
              else if (f == 8) (fm(C, P.x, l), fm(C, P.y, l), l)
              else if (f == 9) (fm(C, P.x, l3), fm(C, P.y, l2), l)
              else (genx(r3, C), genx(r4, C), (1, 0))
      val z0 = q._3 == (0, 0)
      if (z0 and not(P.inf)) g
      else {
        val ok = isJac(C, q._1, q._2, q._3)
        val R = if (z0 or not(ok)) INF else {
          val i = finv(C, q._3)
          val i2v = sq(C, i)
          aff(fm(C, q._1, i2v), fm(C, q._2, fm(C, i2v, i)))
        }
        out(g, "jac", C.nm, c6(q._1, q._2, q._3), [b2i(ok)].concat(ptl(R)))
      }
    }
    else if (k < 19) {
      // affine coordinates on and off the curve
      val q = if (P.inf) ((0, 0), (0, 0))
              else if (f < 4) (P.x, P.y)
              else if (f == 4) (bump(r4, C, P.x), P.y)
              else if (f == 5) (P.x, bump(r4, C, P.y))
              else if (f == 6) (P.y, P.x)
              else if (f == 7) ((0, 0), P.y)
              else if (f == 8) (P.x, (0, 0))
              else if (f == 9) (fm(C, P.x, l), fm(C, P.y, l))
              else if (f == 10) (P.x, if (C.ext) (P.y._1, (C.p - P.y._2) % C.p) else fa(C, P.y, (1, 0)))
              else (genx(r3, C), genx(r4, C))
      val ok = sq(C, q._2) == rhs(C, q._1) or q == ((0, 0), (0, 0))
      out(g, "xy", C.nm, [q._1._1, q._1._2, q._2._1, q._2._2], [b2i(ok), b2i(q == ((0, 0), (0, 0)))])
    }
    else if (k < 25) {
      // projective triples on and off the curve
      val x = fm(C, P.x, l)
      val y = fm(C, P.y, l)
      val q = if (f == 0) ((0, 0), l, (0, 0))
              else if (f == 1) (l, y, (0, 0))
              else if (f == 2) ((0, 0), (0, 0), (0, 0))
              else if (f == 3) (x, (0, 0), (0, 0))
              else if (f == 4) (bump(r4, C, x), y, l)
              else if (f == 5) (x, bump(r4, C, y), l)
              else if (f == 6) (x, y, bump(r4, C, l))
              else if (f == 7) (fm(C, P.x, sq(C, l)), fm(C, y, sq(C, l)), l)
              else if (P.inf) ((0, 0), l, (0, 0))
              else (x, y, l)
      out(g, "onc", C.nm, c6(q._1, q._2, q._3), [b2i(isProj(C, q._1, q._2, q._3))])
    }
    else out(g, "const", C.nm, [], [C.a._1, C.a._2, C.b._1, C.b._2].concat(ptl(C.g)))
  }
  pure def batch(r: int, C: Curve): G =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, C))
  // one curve per behaviour: any (init), or a given one
  action at(f: int): bool = {
    val C = CURVES[f]
    all { cid' = f, log' = [{ o: "const", t: C.nm, a: [], e: [C.a._1, C.a._2, C.b._1, C.b._2].concat(ptl(C.g)) },
                            { o: "batch", t: C.nm, a: [0], e: [] }] }
  }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]).ops }
  }
  // the homogeneous equation of a scaled point is the affine equation
  val okC03 = {
    val C = CURVES[cid]
    log.foldl(true, (ok, o) => ok and (o.o != "conv" or {
      val P = if (o.e[0] == 1) INF else aff((o.e[1], o.e[2]), (o.e[3], o.e[4]))
      val l = (o.a[4], o.a[5])
      onc(C, P) and (P.inf or isProj(C, fm(C, P.x, l), fm(C, P.y, l), l))
    }))
  }
}
