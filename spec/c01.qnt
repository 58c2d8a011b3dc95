// C01: register machine over the points of every curve.
module c01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var regs: List[Pt]
  var log: List[Op]
  pure val NR = 6
  pure val BATCH = 12

  type G = { r: int, regs: List[Pt], ops: List[Op] }
  pure def emit(g: G, C: Curve, o: str, d: int, a: List[int], v: Pt): G =
    { ...g, regs: g.regs.replaceAt(d, v), ops: g.ops.append({ o: o, t: C.nm, a: a, e: ptl(v) }) }

  // a scaling factor of the projective representation, never zero
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 4 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def load(g: G, C: Curve, d: int, P: Pt, l: P2): G =
    emit(g, C, "load", d, [d, P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0], P)

  pure def oneOp(g0: G, C: Curve): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val k = (r / 2^200) % 30
    val d = (r / 2^210) % NR
    val i = (r / 2^220) % NR
    val j = (r / 2^230) % NR
    val f = (r / 2^240) % 32
    val P = g.regs[i]
    val Q = g.regs[j]
    if (k < 3) load({ ...g, r: nxt(nxt(r)) }, C, d, genPt(nxt(r), C), lam(nxt(nxt(r)), C))
    else if (k < 9) emit(g, C, "add", d, [d, i, j, f], cadd(C, P, Q))
    else if (k < 13) emit(g, C, "sub", d, [d, i, j, f], csub(C, P, Q))
    else if (k < 16) emit(g, C, "double", d, [d, i], cadd(C, P, P))
    else if (k < 18) emit(g, C, "neg", d, [d, i, f], cneg(C, P))
    else if (k == 18) { val n = listLen(r) emit(g, C, "sum", d, [d, f, n, i, j], range(0, n).foldl(INF, (s, q) => cadd(C, s, g.regs[(i + q * j) % NR]))) }
    else if (k == 19) emit(g, C, "select", d, [d, i, j, f % 2], if (f % 2 == 1) Q else P)
    else if (k < 22) {
      // the same point in another representation
      val l = lam(nxt(r), C)
      emit({ ...g, r: nxt(r) }, C, "rep", d, [d, i, l._1, l._2], P)
    }
    else {
      // operands that are equal, opposite, share y (cube root of unity), or are each other's double
      val m = (r / 2^250) % 6
      val l = lam(nxt(r), C)
      val z = powmod(C.F.g, (C.p - 1) / 3, C.p)
      val R = if (m <= 1) P else if (m == 2) cneg(C, P)
              else if (m == 3 and C.a == (0, 0) and C.p % 3 == 1 and not(P.inf)) aff(fk(C, z, P.x), P.y)
              else if (m == 4) cadd(C, P, P) else cneg(C, cadd(C, P, P))
      val g2 = load({ ...g, r: nxt(r) }, C, d, R, l)
      val P2 = g2.regs[i]
      val h = (d + 1) % NR
      if (k % 2 == 0) emit(g2, C, "add", h, [h, i, d, f], cadd(C, P2, R))
      else emit(g2, C, "sub", h, [h, d, i, f], csub(C, R, P2))
    }
  }
  pure def batch(r: int, C: Curve, rs: List[Pt]): G =
    range(0, BATCH).foldl({ r: r, regs: rs, ops: [] }, (g, i) => oneOp(g, C))

  pure def start(C: Curve): G = {
    val g = { r: 0, regs: range(0, NR).foldl([], (l, i) => l.append(INF)), ops: [] }
    val s = load(load(load(g, C, 0, INF, (1, 0)), C, 1, C.g, (1, 0)), C, 2, cneg(C, C.g), (5, 0))
    load(load(load(s, C, 3, cadd(C, C.g, C.g), (7, 0)), C, 4, INF, (9, 0)), C, 5, C.g, (C.p - 1, 0))
  }
  // one curve per behaviour: any (init), or a given one
  action at(f: int): bool = {
    val g = start(CURVES[f])
    all { cid' = f, regs' = g.regs, log' = g.ops }
  }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val g = batch(s, CURVES[cid], regs)
    all { cid' = cid, regs' = g.regs, log' = g.ops }
  }
  // every register holds a point of the curve; the law is commutative and associative on them
  val invC01 = {
    val C = CURVES[cid]
    val a = regs[0]  val b = regs[1]  val c = regs[2]
    and {
      regs.foldl(true, (o, P) => o and onc(C, P)),
      cadd(C, a, b) == cadd(C, b, a),
      cadd(C, cadd(C, a, b), c) == cadd(C, a, cadd(C, b, c)),
      csub(C, cadd(C, a, b), b) == a
    }
  }
}
