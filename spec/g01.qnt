// G01: cofactor clearing, membership of the prime-order subgroup, random points.
module g01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import cof.* from "./cof"

  var cid: int
  var log: List[Op]
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 3 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def pin(P: Pt, l: P2): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0]
  // points: of the subgroup, of small order, sums of the two, anything
  pure def genAny(i: int, r: int): Pt = {
    val C = CURVES[i]
    val np = smallParts(i).length()
    val m = (r / 2^200) % 8
    if (np == 0 or m < 2) genPt(r, C)
    else if (m < 4) genSub(r, C)
    else {
      val T = torsion(i, (r / 2^210) % np, liftX(C, genx(r, C), (r / 2^220) % 2 == 0))
      if (m < 6) T else cadd(C, T, genSub(nxt(r), C))
    }
  }
  pure def b01(b: bool): int = if (b) 1 else 0
  pure def cofOp(i: int, r: int): Op = {
    val P = genAny(i, nxt(r))
    { o: "cof", t: CURVES[i].nm, a: pin(P, lam(nxt(nxt(r)), CURVES[i])),
      e: ptl(clear(i, P)).concat([b01(inSub(i, P)), b01(smallOrder(i, P))]) }
  }
  // clear(P + Q) is compared through clear(P), clear(Q) by the replayer as well
  pure def homOp(i: int, r: int): Op = {
    val C = CURVES[i]
    val P = genAny(i, nxt(r))
    val Q = genAny(i, nxt(nxt(r)))
    { o: "cofhom", t: C.nm, a: pin(P, (1, 0)).concat(pin(Q, lam(nxt(r), C))), e: ptl(cadd(C, clear(i, P), clear(i, Q))) }
  }
  // random sampling from a generator that starts with a given pattern of bytes
  pure def randOp(i: int, r: int): Op =
    { o: "rand", t: CURVES[i].nm, a: [r % 2^64, (r / 2^200) % 160, [0, 255, 1, 128][(r / 2^210) % 4], CURVES[i].r], e: [] }
  pure def batch(i: int, s: int): List[Op] = {
    val s2 = nxt(nxt(nxt(nxt(s))))
    val s3 = nxt(nxt(nxt(nxt(s2))))
    val s4 = nxt(nxt(nxt(nxt(s3))))
    [cofOp(i, s), cofOp(i, s2), randOp(i, s3), randOp(i, nxt(s3)), if ((s / 2^100) % 3 == 0) homOp(i, s4) else cofOp(i, s4)]
  }
  action at(f: int): bool = all { cid' = f, log' = [
    { o: "cof", t: CURVES[f].nm, a: pin(INF, (1, 0)), e: ptl(INF).concat([1, 1]) },
    { o: "cof", t: CURVES[f].nm, a: pin(CURVES[f].g, (1, 0)), e: ptl(clear(f, CURVES[f].g)).concat([1, 0]) }] }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(cid, s) }
  }
  // clearing lands in the subgroup, and kills exactly the points of small order
  val okG01 = log.length() > 0 and log.foldl(true, (ok, o) => ok and (o.o != "cof" or {
    val C = CURVES[cid]
    val e = if (o.e[0] == 1) INF else aff((o.e[1], o.e[2]), (o.e[3], o.e[4]))
    onc(C, e) and smul(C, C.r, e) == INF and (e.inf == (o.e[6] == 1))
  }))
}
