// S01: compressed encodings.
module s01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import codec.* from "./codec"

  var cid: int
  var log: List[Op]
  pure val BATCH = 10
  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 3 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def pin(P: Pt, l: P2): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0]

  // a byte string near the acceptance boundary
  pure def gstr(r: int, r2: int, C: Curve, P: Pt): int = {
    val n = cl(C)
    val top = 256^n
    val e = enc(C, P)
    val m = (r / 2^300) % 20
    val c = (r / 2^320) % 256
    val x0 = if (C.codec == 0) 256 else 1
    val at = 256^fpos(C)
    // change of the flag byte only
    val e0 = if (C.codec == 0) e - e % 256 else e - ((e / at) % 256) * at
    if (m == 0) e
    else if (m <= 2) { val b = 2^((r / 2^340) % (8 * n)) if ((e / b) % 2 == 1) e - b else e + b }
    else if (m == 3) (e0 + c * at) % top
    else if (m == 4) { val f = (e / at) % 256 e - f * at + ((f + 64 * (1 + c % 3)) % 256) * at }
    else if (m == 5) { val f = (e / at) % 256 e - f * at + ((f + 32 * (1 + c % 7)) % 256) * at }
    else if (m == 6) {
      // non-reduced x: x + p in one coefficient (if it fits), same flags
      val h = if (C.ext and c % 2 == 1) 256^hl(C) else 1
      val xs = if (P.inf) (0, 0) else P.x
      val v = if (h == 1) (xs._1 + C.p, xs._2) else (xs._1, xs._2 + C.p)
      val raw = cb(C, v._1 % 256^hl(C)) + (if (C.ext) cb(C, v._2 % 256^hl(C)) * 256^hl(C) else 0)
      val f = (e / at) % 256
      if (C.codec == 0) f + 256 * raw
      else { val fx = (raw / at) % 256 val nf = if (C.codec == 1) 64 else 32  raw - fx * at + (fx % nf + f - f % nf) * at }
    }
    else if (m == 7) 0
    else if (m == 8) (c * at) % top
    else if (m == 9) (flags(C, c % 2 == 1, true) * at + x0 * (1 + (c / 2) % 3)) % top
    else if (m == 10) (flags(C, c % 2 == 1, true) * at + e0) % top
    else if (m == 11) top - 1 - (c % 4)
    else if (m == 12) (r2 / 2^64) % top
    else if (m == 13) {
      // reduced x that may or may not lie on the curve
      val x = genx(r2, C)
      val b = fb(C, x)
      val f = flags(C, c % 2 == 1, false)
      if (C.codec == 0) f + 256 * b else b + f * at
    }
    else if (m == 14) { val b = fb(C, (c % 8, 0)) val f = flags(C, (c / 8) % 2 == 1, false) if (C.codec == 0) f + 256 * b else b + f * at }
    else if (m == 15) { val f = flags(C, c % 2 == 1, false) f * at }
    else if (m == 16) { val b = fb(C, (C.p - 1 - c % 4, if (C.ext) C.p - 1 - (c / 4) % 4 else 0)) val f = flags(C, (c / 16) % 2 == 1, (c / 32) % 4 == 0) if (C.codec == 0) f + 256 * b else b + f * at }
    else if (m == 17) { val f = flags(C, c % 2 == 1, true) f * at }
    else if (m == 18) rev(e, n)
    else (e + top / 256 * (c % 8) * 32) % top
  }

  pure def oneOp(g0: G, C: Curve): G = {
    val r = nxt(g0.r)
    val r2 = nxt(nxt(r))
    val r3 = nxt(nxt(r2))
    val g = { ...g0, r: nxt(r3) }
    val P = genPt(r2, C)
    if ((r / 2^200) % 10 < 4) out(g, "cenc", C.nm, pin(P, lam(r3, C)), [enc(C, P)].concat(ptl(P)))
    else {
      val b = gstr(r, r3, C, P)
      val d = dec(C, b)
      out(g, "cdec", C.nm, [b], [b2i(d._1)].concat(ptl(d._2)))
    }
  }
  pure def batch(r: int, C: Curve): G =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, C))
  // first state: generator, identity, its neighbours, the points with x = 0 if the curve has them
  pure def first(C: Curve): List[Op] = {
    val g0: G = { r: 0, ops: [] }
    val z = if (fisq(C, C.b)) [liftX(C, (0, 0), false), liftX(C, (0, 0), true)] else []
    val ga = [INF, C.g, cneg(C, C.g)].concat(z).foldl(g0, (g, P) => out(g, "cenc", C.nm, pin(P, (1, 0)), [enc(C, P)].concat(ptl(P))))
    range(0, 256).foldl(ga, (g, f) => { val b = f * 256^fpos(C) val d = dec(C, b) out(g, "cdec", C.nm, [b], [b2i(d._1)].concat(ptl(d._2))) }).ops
  }
  // one curve per behaviour: any (init), or a given one
  action at(f: int): bool = {
    all { cid' = f, log' = first(CURVES[f]) }
  }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]).ops }
  }
  // the codec is a bijection between points and accepted strings: dec(enc(P)) = P, and whatever
  // string is accepted is the encoding of the point it decodes to
  val okS01 = {
    val C = CURVES[cid]
    log.foldl(true, (ok, o) => ok and (
      if (o.o == "cdec") {
        o.e[0] == 0 or enc(C, if (o.e[1] == 1) INF else aff((o.e[2], o.e[3]), (o.e[4], o.e[5]))) == o.a[0]
      } else {
        val P = if (o.e[1] == 1) INF else aff((o.e[2], o.e[3]), (o.e[4], o.e[5]))
        onc(C, P) and dec(C, o.e[0]) == (true, P)
      }))
  }
}
