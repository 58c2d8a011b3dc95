// S02: uncompressed, raw and serde encodings.
module s02 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import codec.* from "./codec"

  var cid: int
  var log: List[Op]
  pure val BATCH = 10
  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 3 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def pin(P: Pt, l: P2): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0]
  pure def sq(C: Curve, x: P2): P2 = fm(C, x, x)
  pure def isProj(C: Curve, x: P2, y: P2, z: P2): bool = {
    val zz = sq(C, z)
    and {
      fm(C, z, sq(C, y)) == fa(C, fm(C, fa(C, sq(C, x), fm(C, C.a, zz)), x), fm(C, C.b, fm(C, zz, z))),
      or { x != (0, 0), y != (0, 0), z != (0, 0) }
    }
  }
  pure def wd(C: Curve): int = 256^bl(C)

  // uncompressed: x || y, all zero for the identity;  raw: the same in internal form
  pure def unc(C: Curve, P: Pt): int = if (P.inf) 0 else fb(C, P.x) + fb(C, P.y) * wd(C)
  pure def rawA(C: Curve, P: Pt): int = if (P.inf) 0 else rb(C, P.x) + rb(C, P.y) * wd(C)
  pure def rawP(C: Curve, x: P2, y: P2, z: P2): int = rb(C, x) + rb(C, y) * wd(C) + rb(C, z) * wd(C) * wd(C)
  pure def xyOk(C: Curve, x: P2, y: P2): bool =
    red(C, x) and red(C, y) and (sq(C, y) == rhs(C, x) or (x == (0, 0) and y == (0, 0)))

  // perturbation of a byte string of n bytes
  pure def mut(r: int, n: int, b: int, C: Curve): int = {
    val m = (r / 2^300) % 12
    val bit = 2^((r / 2^340) % (8 * n))
    val h = 256^hl(C)
    val c = (r / 2^360) % (n / hl(C))
    val w = (b / h^c) % h
    if (m < 3) b
    else if (m < 6) (if ((b / bit) % 2 == 1) b - bit else b + bit)
    else if (m == 6) {
      // one coefficient moved up by p, in its own byte order
      val v = if (C.F.be) rev((rev(w, hl(C)) + C.p) % h, hl(C)) else (w + C.p) % h
      b + (v - w) * h^c
    }
    else if (m == 7) b + ((w + C.p) % h - w) * h^c
    else if (m == 8) b - w * h^c
    else if (m == 9) b - w * h^c + (h - 1 - (r / 2^380) % 3) * h^c
    else if (m == 10) 256^n - 1
    else (r / 2^64) % 256^n
  }
  pure def gl(r: int): int = (r / 2^200) % 16

  pure def oneOp(g0: G, C: Curve): G = {
    val r = nxt(g0.r)
    val r2 = nxt(nxt(r))
    val r3 = nxt(nxt(r2))
    val r4 = nxt(nxt(r3))
    val g = { ...g0, r: nxt(r4) }
    val k = gl(r)
    val P = genPt(r2, C)
    val l = lam(r3, C)
    val n = bl(C)
    if (k < 4) {
      val q = if (P.inf) ((0, 0), l, (0, 0)) else (fm(C, P.x, l), fm(C, P.y, l), l)
      out(g, "senc", C.nm, pin(P, l), [enc(C, P), unc(C, P), rawA(C, P), rawP(C, q._1, q._2, q._3)].concat(ptl(P)))
    }
    else if (k < 8) {
      val b = mut(r, 2 * n, unc(C, P), C)
      val x = fd(C, b % wd(C))
      val y = fd(C, b / wd(C))
      out(g, "udec", C.nm, [b], [b2i(xyOk(C, x, y)), x._1, x._2, y._1, y._2])
    }
    else if (k < 11) {
      // coordinates of a point of another place: swapped, negated, off the curve by one
      val q = if (k == 8) ((P.y, P.x)) else if (k == 9) (P.x, fa(C, P.y, (1, 0))) else (fa(C, P.x, (1, 0)), P.y)
      val b = rb(C, q._1) + rb(C, q._2) * wd(C)
      val b2 = if (k == 8) mut(r, 2 * n, rawA(C, P), C) else b
      val x = rd(C, b2 % wd(C))
      val y = rd(C, b2 / wd(C))
      val vx = unraw(C, x)
      val vy = unraw(C, y)
      out(g, "radec", C.nm, [b2], [b2i(red(C, x) and red(C, y) and xyOk(C, vx, vy)), vx._1, vx._2, vy._1, vy._2])
    }
    else if (k < 14) {
      val f = (r / 2^250) % 8
      val q = if (f == 0) ((0, 0), l, (0, 0))
              else if (f == 1) (l, (0, 0), (0, 0))
              else if (f == 2) ((0, 0), (0, 0), (0, 0))
              else if (f == 3) (l, genx(r4, C), (0, 0))
              else if (P.inf) ((0, 0), l, (0, 0)) else (fm(C, P.x, l), fm(C, P.y, l), l)
      val b = rawP(C, q._1, q._2, q._3)
      val b2 = if (f == 4) b + (if (b % 2 == 1) -1 else 1) else if (f < 4) b else mut(r, 3 * n, b, C)
      val x = rd(C, b2 % wd(C))
      val y = rd(C, (b2 / wd(C)) % wd(C))
      val z = rd(C, b2 / (wd(C) * wd(C)))
      val ok = red(C, x) and red(C, y) and red(C, z) and isProj(C, unraw(C, x), unraw(C, y), unraw(C, z))
      val Z = unraw(C, z)
      val R = if (not(ok) or Z == (0, 0)) INF else { val i = finv(C, Z) aff(fm(C, unraw(C, x), i), fm(C, unraw(C, y), i)) }
      out(g, "rpdec", C.nm, [b2], [b2i(ok)].concat(ptl(R)))
    }
    else if (k == 14) {
      // serde of a compressed string, text and binary
      val e = mut(r, cl(C), enc(C, P), C)
      val d = dec(C, e % 256^cl(C))
      out(g, "sdec", C.nm, [e % 256^cl(C)], [b2i(d._1)].concat(ptl(d._2)))
    }
    else {
      // wrong lengths: c bytes short (or, beyond the middle, too long) in each form
      val c = (r / 2^250) % (3 * n + 8)
      out(g, "slen", C.nm, pin(P, l).concat([c]), [])
    }
  }
  pure def batch(r: int, C: Curve): G =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, C))
  // one curve per behaviour: any (init), or a given one
  action at(f: int): bool = {
    all { cid' = f, log' = [] }
  }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]).ops }
  }
  val okS02 = {
    val C = CURVES[cid]
    log.foldl(true, (ok, o) => ok and (o.o != "senc" or {
        val P = if (o.e[4] == 1) INF else aff((o.e[5], o.e[6]), (o.e[7], o.e[8]))
        val x = fd(C, o.e[1] % wd(C))
        val y = fd(C, o.e[1] / wd(C))
        xyOk(C, x, y) and (P.inf or (P.x == x and P.y == y))
      }))
  }
}
