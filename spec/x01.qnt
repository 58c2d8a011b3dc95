// X01: register machine over the extension fields.
module x01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"

  var fid: int
  var regs: List[Elt]
  var log: List[Op]
  pure val NR = 6
  pure val BATCH = 14

  type G = { r: int, regs: List[Elt], ops: List[Op] }
  pure def emit(g: G, T: Tower, o: str, d: int, a: List[int], v: Elt): G =
    { ...g, regs: g.regs.replaceAt(d, v), ops: g.ops.append({ o: o, t: T.nm, a: a, e: flat(T, v) }) }
  pure def b2i(b: bool): int = if (b) 1 else 0

  pure def oneOp(g0: G, T: Tower): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val k = (r / 2^200) % 34
    val d = (r / 2^210) % NR
    val i = (r / 2^220) % NR
    val j = (r / 2^230) % NR
    val f = (r / 2^240) % 6
    val x = g.regs[i]
    val y = g.regs[j]
    if (k < 6) { val e = genE(r, T) emit({ ...g, r: e._2 }, T, "load", d, [d], e._1) }
    else if (k < 8) emit(g, T, "add", d, [d, i, j, f], eadd(T, x, y))
    else if (k < 10) emit(g, T, "sub", d, [d, i, j, f], esub(T, x, y))
    else if (k < 14) emit(g, T, "mul", d, [d, i, j, f], emul(T, x, y))
    else if (k == 14) emit(g, T, "neg", d, [d, i, f], eneg(T, x))
    else if (k == 15) emit(g, T, "double", d, [d, i, f], eadd(T, x, x))
    else if (k < 18) emit(g, T, "square", d, [d, i, f], emul(T, x, x))
    else if (k < 21) {
      val w = (r / 2^250) % 5
      val e = if (w == 0) (r / 2^260) % 10^9 else (r / 2^260) % 26
      emit(g, T, "frob", d, [d, i, e], frob(T, x, e))
    }
    else if (k == 21 and T.n != 3 and f < 3) emit(g, T, "conj", d, [d, i], frob(T, x, T.n))
    else if (k == 21 and T.n != 3) emit(g, T, "norm", d, [d, i], emul(T, x, frob(T, x, T.n)))
    else if (k == 22) {
      if (T.n == 1) emit(g, T, "nonres", d, [d, i], [m2(T.p, T.beta, x[0], T.xi)])
      else if (T.n == 3) emit(g, T, "nonres", d, [d, i], emul(T, x, ezero(T).replaceAt(1, (1, 0))))
      else emit(g, T, "square", d, [d, i, f], emul(T, x, x))
    }
    else if (k < 25) {
      if (isz(T, x)) { ...g, ops: g.ops.append({ o: "inv0", t: T.nm, a: [i], e: [] }) }
      else emit(g, T, "inv", d, [d, i], einv(T, x))
    }
    else if (k == 25) { val c = (r / 2^250) % 2  emit(g, T, "select", d, [d, i, j, c], if (c == 1) y else x) }
    else if (k == 26) { val n = listLen(r) emit(g, T, "sum", d, [d, f, n, i, j], range(0, n).foldl(ezero(T), (s, q) => eadd(T, s, g.regs[(i + q * j) % NR]))) }
    else if (k == 27) { val n = listLen(r) % 7 emit(g, T, "product", d, [d, f, n, i, j], range(0, n).foldl(eone(T), (s, q) => emul(T, s, g.regs[(i + q * j) % NR]))) }
    else if (k == 28) { val e = (r / 2^260) % 2^((r / 2^250) % 24)  emit(g, T, "pow", d, [d, i, f, e], epow(T, x, e)) }
    else if (k < 31) {
      // comparisons: two registers, and a register with a copy differing in one coefficient
      val c = (r / 2^250) % (2 * T.n)
      val fl = flat(T, x)
      val v = (fl[c] + 1) % T.p
      val zeroing = (r / 2^270) % 2 == 0
      // an element whose only non-zero coefficient is c
      val only = range(0, 2 * T.n).foldl([], (l, q) => l.append(if (q == c) fl[q] else 0))
      { ...g, ops: g.ops.append({ o: "eq", t: T.nm, a: [i, j, c, v].concat(only),
          e: [b2i(x == y), b2i(isz(T, x)), b2i(x == eone(T)), b2i(fl[c] == 0)] }) }
    }
    else if (T.n == 3) {
      val c0 = gen2(nxt(r), T.F)
      val c1 = gen2(nxt(nxt(nxt(r))), T.F)
      val g2 = { ...g, r: nxt(nxt(nxt(nxt(r)))) }
      if (f % 2 == 0) emit(g2, T, "m1", d, [d, i, c1._1, c1._2], emul(T, x, [(0, 0), c1, (0, 0)]))
      else emit(g2, T, "m01", d, [d, i, c0._1, c0._2, c1._1, c1._2], emul(T, x, [c0, c1, (0, 0)]))
    }
    else if (T.n == 6) {
      val r2 = nxt(nxt(nxt(r)))
      val r3 = nxt(nxt(nxt(r2)))
      val c0 = gen2(nxt(r), T.F)
      val c1 = gen2(r2, T.F)
      val c4 = gen2(r3, T.F)
      val g2 = { ...g, r: nxt(nxt(r3)) }
      val z = (0, 0)
      // tower positions 0,1,3,4 are w^0, w^2, w^1, w^3
      if (f < 2) emit(g2, T, "m014", d, [d, i, c0._1, c0._2, c1._1, c1._2, c4._1, c4._2], emul(T, x, [c0, z, c1, c4, z, z]))
      else if (f < 4) emit(g2, T, "m034", d, [d, i, c0._1, c0._2, c1._1, c1._2, c4._1, c4._2], emul(T, x, [c0, c1, z, c4, z, z]))
      else if (isz(T, x)) g2
      else {
        val c = easy(T, x)
        val n = (r / 2^250) % 4 + 1
        emit(g2, T, "cyc", d, [d, n].concat(flat(T, c)), range(0, n).foldl(c, (t, q) => emul(T, t, t)))
      }
    }
    else emit(g, T, "mul", d, [d, i, j, f], emul(T, x, y))
  }
  pure def batch(r: int, T: Tower, rs: List[Elt]): G =
    range(0, BATCH).foldl({ r: r, regs: rs, ops: [] }, (g, i) => oneOp(g, T))

  pure def start(T: Tower): List[Elt] = {
    val u = ezero(T).replaceAt(0, (0, 1))
    [ezero(T), eone(T), eint(T, T.p - 1), u, if (T.n == 1) [T.xi] else ezero(T).replaceAt(1, (1, 0)), if (T.n == 1) eint(T, 7) else ezero(T).replaceAt(T.n - 1, (3, T.p - 1))]
  }
  action init = {
    nondet f = 0.to(TOWERS.length() - 1).oneOf()
    val T = TOWERS[f]
    all { fid' = f, regs' = start(T), log' = start(T).foldl([], (l, v) => l.append({ o: "load", t: T.nm, a: [l.length()], e: flat(T, v) })) }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val g = batch(s, TOWERS[fid], regs)
    all { fid' = fid, regs' = g.regs, log' = g.ops }
  }
  // the algebra of the specification itself: distributivity, inverse, Frobenius multiplicativity on the live registers
  val invX01 = {
    val T = TOWERS[fid]
    val a = regs[0]  val b = regs[1]  val c = regs[2]
    and {
      emul(T, a, eadd(T, b, c)) == eadd(T, emul(T, a, b), emul(T, a, c)),
      frob1(T, emul(T, a, b)) == emul(T, frob1(T, a), frob1(T, b)),
      isz(T, a) or emul(T, a, einv(T, a)) == eone(T),
      regs.foldl(true, (o, v) => o and v.length() == T.n)
    }
  }
  // Frobenius really is the p-th power (checked once per tower by the model tests)
  run frobIsPowerTest = all { assert(TOWERS.foldl(true, (o, T) => {
      val x = genE(nxt(12345), T)._1
      o and frob1(T, x) == epow(T, x, T.p) and frob(T, x, 2 * T.n) == x
    })) }
}
