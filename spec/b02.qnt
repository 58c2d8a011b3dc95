// B02: register machine over the target group; the final exponentiation.
module b02 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import pair.* from "./pair"

  type G = { k: int, v: Elt }                       // v = GEN^k
  var eid: int
  var regs: List[G]
  var log: List[Op]
  pure val NR = 4
  type A = { r: int, regs: List[G], ops: List[Op] }

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def ord(i: int): int = CURVES[ENGS[i].g1].r
  pure def emit(g: A, i: int, o: str, d: int, a: List[int], x: G): A =
    { ...g, regs: g.regs.replaceAt(d, x), ops: g.ops.append({ o: o, t: ENGS[i].nm, a: a, e: flat(ENGS[i].T, x.v) }) }
  pure def scalar(r: int, S: Field): int = {
    val m = (r / 2^620) % 8
    if (m == 0) (r / 2^500) % 4 else if (m == 1) S.p - 1 - (r / 2^500) % 3
    else if (m == 2) 2^((r / 2^500) % S.nb) % S.p
    else if (m == 3) (S.p / 2 + (r / 2^500) % 3) % S.p
    else if (m < 6) genv(r, S) % S.p else rv(r, S.p)
  }
  pure def oneOp(g0: A, i: int): A = {
    val E = ENGS[i]
    val T = E.T
    val n = ord(i)
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val k = (r / 2^200) % 22
    val d = (r / 2^210) % NR
    val x = g.regs[(r / 2^220) % NR]
    val y = g.regs[(r / 2^230) % NR]
    val ix = (r / 2^220) % NR
    val iy = (r / 2^230) % NR
    val f = (r / 2^240) % 6
    if (k < 5) emit(g, i, "gadd", d, [d, ix, iy, f], { k: (x.k + y.k) % n, v: emul(T, x.v, y.v) })
    else if (k < 9) emit(g, i, "gsub", d, [d, ix, iy, f], { k: (x.k + n - y.k) % n, v: emul(T, x.v, gtNeg(T, y.v)) })
    else if (k < 11) emit(g, i, "gneg", d, [d, ix, f], { k: (n - x.k) % n, v: gtNeg(T, x.v) })
    else if (k < 13) emit(g, i, "gdbl", d, [d, ix, f], { k: (2 * x.k) % n, v: emul(T, x.v, x.v) })
    else if (k < 14) { val m = listLen(r) % 15 emit(g, i, "gsum", d, [d, f, m, ix, iy], range(0, m).foldl({ k: 0, v: eone(T) }, (s, q) => { val z = g.regs[(ix + q * iy) % NR]  { k: (s.k + z.k) % n, v: emul(T, s.v, z.v) } })) }
    else if (k < 16) { val c = (r / 2^250) % 2  emit(g, i, "gsel", d, [d, ix, iy, c], if (c == 1) y else x) }
    else if (k < 19) emit(g, i, "gid", d, [d, f], { k: 0, v: eone(T) })
    else { ...g, ops: g.ops.append({ o: "geq", t: E.nm, a: [ix, iy], e: [b2i(x.k == y.k), b2i(x.k == 0)] }) }
  }
  pure def mulOp(g0: A, i: int): A = {
    val E = ENGS[i]
    val r = nxt(nxt(g0.r))
    val s = scalar(r, CURVES[E.g1].S)
    val x = g0.regs[(r / 2^220) % NR]
    emit({ ...g0, r: nxt(r) }, i, "gmul", (r / 2^210) % NR, [(r / 2^210) % NR, (r / 2^220) % NR, (r / 2^240) % 6, s],
      { k: (x.k * s) % ord(i), v: epow(E.T, x.v, s) })
  }
  pure def loadOp(g0: A, i: int): A = {
    val E = ENGS[i]
    val r = nxt(nxt(g0.r))
    val s = scalar(r, CURVES[E.g1].S)
    val d = (r / 2^210) % NR
    val v = epow(E.T, GEN[i], s)
    emit({ ...g0, r: nxt(r) }, i, "gload", d, [d].concat(flat(E.T, v)), { k: s, v: v })
  }
  // arguments of the final exponentiation: dense, sparse, in proper subfields, unitary, cyclotomic, Miller values
  pure def arg(i: int, r: int): Elt = {
    val T = ENGS[i].T
    val m = (r / 2^600) % 10
    val x = genE(nxt(r), T)._1
    val z = (0, 0)
    val w =
      if (m == 0) [(x[0]._1, 0), z, z, z, z, z]
      else if (m == 1) [x[0], z, z, z, z, z]
      else if (m == 2) [x[0], z, x[2], z, x[4], z]
      else if (m == 3) [x[0], z, z, x[3], z, z]                 // F_{p^4}
      else if (m == 4) range(0, 6).foldl([], (l, k) => l.append(if (k == (r / 2^610) % 6) x[k] else z))
      else if (m == 5 and x != ezero(T)) emul(T, frob(T, x, 6), einv(T, x))
      else if (m == 6 and x != ezero(T)) easy(T, x)
      else if (m == 7) miller(ENGS[i], CURVES[ENGS[i].g1].g, CURVES[ENGS[i].g2].g)
      else x
    if (w == ezero(T)) eone(T) else w
  }
  pure def fexpOp(i: int, r: int): Op = {
    val v = arg(i, r)
    { o: "fexp", t: ENGS[i].nm, a: flat(ENGS[i].T, v), e: flat(ENGS[i].T, finalExp(ENGS[i], v)) }
  }
  pure def randOp(i: int, r: int): Op =
    { o: "grand", t: ENGS[i].nm, a: [r % 2^64, (r / 2^200) % 160, [0, 255, 1, 128][(r / 2^210) % 4], ord(i)], e: [] }
  pure def start(i: int): List[G] = range(0, NR).foldl([], (l, k) => l.append({ k: 0, v: eone(ENGS[i].T) }))
  action at(i: int): bool = all {
    eid' = i, regs' = start(i).replaceAt(0, { k: 1, v: GEN[i] }),
    log' = range(0, NR).foldl([], (l, k) => l.append({ o: "gload", t: ENGS[i].nm, a: [k].concat(flat(ENGS[i].T, start(i)[k].v)), e: flat(ENGS[i].T, start(i)[k].v) }))
      .concat([{ o: "gload", t: ENGS[i].nm, a: [0].concat(flat(ENGS[i].T, GEN[i])), e: flat(ENGS[i].T, GEN[i]) }])
  }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init = { nondet f = 0.to(2).oneOf() at(f) }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val l = loadOp({ r: s, regs: regs, ops: [] }, eid)
    val g = range(0, 12).foldl(mulOp(l, eid), (a, _) => oneOp(a, eid))
    val h = range(0, 6).foldl(mulOp(g, eid), (a, _) => oneOp(a, eid))
    all { eid' = eid, regs' = h.regs, log' = h.ops.append(fexpOp(eid, nxt(h.r))).append(randOp(eid, nxt(nxt(h.r)))) }
  }
  // registers are what exponent arithmetic says; final exponentiations have order dividing r
  val okB02 = log.length() > 0 and {
    val T = ENGS[eid].T
    range(0, NR).foldl(true, (ok, j) => ok and (j % 2 == 1 or regs[j].v == epow(T, GEN[eid], regs[j].k)))
  }
  // multiplicative, trivial on proper subfields, of order r
  run finalExpTest = all {
    assert(Set(0, 1, 2).forall(i => {
      val E = ENGS[i]
      val T = E.T
      val x = [(3, 1), (0, 7), (5, 5), (1, 0), (2, 9), (4, 6)]
      val y = [(1, 1), (0, 0), (8, 5), (1, 0), (0, 9), (4, 0)]
      val fx = finalExp(E, x)
      and {
        finalExp(E, emul(T, x, y)) == emul(T, fx, finalExp(E, y)),
        epow(T, fx, ord(i)) == eone(T),
        // the definition through base-p digits is the full power
        fx == epow(T, epow(T, epow(T, x, T.p^6 - 1), (T.p^6 + 1) / ord(i)), E.c),
        finalExp(E, [(5, 0), (0, 0), (0, 0), (0, 0), (0, 0), (0, 0)]) == eone(T),
        finalExp(E, [(5, 3), (0, 0), (0, 0), (0, 0), (0, 0), (0, 0)]) == eone(T),
        finalExp(E, [(5, 3), (0, 0), (1, 2), (0, 0), (7, 7), (0, 0)]) == eone(T),
        finalExp(E, [(5, 3), (0, 0), (0, 0), (4, 4), (0, 0), (0, 0)]) == eone(T)
      }
    }))
  }
}
