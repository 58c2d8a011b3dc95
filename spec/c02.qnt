// C02: scalar multiples, the endomorphism, the generator.
module c02 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  var cid: int
  var log: List[Op]
  pure val BATCH = 6

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def lam(r: int, C: Curve): P2 = {
    val x = if ((r / 2^630) % 3 == 0) (1, 0) else genx(r, C)
    if (x == (0, 0)) (1, 0) else x
  }
  pure def pin(P: Pt, l: P2): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, l._1, l._2, if (P.inf) 1 else 0]

  // scalars: the field's boundary classes, sparse and dense bit patterns, runs of set bits
  pure def gensc(r: int, C: Curve): int = {
    val m = (r / 2^660) % 8
    val n = C.S.nb
    val a = (r / 2^600) % n
    val b = (r / 2^612) % n
    if (m == 0) (r / 2^600) % 40
    else if (m == 1) C.r - 1 - (r / 2^600) % 20
    else if (m == 2) (2^n - 1 - (2^a - 1)) % C.r
    else if (m == 3) (2^a + 2^b) % C.r
    else if (m == 4) ((2^a - 1) * 2^b) % C.r
    else genv(r, C.S)
  }

  pure def oneOp(g0: G, C: Curve): G = {
    val r = nxt(g0.r)
    val r2 = nxt(r)
    val r3 = nxt(r2)
    val r4 = nxt(r3)
    val g = { ...g0, r: r4 }
    val k = (r / 2^200) % 24
    val f = (r / 2^240) % 12
    if (k < 21 or C.a != (0, 0)) {
      val P = if (k % 3 == 0) C.g else genPt(r2, C)
      val s = gensc(r3, C)
      out(g, "mul", C.nm, pin(P, lam(r4, C)).concat([s, f]), ptl(smul(C, s, P)))
    }
    else {
      // the two non-trivial cube roots of unity of the scalar field and their multiples of a subgroup point
      val P = genSub(r2, C)
      val z = powmod(C.S.g, (C.r - 1) / 3, C.r)
      val z2 = (z * z) % C.r
      out(g, "endo", C.nm, pin(P, lam(r4, C)), [z].concat(ptl(smul(C, z, P))).concat([z2]).concat(ptl(smul(C, z2, P))))
    }
  }
  pure def batch(r: int, C: Curve): G =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, C))

  pure def first(C: Curve): List[Op] = {
    val g0: G = { r: 0, ops: [] }
    val g = out(g0, "gen", C.nm, [], ptl(C.g))
    range(0, 3).foldl(g, (s, k) => out(s, "mul", C.nm, pin(C.g, (1, 0)).concat([if (k == 0) 0 else if (k == 1) 1 else C.r - 1, k]),
      ptl(if (k == 0) INF else if (k == 1) C.g else cneg(C, C.g)))).ops
  }
  // one curve per behaviour: any (init), or a given one
  action at(f: int): bool = {
    all { cid' = f, log' = first(CURVES[f]) }
  }
  action init = { nondet f = 0.to(NC - 1).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action init10 = at(10)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = batch(s, CURVES[cid]).ops }
  }
  // distributivity of the scalar multiple, on the first operation of the step
  val okC02 = {
    val C = CURVES[cid]
    log.length() > 0 and (log[0].o != "mul" or log[0].a[6] == 1 or {
      val P = aff((log[0].a[0], log[0].a[1]), (log[0].a[2], log[0].a[3]))
      val s = log[0].a[7]
      val e = log[0].e
      val E = if (e[0] == 1) INF else aff((e[1], e[2]), (e[3], e[4]))
      onc(C, P) and onc(C, E) and smul(C, s + 1, P) == cadd(C, E, P)
    })
  }
}
