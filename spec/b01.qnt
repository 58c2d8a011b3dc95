// B01: pairings of multiples, of identities, and of lists of pairs.
module b01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import pair.* from "./pair"

  type S1 = { k: int, P: Pt }                       // a multiple of the generator
  var eid: int
  var pa: List[S1]                                  // pool of multiples in G1 and in G2
  var pb: List[S1]
  var log: List[Op]

  pure def scalar(r: int, S: Field): int = {
    val m = (r / 2^620) % 8
    if (m == 0) (r / 2^500) % 4 else if (m == 1) S.p - 1 - (r / 2^500) % 3
    else if (m == 2) 2^((r / 2^500) % S.nb) % S.p
    else if (m < 5) genv(r, S) % S.p else rv(r, S.p)
  }
  pure def pool(E: Eng, ci: int, r: int, n: int): List[S1] = {
    val C = CURVES[ci]
    range(0, n).foldl(([{ k: 0, P: INF }, { k: 1, P: C.g }], r), (s, i) => {
      val k = scalar(s._2, C.S)
      (s._1.append({ k: k, P: smul(C, k, C.g) }), nxt(nxt(s._2)))
    })._1
  }
  pure def sneg(C: Curve, s: S1): S1 = { k: (C.r - s.k) % C.r, P: cneg(C, s.P) }
  // lists of pairs: identities anywhere, repeated and opposite pairs, a last pair that cancels the rest
  pure def term(E: Eng, a: List[S1], b: List[S1], r: int): (S1, S1) = {
    val x = a[(r / 2^100) % a.length()]
    val y = b[(r / 2^110) % b.length()]
    (if ((r / 2^120) % 2 == 0) x else sneg(CURVES[E.g1], x), if ((r / 2^130) % 2 == 0) y else sneg(CURVES[E.g2], y))
  }
  pure def len(r: int): int = {
    val m = (r / 2^300) % 8
    if (m < 3) 1 else if (m < 6) (r / 2^310) % 8 else if (m == 6) 8 + (r / 2^310) % 12 else 20 + (r / 2^310) % 50
  }
  pure def terms(E: Eng, a: List[S1], b: List[S1], r: int): List[(S1, S1)] = {
    val l = range(0, len(r)).foldl(([], nxt(r)), (s, i) => (s._1.append(term(E, a, b, s._2)), nxt(s._2)))._1
    val m = (r / 2^330) % 6
    if (m == 0 and l.length() > 0) {                // interleave with the opposite of every pair
      val o = l.foldl([], (q, t) => q.append((sneg(CURVES[E.g1], t._1), t._2)))
      if ((r / 2^340) % 2 == 0) l.concat(o) else o.concat(l)
    }
    else if (m == 1) l.concat(l) else l
  }
  pure def expo(E: Eng, l: List[(S1, S1)]): int = l.foldl(0, (s, t) => (s + t._1.k * t._2.k) % CURVES[E.g1].r)
  pure def b01i(b: bool): int = if (b) 1 else 0
  pure def enc1(P: Pt): List[int] = [P.x._1, P.y._1, b01i(P.inf)]
  pure def enc2(P: Pt): List[int] = [P.x._1, P.x._2, P.y._1, P.y._2, b01i(P.inf)]
  pure def pairOp(i: int, l: List[(S1, S1)]): Op = {
    val E = ENGS[i]
    { o: if (l.length() == 1) "pair" else "multi", t: E.nm,
      a: l.foldl([], (q, t) => q.concat(enc1(t._1.P)).concat(enc2(t._2.P))), e: flat(E.T, epow(E.T, GEN[i], expo(E, l))) }
  }
  action at(i: int): bool = all {
    eid' = i, pa' = pool(ENGS[i], ENGS[i].g1, 0, 0), pb' = pool(ENGS[i], ENGS[i].g2, 0, 0),
    log' = [pairOp(i, []), pairOp(i, [({ k: 1, P: CURVES[ENGS[i].g1].g }, { k: 1, P: CURVES[ENGS[i].g2].g })])]
  }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init = { nondet f = 0.to(2).oneOf() at(f) }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val E = ENGS[eid]
    val a = pool(E, E.g1, s, 5)
    val b = pool(E, E.g2, nxt(s), 4)
    val l1 = terms(E, a, b, nxt(nxt(s)))
    val l2 = terms(E, a, b, nxt(nxt(nxt(s))))
    val l3 = [term(E, a, b, nxt(nxt(nxt(nxt(s)))))]
    val l4 = [term(E, a, b, nxt(nxt(nxt(nxt(nxt(s))))))]
    all { eid' = eid, pa' = a, pb' = b, log' = [pairOp(eid, l1), pairOp(eid, l2), pairOp(eid, l3), pairOp(eid, l4)] }
  }
  // the exponent view agrees with the definition of the pairing (pool points 2 and 3), and with non-degeneracy
  val okB01 = log.length() > 0 and (pa.length() < 4 or {
    val E = ENGS[eid]
    val x = pairing(E, pa[2].P, pb[2].P)
    x == epow(E.T, GEN[eid], (pa[2].k * pb[2].k) % CURVES[E.g1].r) and (x == eone(E.T)) == (pa[2].P.inf or pb[2].P.inf)
  })
}
