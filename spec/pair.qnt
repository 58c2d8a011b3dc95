// Pairings by definition: Miller functions with the chord-and-tangent line functions on the twist, evaluated
// at the untwisted arguments, and the final power.  All arithmetic is that of the tower module (F_{p^12}).
module pair {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  // D twist: (x, y) -> (x w^2, y w^3); M twist: (x, y) -> (x / w^2, y / w^3), w^6 = xi.
  // loop: the (positive) Miller length, neg: the parameter is negative (the loop value is inverted),
  // ends: further points added after the loop, as (power of Frobenius, sign), hard: constant in the final power
  type Eng = { nm: str, T: Tower, g1: int, g2: int, mtwist: bool, loop: int, neg: bool, ends: List[(int, int)], c: int }
  pure val U_BN = 4965661367192848881
  pure val U_PE = -0x4000000000001000008780000000
  pure val X_B = 0xd201000000010000
  pure val ENGS: List[Eng] = [
    { nm: "bn", T: TOWERS[2], g1: 0, g2: 1, mtwist: false, loop: 6 * U_BN + 2, neg: false, ends: [(1, 1), (2, -1)], c: 1 },
    { nm: "bls", T: TOWERS[5], g1: 6, g2: 7, mtwist: true, loop: X_B, neg: true, ends: [], c: 3 },
    // the library's pairing on Pluto is the optimal ate pairing's inverse: loop over -(6u+2), ends negated
    { nm: "pe", T: TOWERS[8], g1: 8, g2: 10, mtwist: false, loop: -(6 * U_PE + 2), neg: false, ends: [(1, -1), (2, 1)], c: 1 }
  ]
  // p^e-power Frobenius carried to the twist
  pure def twFrob(E: Eng, e: int, Q: Pt): Pt = {
    val T = E.T
    range(0, e).foldl(Q, (R, _) => aff(
      m2(T.p, T.beta, (R.x._1, (R.x._2 * T.up) % T.p), T.wp[2]),
      m2(T.p, T.beta, (R.y._1, (R.y._2 * T.up) % T.p), T.wp[3])))
  }
  // the line through the untwisted points with slope l (on the twist) through R, evaluated at P (affine over F_p):
  //   D: yP - l w xP + (l xR - yR) w^3;   M, multiplied by w^3: yP w^3 - l w^2 xP + (l xR - yR)
  // (powers of w are in a proper subfield or cancel in the final power)
  pure def line(E: Eng, l: P2, R: Pt, P: Pt): Elt = {
    val T = E.T
    val c = s2(T.p, m2(T.p, T.beta, l, R.x), R.y)
    val b = n2(T.p, m2(T.p, T.beta, l, P.x))
    val z = (0, 0)
    if (E.mtwist) [c, z, b, P.y, z, z] else [P.y, b, z, c, z, z]
  }
  type M = { f: Elt, r: Pt }
  pure def slope(C: Curve, A: Pt, B: Pt): P2 =
    if (A == B) fm(C, fk(C, 3, fm(C, A.x, A.x)), finv(C, fk(C, 2, A.y)))
    else fm(C, fs(C, B.y, A.y), finv(C, fs(C, B.x, A.x)))
  pure def chord(C: Curve, l: P2, A: Pt, B: Pt): Pt = {
    val x = fs(C, fs(C, fm(C, l, l), A.x), B.x)
    aff(x, fs(C, fm(C, l, fs(C, A.x, x)), A.y))
  }
  pure def stepAdd(E: Eng, m: M, Q: Pt, P: Pt): M = {
    val C = CURVES[E.g2]
    val l = slope(C, m.r, Q)
    { f: emul(E.T, m.f, line(E, l, m.r, P)), r: chord(C, l, m.r, Q) }
  }
  // Miller function of one pair of points of order r (plain binary expansion of the loop length)
  pure def miller(E: Eng, P: Pt, Q: Pt): Elt =
    if (P.inf or Q.inf) eone(E.T)
    else {
      val n = bitlen(E.loop)
      val m = range(1, n).foldl({ f: eone(E.T), r: Q }, (s, i) => {
        val d = stepAdd(E, { f: emul(E.T, s.f, s.f), r: s.r }, s.r, P)
        if ((E.loop / 2^(n - 1 - i)) % 2 == 1) stepAdd(E, d, Q, P) else d
      })
      val z = E.ends.foldl(m, (s, e) => {
        val R = twFrob(E, e._1, Q)
        stepAdd(E, s, if (e._2 == 1) R else cneg(CURVES[E.g2], R), P)
      })
      if (E.neg) frob(E.T, z.f, 6) else z.f
    }
  // f^(c (p^12 - 1)/r) = (f^((p^6 - 1)(p^2 + 1)))^(c (p^4 - p^2 + 1)/r); the second power by base-p digits
  pure def hardExp(E: Eng): int = { val q = E.T.p * E.T.p  1 * (q * q - q + 1) / CURVES[E.g1].r }
  pure def cpow(T: Tower, b: Elt, e: int): Elt = epow(T, b, e)
  // product of b_i^(e_i), interleaved
  pure def multiexp(T: Tower, bs: List[Elt], es: List[int]): Elt = {
    val k = bs.length()
    val tab = range(1, 2^k).foldl([eone(T)], (l, s) => {
      val hi = bitlen(s) - 1
      l.append(if (s == 2^hi) bs[hi] else emul(T, l[s - 2^hi], bs[hi]))
    })
    val n = bitlen(es.foldl(0, (a, e) => if (e > a) e else a))
    range(0, n).foldl((eone(T), 2^n / 2), (s, i) => {
      val ix = range(0, k).foldl(0, (a, j) => a + 2^j * ((es[j] / s._2) % 2))
      val sq = emul(T, s._1, s._1)
      (if (ix == 0) sq else emul(T, sq, tab[ix]), s._2 / 2)
    })._1
  }
  pure def finalExp(E: Eng, f: Elt): Elt = {
    val T = E.T
    val g = easy(T, f)
    val e = E.c * hardExp(E)
    val ds = range(0, 4).foldl(([], e), (s, i) => (s._1.append(if (i == 3) s._2 else s._2 % T.p), s._2 / T.p))._1
    multiexp(T, [g, frob1(T, g), frob(T, g, 2), frob(T, g, 3)], ds)
  }
  pure def pairing(E: Eng, P: Pt, Q: Pt): Elt = finalExp(E, miller(E, P, Q))
  pure def multiPairing(E: Eng, ts: List[(Pt, Pt)]): Elt =
    finalExp(E, ts.foldl(eone(E.T), (f, t) => emul(E.T, f, miller(E, t._1, t._2))))
  pure val GEN: List[Elt] = ENGS.foldl([], (l, E) => l.append(pairing(E, CURVES[E.g1].g, CURVES[E.g2].g)))
  // inverse in the target group is the p^6-power
  pure def gtNeg(T: Tower, a: Elt): Elt = frob(T, a, 6)

  // ---- the definition is a pairing
  run bilinearTest = all {
    assert(Set(0, 1, 2).forall(i => {
      val E = ENGS[i]
      val P = CURVES[E.g1].g
      val Q = CURVES[E.g2].g
      val r = CURVES[E.g1].r
      val a = 1234567891011
      val b = r - 98765
      and {
        GEN[i] != eone(E.T), epow(E.T, GEN[i], r) == eone(E.T),
        pairing(E, smul(CURVES[E.g1], a, P), smul(CURVES[E.g2], b, Q)) == epow(E.T, GEN[i], (a * b) % r),
        multiPairing(E, [(P, Q), (cneg(CURVES[E.g1], P), Q)]) == eone(E.T)
      }
    }))
  }
}
