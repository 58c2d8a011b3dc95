// Elliptic curves by definition: the set of solutions of y^2 = x^3 + a x + b over F_p or
// F_{p^2} together with the point at infinity, under the chord-and-tangent law.
// Coordinates are pairs (c0, c1) = c0 + c1*u with u^2 = be (c1 = 0 for curves over F_p).
module curve {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"

  type Pt = { inf: bool, x: P2, y: P2 }
  // ext: base field is F_{p^2};  codec: 0 extra flag byte, 1 two spare bits, 2 three spare bits;
  // r: order of the generator (the scalar field);  S: scalar field;  F: prime field of the base
  type Curve = { nm: str, F: Field, p: int, be: int, ext: bool, a: P2, b: P2, S: Field, r: int, g: Pt, codec: int,
                 nr: P2 }

  pure val INF: Pt = { inf: true, x: (0, 0), y: (0, 0) }
  pure def aff(x: P2, y: P2): Pt = { inf: false, x: x, y: y }

  pure def fm(C: Curve, x: P2, y: P2): P2 = m2(C.p, C.be, x, y)
  pure def fa(C: Curve, x: P2, y: P2): P2 = a2(C.p, x, y)
  pure def fs(C: Curve, x: P2, y: P2): P2 = s2(C.p, x, y)
  pure def fk(C: Curve, k: int, x: P2): P2 = ((k * x._1) % C.p, (k * x._2) % C.p)
  pure def finv(C: Curve, x: P2): P2 = if (C.ext) i2(C.p, C.be, x) else (powmod(x._1, C.p - 2, C.p), 0)
  pure def rhs(C: Curve, x: P2): P2 = fa(C, fm(C, fa(C, fm(C, x, x), C.a), x), C.b)
  pure def onc(C: Curve, P: Pt): bool = P.inf or fm(C, P.y, P.y) == rhs(C, P.x)

  // ---- the group law
  pure def cneg(C: Curve, P: Pt): Pt = { ...P, y: n2(C.p, P.y) }
  pure def cadd(C: Curve, P: Pt, Q: Pt): Pt =
    if (P.inf) Q else if (Q.inf) P
    else if (P.x == Q.x and P.y != Q.y) INF
    else if (P.x == Q.x and P.y == (0, 0)) INF
    else {
      val l = if (P.x == Q.x) fm(C, fa(C, fk(C, 3, fm(C, P.x, P.x)), C.a), finv(C, fk(C, 2, P.y)))
              else fm(C, fs(C, Q.y, P.y), finv(C, fs(C, Q.x, P.x)))
      val x = fs(C, fs(C, fm(C, l, l), P.x), Q.x)
      aff(x, fs(C, fm(C, l, fs(C, P.x, x)), P.y))
    }
  pure def csub(C: Curve, P: Pt, Q: Pt): Pt = cadd(C, P, cneg(C, Q))

  // ---- k-fold sum; the fold works on (X/Z^2, Y/Z^3) so that only one inversion is needed
  // (tests below tie it to repeated addition)
  type J = (P2, P2, P2)
  pure val JO: J = ((1, 0), (1, 0), (0, 0))
  pure def jdbl(C: Curve, P: J): J =
    if (P._3 == (0, 0) or P._2 == (0, 0)) JO else {
      val yy = fm(C, P._2, P._2)
      val s = fk(C, 4, fm(C, P._1, yy))
      val zz = fm(C, P._3, P._3)
      val mm0 = fk(C, 3, fm(C, P._1, P._1))
      val m = if (C.a == (0, 0)) mm0 else fa(C, mm0, fm(C, C.a, fm(C, zz, zz)))
      val x = fs(C, fm(C, m, m), fk(C, 2, s))
      (x, fs(C, fm(C, m, fs(C, s, x)), fk(C, 8, fm(C, yy, yy))), fk(C, 2, fm(C, P._2, P._3)))
    }
  pure def jmadd(C: Curve, P: J, Q: Pt): J =
    if (Q.inf) P else if (P._3 == (0, 0)) (Q.x, Q.y, (1, 0)) else {
      val zz = fm(C, P._3, P._3)
      val h = fs(C, fm(C, Q.x, zz), P._1)
      val w = fs(C, fm(C, Q.y, fm(C, zz, P._3)), P._2)
      if (h == (0, 0)) (if (w == (0, 0)) jdbl(C, P) else JO) else {
        val hh = fm(C, h, h)
        val hhh = fm(C, hh, h)
        val v = fm(C, P._1, hh)
        val x = fs(C, fs(C, fm(C, w, w), hhh), fk(C, 2, v))
        (x, fs(C, fm(C, w, fs(C, v, x)), fm(C, P._2, hhh)), fm(C, P._3, h))
      }
    }
  pure def jaff(C: Curve, P: J): Pt = if (P._3 == (0, 0)) INF else {
    val i = finv(C, P._3)
    val ii = fm(C, i, i)
    aff(fm(C, P._1, ii), fm(C, P._2, fm(C, ii, i)))
  }
  pure def smulJ(C: Curve, k: int, P: Pt): J = {
    val n = bitlen(k)
    range(0, n).foldl((JO, 2^n / 2), (s, i) => {
      val d = jdbl(C, s._1)
      (if ((k / s._2) % 2 == 1) jmadd(C, d, P) else d, s._2 / 2)
    })._1
  }
  pure def smul(C: Curve, k: int, P: Pt): Pt = if (P.inf) INF else jaff(C, smulJ(C, k, P))

  // ---- square roots (Cipolla; complex method above it).  Only called on squares.
  pure def sqrtP(p: int, a: int): int =
    if (a == 0) 0
    else if (p % 4 == 3) powmod(a, (p + 1) / 4, p)
    else {
      // first t with t^2 - a a non-square
      val t = range(1, 40).foldl(0, (f, t) => if (f != 0) f else if (powmod((t * t + p - a) % p, (p - 1) / 2, p) == p - 1) t else 0)
      pow2(p, (t * t + p - a) % p, (t, 1), (p + 1) / 2)._1
    }
  pure def isqP(p: int, a: int): bool = powmod(a, (p - 1) / 2, p) != p - 1
  pure def fisq(C: Curve, a: P2): bool = if (C.ext) sq2(C.p, C.be, a) != -1 else isqP(C.p, a._1)
  pure def fsqrt(C: Curve, a: P2): P2 = {
    val p = C.p
    if (not(C.ext)) (sqrtP(p, a._1), 0)
    else if (a._2 == 0) {
      if (isqP(p, a._1)) (sqrtP(p, a._1), 0)
      else (0, sqrtP(p, (a._1 * powmod(C.be, p - 2, p)) % p))
    } else {
      val n = sqrtP(p, norm2(p, C.be, a))
      val h = (p + 1) / 2
      val d1 = ((a._1 + n) * h) % p
      val d = if (isqP(p, d1)) d1 else ((a._1 + p - n) * h) % p
      val c = sqrtP(p, d)
      (c, (a._2 * powmod(2 * c, p - 2, p)) % p)
    }
  }

  // ---- the curves of the library
  pure def mkCurve(nm: str, F: Field, be: int, a: P2, b: P2, S: Field, gx: P2, gy: P2, codec: int): Curve =
    { nm: nm, F: F, p: F.p, be: if (be == 0) F.p - 1 else be, ext: be != 0, a: a, b: b, S: S, r: S.p, g: aff(gx, gy), codec: codec, nr: (0, 0) }

  pure val CURVES: List[Curve] = [
    mkCurve("bn_g1", FIELDS[1], 0, (0, 0), (3, 0), FIELDS[0], (1, 0), (2, 0), 1),
    mkCurve("bn_g2", FIELDS[1], FQ_BN - 1, (0, 0), { val t = i2(FQ_BN, FQ_BN - 1, (9, 1)) ((3 * t._1) % FQ_BN, (3 * t._2) % FQ_BN) }, FIELDS[0],
      (0x1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed, 0x198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2),
      (0x12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa, 0x090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b), 1),
    mkCurve("grumpkin", FIELDS[0], 0, (0, 0), (FR_BN - 17, 0), FIELDS[1], (1, 0), (0x0000000000000002cf135e7506a45d632d270d45f1181294833fc48d823f272c, 0), 1),
    mkCurve("k1", FIELDS[4], 0, (0, 0), (7, 0), FIELDS[5],
      (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0), (0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8, 0), 0),
    mkCurve("q1", FIELDS[5], 0, (0, 0), (7, 0), FIELDS[4],
      (0x76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6, 0), (0x3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f, 0), 0),
    mkCurve("r1", FIELDS[6], 0, (FP_R1 - 3, 0), (0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, 0), FIELDS[7],
      (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0), (0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, 0), 0),
    mkCurve("bls_g1", FIELDS[3], 0, (0, 0), (4, 0), FIELDS[2],
      (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb, 0),
      (0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1, 0), 2),
    mkCurve("bls_g2", FIELDS[3], FQ_BLS - 1, (0, 0), (4, 4), FIELDS[2],
      (0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8, 0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
      (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801, 0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be), 2),
    mkCurve("pluto", FIELDS[8], 0, (0, 0), (57, 0), FIELDS[9], (FP_PE - 2, 0), (7, 0), 1),
    mkCurve("eris", FIELDS[9], 0, (0, 0), (57, 0), FIELDS[8], (FQ_PE - 2, 0), (7, 0), 1),
    mkCurve("triton", FIELDS[8], FP_PE - 5, (0, 0), (3, 1), FIELDS[9],
      (0x13576c81faf3a13fd815d0e9bd54b845ee935948b84498b27ca972bfb93722e223c9e276a4ebe7559cfc86dd865f07d64f2b5fe6556f9066, 0x142164cb875db0465e5092f9380f44f555243d011699b7393029f2d201554727aeb383298fdf5847b9b3dff01bbe8d63fe7c781a8fd7bf21),
      (0x2239f7408ead478c58e88d4df1e7418c42fdbb92e64ba85aa4dc17d7dace3f32eb471c004db774bfe78574aca67b3898cd1b78ad106ab9fe, 0x1260b04d51136590dbb53dfd7caf450aeca714555bbe4f079ca65d97eb28fc9fc697b4e10bbcd9e0539ef82a731fb88ed49e3c080e6d945d), 1)
  ]
  pure val NC = 11

  // ---- pseudo-random points: small multiples and their negations, generic points of the whole
  // curve (not only of the prime-order subgroup), points with a zero coordinate, the identity
  pure def liftX(C: Curve, x0: P2, odd: bool): Pt = {
    val x = range(0, 24).foldl((x0, false), (s, i) =>
      if (s._2) s else if (fisq(C, rhs(C, s._1))) (s._1, true) else (fa(C, s._1, (1, 0)), false))._1
    val y = fsqrt(C, rhs(C, x))
    aff(x, if (odd) n2(C.p, y) else y)
  }
  pure def genx(r: int, C: Curve): P2 = if (C.ext) gen2(r, C.F) else (genv(r, C.F), 0)
  // curves over F_{p^2} with a = 0: a point whose y has a zero coefficient
  // (choose x1; then Im(x^3 + b) = 0 is a quadratic equation for x0)
  pure def thinY(r: int, C: Curve): Pt = {
    val p = C.p
    val s = range(0, 16).foldl((INF, genv(r, C.F)), (s, i) =>
      if (not(s._1.inf)) s else {
        val x1 = if (s._2 == 0) 1 else s._2
        val t = (((3 * p * p * p - C.b._2 - C.be * powmod(x1, 3, p)) % p) * powmod(3 * x1, p - 2, p)) % p
        val nx = (INF, (x1 + 1) % p)
        if (not(isqP(p, t))) nx else {
          val x = (sqrtP(p, t), x1)
          val w = rhs(C, x)
          // prefer a zero first coefficient
          if (w._2 != 0 or (i < 12 and isqP(p, w._1))) nx else (aff(x, fsqrt(C, w)), x1)
        }
      })
    s._1
  }
  // cost: one square root; returns a point of the curve
  pure def genPt(r: int, C: Curve): Pt = {
    val m = (r / 2^650) % 10
    val odd = (r / 2^648) % 2 == 1
    if (m == 0) INF
    else if (m == 1) { val P = smul(C, 1 + (r / 2^600) % 6, C.g) if (odd) cneg(C, P) else P }
    else if (m == 2) smul(C, C.r - 1 - (r / 2^600) % 4, C.g)
    else if (m == 3) liftX(C, (0, 0), odd)
    else if (m == 4 and C.ext) { val P = thinY(r, C) if (odd) cneg(C, P) else P }
    else liftX(C, genx(r, C), odd)
  }
  // a point of the prime-order subgroup
  pure def genSub(r: int, C: Curve): Pt = {
    val m = (r / 2^650) % 8
    if (m == 0) INF
    else if (m <= 2) smul(C, 1 + (r / 2^600) % 7, C.g)
    else if (m == 3) cneg(C, smul(C, 1 + (r / 2^600) % 7, C.g))
    else smul(C, rv(r, C.r), C.g)
  }
  pure def ptl(P: Pt): List[int] = if (P.inf) [1, 0, 0, 0, 0] else [0, P.x._1, P.x._2, P.y._1, P.y._2]

  // ---- the specification's own sanity: exhaustive on toy curves
  pure def toyF(p: int): Field = { nm: "toy", p: p, nl: 1, be: false, g: 0, uni: [], two: false, R: 1, Ri: 1, nb: bitlen(p) }
  pure def toy(p: int, be: int, a: P2, b: P2): Curve = mkCurve("toy", toyF(p), be, a, b, toyF(p), (0, 0), (0, 0), 0)
  pure def allPts(C: Curve): Set[Pt] = {
    val fe = if (C.ext) tuples(0.to(C.p - 1), 0.to(C.p - 1)) else tuples(0.to(C.p - 1), Set(0))
    tuples(fe, fe).map(t => aff(t._1, t._2)).filter(P => onc(C, P)).union(Set(INF))
  }
  pure def groupAxioms(C: Curve): bool = {
    val G = allPts(C)
    and {
      G.forall(P => cadd(C, P, INF) == P and cadd(C, P, cneg(C, P)) == INF),
      tuples(G, G).forall(t => { val s = cadd(C, t._1, t._2) onc(C, s) and s == cadd(C, t._2, t._1) }),
      if (G.size() > 22) true else tuples(G, G, G).forall(t => cadd(C, cadd(C, t._1, t._2), t._3) == cadd(C, t._1, cadd(C, t._2, t._3))),
      // the Jacobian fold is repeated addition
      G.forall(P => range(0, 30).foldl((INF, true), (s, k) => (cadd(C, s._1, P), s._2 and smul(C, k, P) == s._1))._2)
    }
  }
  run curveAxiomsTest = all {
    assert(groupAxioms(toy(13, 0, (0, 0), (3, 0)))),
    assert(groupAxioms(toy(17, 0, (14, 0), (3, 0)))),
    assert(groupAxioms(toy(19, 0, (16, 0), (5, 0)))),
    assert(groupAxioms(toy(7, 6, (0, 0), (1, 1)))),
    assert(groupAxioms(toy(7, 3, (4, 2), (1, 1)))),
  }
  run rootsTest = all {
    assert(Set(7, 13, 17, 19, 23, 29, 41).forall(p => 0.to(p - 1).forall(x => { val s = sqrtP(p, (x * x) % p) s == x or s == (p - x) % p }))),
    assert(Set((7, 6), (7, 3), (13, 2), (11, 10)).forall(q => { val C = toy(q._1, q._2, (0, 0), (1, 0))
      tuples(0.to(q._1 - 1), 0.to(q._1 - 1)).forall(x => { val w = fm(C, x, x) val s = fsqrt(C, w) fisq(C, w) and fm(C, s, s) == w }) })),
  }
  // every generator is on its curve and has exactly the (prime) order of the scalar field
  run generatorsTest = all {
    assert(range(0, NC).foldl(true, (ok, i) => { val C = CURVES[i]
      ok and onc(C, C.g) and smul(C, C.r, C.g) == INF and smul(C, C.r - 1, C.g) == cneg(C, C.g) })),
  }
}
