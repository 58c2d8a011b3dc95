// Cofactors of the curves whose order is not prime, and cofactor clearing as documented.
module cof {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  pure val X_BLS = -0xd201000000010000
  pure val X_BN = 4965661367192848881
  pure def pwi(b: int, e: int): int = range(0, e).foldl(1, (a, i) => a * b)
  pure def cofactor(i: int): int =
    if (i == 1) 2 * FQ_BN - FR_BN
    else if (i == 6) pwi(X_BLS - 1, 2) / 3
    else if (i == 7) (pwi(X_BLS, 8) - 4 * pwi(X_BLS, 7) + 5 * pwi(X_BLS, 6) - 4 * pwi(X_BLS, 4) + 6 * pwi(X_BLS, 3) - 4 * pwi(X_BLS, 2) - 4 * X_BLS + 13) / 9
    else if (i == 10) 2 * FP_PE - FQ_PE
    else 1
  // the small prime-power parts of the cofactor, and what is left of it
  pure def smallParts(i: int): List[int] =
    if (i == 1) [10069, 5864401]
    else if (i == 6) [3, 121, 10177 * 10177, 859267 * 859267, 52437899 * 52437899]
    else if (i == 7) [169, 529, 2713, 11953, 262069]
    else if (i == 10) [169, 73, 1426393, 143653, 79562281]
    else []

  // untwist, p-power Frobenius, twist, on the sextic twist of bn256
  pure def psiBn(P: Pt): Pt = {
    val p = FQ_BN
    val x1 = pow2(p, p - 1, (9, 1), (p - 1) / 3)
    val y1 = pow2(p, p - 1, (9, 1), (p - 1) / 2)
    if (P.inf) INF else aff(m2(p, p - 1, cj2(p, P.x), x1), m2(p, p - 1, cj2(p, P.y), y1))
  }
  pure def cj2(p: int, x: P2): P2 = (x._1, (p - x._2) % p)

  // the documented multiple: RFC 9380 h_eff for BLS12-381 (1 - x, and 3(x^2 - 1)h for G2), the cofactor for
  // triton, [x]P + psi([3x]P) + psi^2([x]P) + psi^3(P) for bn256 G2
  pure def clear(i: int, P: Pt): Pt = {
    val C = CURVES[i]
    if (i == 1) {
      val u0 = smul(C, X_BN, P)
      val u3 = smul(C, 3, u0)
      cadd(C, cadd(C, u0, psiBn(u3)), cadd(C, psiBn(psiBn(u0)), psiBn(psiBn(psiBn(P)))))
    }
    else if (i == 6) smul(C, 1 - X_BLS, P)
    else if (i == 7) smul(C, 3 * (X_BLS * X_BLS - 1) * cofactor(7), P)
    else if (i == 10) smul(C, cofactor(10), P)
    else P
  }
  pure def inSub(i: int, P: Pt): bool = smul(CURVES[i], CURVES[i].r, P) == INF
  pure def smallOrder(i: int, P: Pt): bool = smul(CURVES[i], cofactor(i), P) == INF

  // a point of order dividing the k-th small part
  pure def torsion(i: int, k: int, R: Pt): Pt =
    smul(CURVES[i], (cofactor(i) / smallParts(i)[k]) * CURVES[i].r, R)

  // -- the numbers are right: every curve has exactly h*r points as far as sample points can tell,
  // the small parts divide h, torsion points have the stated orders, psi acts as p on the subgroup
  run cofactorTest = all {
    assert(Set(1, 6, 7, 10).forall(i => {
      val C = CURVES[i]
      val h = cofactor(i)
      and {
        range(0, 4).foldl(true, (ok, k) => ok and {
          val R = liftX(C, (k * 7 + 1, if (C.ext) k else 0), k % 2 == 0)
          onc(C, R) and smul(C, h * C.r, R) == INF and smul(C, C.r, R) != INF
            and smul(C, C.r, clear(i, R)) == INF and clear(i, R) != INF
        }),
        smallParts(i).foldl(true, (ok, l) => ok and h % l == 0),
        range(0, smallParts(i).length()).foldl(true, (ok, k) => ok and {
          val T = torsion(i, k, liftX(C, (5, if (C.ext) 1 else 0), true))
          onc(C, T) and smul(C, smallParts(i)[k], T) == INF and smallOrder(i, T) and (T == INF or not(inSub(i, T)))
        })
      }
    })),
    assert(psiBn(CURVES[1].g) == smul(CURVES[1], FQ_BN, CURVES[1].g)),
    // no curve of the library has a point of order two (so y is never zero): the order h*r is odd
    assert(range(0, NC).foldl(true, (ok, i) => ok and (cofactor(i) * CURVES[i].r) % 2 == 1)),
  }
}
