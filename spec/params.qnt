// Constants of the fields: the primes and parameters published for each curve.
module params {
  import nt.* from "./nt"

  type Field = { nm: str, p: int, nl: int, be: bool, g: int, uni: List[int], two: bool,
                 R: int, Ri: int, nb: int }

  pure def mk(nm: str, p: int, nl: int, be: bool, g: int, uni: List[int]): Field = {
    val r = 2^(64 * nl) % p
    { nm: nm, p: p, nl: nl, be: be, g: g, uni: uni, two: false, R: r, Ri: powmod(r, p - 2, p), nb: bitlen(p) }
  }

  pure val FR_BN = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
  pure val FQ_BN = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
  pure val FR_BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
  pure val FQ_BLS = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
  pure val FP_K1 = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
  pure val FQ_K1 = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
  pure val FP_R1 = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
  pure val FQ_R1 = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
  pure val FP_PE = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001
  pure val FQ_PE = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001

  pure val FIELDS: List[Field] = [
    mk("bn_fr", FR_BN, 4, false, 7, [64, 48]),
    mk("bn_fq", FQ_BN, 4, false, 3, [64, 48]),
    mk("bls_fr", FR_BLS, 4, false, 7, [64]),
    mk("bls_fq", FQ_BLS, 6, true, 2, [64, 96]),
    mk("k1_fp", FP_K1, 4, false, 3, [48, 64]),
    mk("k1_fq", FQ_K1, 4, false, 7, [48, 64]),
    mk("r1_fp", FP_R1, 4, false, 6, [48, 64]),
    mk("r1_fq", FQ_R1, 4, false, 7, [48, 64]),
    mk("pe_fp", FP_PE, 7, false, 10, [64, 72, 112]),
    mk("pe_fq", FQ_PE, 7, false, 7, [64, 72, 112])
  ]

  pure val W = 2^64
  pure def limb(x: int, i: int): int = (x / 2^(64 * i)) % W
  pure def raw(F: Field, v: int): int = (v * F.R) % F.p

  // an integer of n limbs, each limb drawn from the carry-provoking patterns
  pure def patt(r: int, n: int, p: int): int =
    range(0, n).foldl((0, r / 2^200), (s, i) => {
      val c = s._2 % 14
      val q = limb(p, i)
      val w =
        if (c == 0 or c == 1) 0
        else if (c == 2 or c == 3) W - 1
        else if (c == 4) q
        else if (c == 5) q + 1
        else if (c == 6) q + W - 1
        else if (c == 7) 1
        else if (c == 8) 2^63
        else if (c == 9) W - 2
        else if (c == 10) 2^((s._2 / 32) % 64)
        else if (c == 11) W - 2^((s._2 / 32) % 64)
        else (s._2 / 32) % W
      (s._1 + (w % W) * 2^(64 * i), s._2 / 2^40 + (s._2 % 2^40) * 2^300)
    })._1

  // a field element biased towards the interesting ones (r: stream state)
  pure def genv(r: int, F: Field): int = {
    val p = F.p
    val m = (r / 2^560) % 12
    val k = (r / 2^570) % F.nb
    val d = (r / 2^590) % 5
    if (m <= 2) rv(r, p)
    else if (m == 3) { val s = (r / 2^600) % 6  if ((r / 2^610) % 2 == 0) s else (p - s) % p }
    else if (m == 4) (2^k + p + d - 2) % p
    else if (m == 5) (p + p - 2^k + d - 2) % p
    else if (m == 6 or m == 7) ((patt(r, F.nl, p) % p) * F.Ri) % p
    else if (m == 8) patt(r, F.nl, p) % p
    else if (m == 9) (p / 2 + d - 1 + (if ((r / 2^610) % 2 == 0) 0 else F.R)) % p
    else if (m == 10) (((p / 2 + d - 1) % p) * F.Ri) % p
    else { val s = (r / 2^600) % 6
      if (s == 0) F.R else if (s == 1) F.Ri else if (s == 2) (F.R * F.R) % p
      else if (s == 3) p - F.R else if (s == 4) (2^k * F.Ri) % p else ((p - 2^k % p) * F.Ri) % p }
  }
}
