// Byte encodings of points.  A byte string is the integer whose base-256 digits it is, first
// byte least significant.
module codec {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def rev(b: int, n: int): int = range(0, n).foldl((0, b), (s, i) => (s._1 * 256 + s._2 % 256, s._2 / 256))._1
  // bytes per coefficient, per base-field element, per compressed point
  pure def hl(C: Curve): int = 8 * C.F.nl
  pure def bl(C: Curve): int = hl(C) * (if (C.ext) 2 else 1)
  pure def cl(C: Curve): int = bl(C) + (if (C.codec == 0) 1 else 0)

  // coefficient <-> its bytes (little- or big-endian by field), c0 first
  pure def cb(C: Curve, v: int): int = if (C.F.be) rev(v, hl(C)) else v
  pure def fb(C: Curve, x: P2): int = cb(C, x._1) + (if (C.ext) cb(C, x._2) * 256^hl(C) else 0)
  // the (possibly non-canonical) integers a byte string spells
  pure def fd(C: Curve, b: int): P2 =
    (cb(C, b % 256^hl(C)), if (C.ext) cb(C, (b / 256^hl(C)) % 256^hl(C)) else 0)
  pure def red(C: Curve, x: P2): bool = x._1 < C.p and x._2 < C.p
  // internal (Montgomery) form, limbs little-endian in every field
  pure def rb(C: Curve, x: P2): int = (x._1 * C.F.R) % C.p + (if (C.ext) ((x._2 * C.F.R) % C.p) * 256^hl(C) else 0)
  pure def rd(C: Curve, b: int): P2 = (b % 256^hl(C), if (C.ext) (b / 256^hl(C)) % 256^hl(C) else 0)
  pure def unraw(C: Curve, v: P2): P2 = ((v._1 * C.F.Ri) % C.p, (v._2 * C.F.Ri) % C.p)

  // sign of a finite point, different for y and -y: parity of y's first coefficient (y > -y
  // if that is zero), or y > -y throughout for the three-spare-bits codec
  pure def lexl(p: int, x: P2): bool =
    if (x._2 != 0) x._2 > p - x._2 else if (x._1 != 0) x._1 > p - x._1 else false
  pure def sgn(C: Curve, y: P2): bool = if (C.codec == 2) lexl(C.p, y) else if (y._1 != 0) y._1 % 2 == 1 else lexl(C.p, y)

  // flag byte: position (0 first, otherwise last byte of the base-field bytes) and weights
  pure def fpos(C: Curve): int = if (C.codec == 1) bl(C) - 1 else 0
  pure val WS = 128
  pure def flags(C: Curve, sign: bool, ident: bool): int =
    if (C.codec == 2) 128 + 64 * b2i(ident) + 32 * b2i(sign) else 128 * b2i(sign) + 64 * b2i(ident)

  // compressed encoding
  pure def enc(C: Curve, P: Pt): int = {
    val x = if (P.inf) 0 else fb(C, P.x)
    val f = flags(C, not(P.inf) and sgn(C, P.y), P.inf)
    if (C.codec == 0) f + 256 * x else x + f * 256^fpos(C)
  }
  // the point a byte string is the encoding of: (accepted, point)
  pure def dec(C: Curve, b: int): (bool, Pt) = {
    val f = (b / 256^fpos(C)) % 256
    val nf = if (C.codec == 0) 256 else if (C.codec == 1) 64 else 32
    val fl = if (C.codec == 0) f else f - f % nf
    val xb = if (C.codec == 0) b / 256 else b - fl * 256^fpos(C)
    val sign = if (C.codec == 2) (f / 32) % 2 == 1 else f >= 128
    val ident = (f / 64) % 2 == 1
    val wellf = if (C.codec == 0) f % 64 == 0 else if (C.codec == 1) true else f >= 128
    val x = fd(C, xb)
    if (not(wellf) or not(red(C, x))) (false, INF)
    else if (ident) (x == (0, 0) and not(sign), INF)
    else {
      val w = rhs(C, x)
      if (not(fisq(C, w))) (false, INF)
      else if (w == (0, 0)) (not(sign), aff(x, w))
      else {
        val y = fsqrt(C, w)
        (true, aff(x, if (sgn(C, y) == sign) y else n2(C.p, y)))
      }
    }
  }
}
