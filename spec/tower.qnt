// Extension fields by definition: F_{q^2} = F_q[u]/(u^2 - beta), F_{q^(2n)} = F_{q^2}[w]/(w^n - xi).
// The sextic field is n = 3 (w is the library's v); the dodecic field is n = 6 (w^2 = v).
// An element is the list of its n coefficients, each a pair (c0, c1) = c0 + c1*u.
module tower {
  import nt.* from "./nt"
  import params.* from "./params"

  type P2 = (int, int)
  type Elt = List[P2]
  type Tower = { nm: str, F: Field, p: int, beta: int, xi: P2, n: int, up: int, wp: List[P2] }

  // ---- quadratic field
  pure def m2(p: int, be: int, a: P2, b: P2): P2 =
    ((a._1 * b._1 + be * a._2 * b._2) % p, (a._1 * b._2 + a._2 * b._1) % p)
  pure def a2(p: int, a: P2, b: P2): P2 = ((a._1 + b._1) % p, (a._2 + b._2) % p)
  pure def s2(p: int, a: P2, b: P2): P2 = ((a._1 + p - b._1) % p, (a._2 + p - b._2) % p)
  pure def n2(p: int, a: P2): P2 = ((p - a._1) % p, (p - a._2) % p)
  pure def norm2(p: int, be: int, a: P2): int = (((a._1 * a._1 - be * a._2 * a._2) % p) + p) % p
  pure def i2(p: int, be: int, a: P2): P2 = {
    val t = powmod(norm2(p, be, a), p - 2, p)
    ((a._1 * t) % p, ((p - a._2) * t) % p)
  }
  pure def pow2(p: int, be: int, b: P2, e: int): P2 =
    range(0, bitlen(e)).foldl(((1 % p, 0), b, e), (s, i) =>
      (if (s._3 % 2 == 1) m2(p, be, s._1, s._2) else s._1, m2(p, be, s._2, s._2), s._3 / 2))._1
  // a is a square of F_{q^2} iff its norm is a square of F_q
  pure def sq2(p: int, be: int, a: P2): int = {
    val t = powmod(norm2(p, be, a), (p - 1) / 2, p)
    if (t == 0) 0 else if (t == 1) 1 else -1
  }

  pure def mkTower(nm: str, F: Field, be: int, xi: P2, n: int): Tower = {
    val p = F.p
    val up = powmod(be, (p - 1) / 2, p)
    // w^(k p) = w^k * xi^(k (p-1)/n)
    val g = pow2(p, be, xi, (p - 1) / n)
    { nm: nm, F: F, p: p, beta: be, xi: xi, n: n, up: up,
      wp: range(0, n).foldl([], (l, k) => l.append(pow2(p, be, g, k))) }
  }
  pure val BNQ = FIELDS[1]
  pure val BLQ = FIELDS[3]
  pure val PEP = FIELDS[8]
  // xi of Pluto: 57/(u+3)
  pure val XI_PE: P2 = { val t = i2(FP_PE, FP_PE - 5, (3, 1)) ((57 * t._1) % FP_PE, (57 * t._2) % FP_PE) }
  pure val TOWERS: List[Tower] = [
    mkTower("bn_fq2", BNQ, FQ_BN - 1, (9, 1), 1), mkTower("bn_fq6", BNQ, FQ_BN - 1, (9, 1), 3), mkTower("bn_fq12", BNQ, FQ_BN - 1, (9, 1), 6),
    mkTower("bls_fq2", BLQ, FQ_BLS - 1, (1, 1), 1), mkTower("bls_fq6", BLQ, FQ_BLS - 1, (1, 1), 3), mkTower("bls_fq12", BLQ, FQ_BLS - 1, (1, 1), 6),
    mkTower("pe_fp2", PEP, FP_PE - 5, XI_PE, 1), mkTower("pe_fp6", PEP, FP_PE - 5, XI_PE, 3), mkTower("pe_fp12", PEP, FP_PE - 5, XI_PE, 6)
  ]

  // ---- general element
  pure def ezero(T: Tower): Elt = range(0, T.n).foldl([], (l, k) => l.append((0, 0)))
  pure def eint(T: Tower, v: int): Elt = ezero(T).replaceAt(0, (v % T.p, 0))
  pure def eone(T: Tower): Elt = eint(T, 1)
  pure def eadd(T: Tower, a: Elt, b: Elt): Elt = range(0, T.n).foldl([], (l, k) => l.append(a2(T.p, a[k], b[k])))
  pure def esub(T: Tower, a: Elt, b: Elt): Elt = range(0, T.n).foldl([], (l, k) => l.append(s2(T.p, a[k], b[k])))
  pure def eneg(T: Tower, a: Elt): Elt = range(0, T.n).foldl([], (l, k) => l.append(n2(T.p, a[k])))
  pure def escale(T: Tower, a: Elt, c: P2): Elt = range(0, T.n).foldl([], (l, k) => l.append(m2(T.p, T.beta, a[k], c)))
  // product of polynomials in w, reduced by w^n = xi
  pure def emul(T: Tower, a: Elt, b: Elt): Elt = {
    val n = T.n
    val be = T.beta
    if (n == 1) [m2(T.p, be, a[0], b[0])] else
    range(0, n).foldl([], (l, k) => {
      val s = range(0, n).foldl((0, 0, 0, 0), (t, i) => {
        val x = a[i]
        val y = b[if (i <= k) k - i else n + k - i]
        val c = x._1 * y._1 + be * x._2 * y._2
        val d = x._1 * y._2 + x._2 * y._1
        if (i <= k) (t._1 + c, t._2 + d, t._3, t._4) else (t._1, t._2, t._3 + c, t._4 + d)
      })
      l.append(((s._1 + s._3 * T.xi._1 + be * ((s._4 * T.xi._2) % T.p)) % T.p, (s._2 + s._3 * T.xi._2 + s._4 * T.xi._1) % T.p))
    })
  }
  pure def epow(T: Tower, b: Elt, e: int): Elt =
    range(0, bitlen(e)).foldl((eone(T), b, e), (s, i) =>
      (if (s._3 % 2 == 1) emul(T, s._1, s._2) else s._1, emul(T, s._2, s._2), s._3 / 2))._1
  // the field automorphism x -> x^p: fixes F_p, u -> u*beta^((p-1)/2), w -> w*xi^((p-1)/n)
  pure def frob1(T: Tower, a: Elt): Elt = range(0, T.n).foldl([], (l, k) =>
    l.append(m2(T.p, T.beta, (a[k]._1, (a[k]._2 * T.up) % T.p), T.wp[k])))
  pure def frob(T: Tower, a: Elt, e: int): Elt = range(0, e % (2 * T.n)).foldl(a, (x, i) => frob1(T, x))
  // inverse through the norm: x^-1 = prod of the other conjugates / N(x)
  pure def einv(T: Tower, a: Elt): Elt = {
    val s = range(1, 2 * T.n).foldl((a, eone(T)), (t, i) => { val f = frob1(T, t._1) (f, emul(T, t._2, f)) })
    val nrm = emul(T, a, s._2)[0]._1
    escale(T, s._2, (powmod(nrm, T.p - 2, T.p), 0))
  }
  pure def isz(T: Tower, a: Elt): bool = a == ezero(T)
  // coefficients in the library's nesting: c0.c0, c0.c1, ... for n = 6: position 3i+j is w^(2j+i)
  pure def pos(T: Tower, k: int): int = if (T.n < 6) k else 2 * (k % 3) + k / 3
  pure def flat(T: Tower, a: Elt): List[int] =
    range(0, T.n).foldl([], (l, k) => l.append(a[pos(T, k)]._1).append(a[pos(T, k)]._2))
  // easy part of the final exponentiation: a member of the cyclotomic subgroup (n = 6)
  pure def easy(T: Tower, a: Elt): Elt = {
    val t = emul(T, frob(T, a, 6), einv(T, a))
    emul(T, frob(T, t, 2), t)
  }
  // pseudo-random element biased to sparse and boundary coefficients
  pure def gen2(r: int, F: Field): P2 = {
    val m = (r / 2^640) % 8
    val x = genv(r, F)
    val y = genv(nxt(r), F)
    if (m == 0) (x, 0) else if (m == 1) (0, y) else if (m == 2) (x, x) else if (m == 3) (x, (F.p - x) % F.p) else (x, y)
  }
  pure def genE(r: int, T: Tower): (Elt, int) = {
    val mask = (r / 2^620) % 64
    val md = (r / 2^630) % 4
    val s = range(0, T.n).foldl(([], r), (s, k) => {
      val r2 = nxt(nxt(s._2))
      (s._1.append(if (md == 0 and (mask / 2^k) % 2 == 0 and T.n > 1) (0, 0) else gen2(r2, T.F)), r2)
    })
    (s._1, s._2)
  }
}
