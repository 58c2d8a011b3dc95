// F02: inverse, square root, sqrt_ratio, Legendre/Jacobi symbol - every prime field, and the
// exported generic routines for arbitrary odd moduli.
module f02 {
  import nt.* from "./nt"
  import params.* from "./params"

  var fid: int
  var log: List[Op]
  pure val BATCH = 16

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def b2i(b: bool): int = if (b) 1 else 0

  pure def euler(x: int, p: int): int = {
    val t = powmod(x, (p - 1) / 2, p)
    if (t == 0) 0 else if (t == 1) 1 else -1
  }
  // 2-adicity and odd part of p - 1
  pure def oddpart(n: int): int = range(0, 40).foldl(n, (m, i) => if (m % 2 == 0) m / 2 else m)

  // integers that stress gcd-like loops: below 2^bits
  pure def gint(r: int, bits: int, other: int): int = {
    val m = (r / 2^180) % 14
    val k = (r / 2^190) % bits
    val k2 = (r / 2^200) % bits
    val v = (r / 2^210) % 2^bits
    val lim = 2^bits
    if (m <= 2) v
    else if (m == 3) v % 2^(k + 1)
    else if (m == 4) 2^k
    else if (m == 5) 2^k - 1 + (v % 3)
    else if (m == 6) lim - 1 - (v % 8)
    else if (m == 7) (v / 2^k) * 2^k
    else if (m == 8) (2^k + 2^k2) % lim
    else if (m == 9) (other + (v % 5)) % lim
    else if (m == 10) (other * 2^(k % 5) + (v % 3)) % lim
    else if (m == 11) (other / (v % 7 + 1) + (v / 8) % 2) % lim
    else if (m == 12) ((other * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95) / 2^256) % lim
    else v % 64
  }

  pure def oneOp(g0: G, F: Field): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val p = F.p
    val k = (r / 2^165) % 18
    val x = genv(r, F)
    if (k <= 3) out(g, "inv", F.nm, [x], if (x == 0) [0, 0, 0] else { val y = powmod(x, p - 2, p) [1, y, raw(F, y)] })
    else if (k == 4) {
      // batch inversion of a short list (zeros are skipped)
      val n = (r / 2^170) % 5
      val xs = range(0, n).foldl({ r: r, l: [] }, (s, i) => { val q = nxt(s.r) { r: q, l: s.l.append(genv(q, F)) } })
      out({ ...g, r: xs.r }, "batchinv", F.nm, xs.l, xs.l.foldl([], (l, z) => l.append(powmod(z, p - 2, p))))
    }
    else if (k == 5) { val l = euler(x, p) out(g, "leg", F.nm, [x], [l]) }
    else if (k == 6) { val l = euler(x, p) out(g, "sqrt", F.nm, [x, p], [b2i(l >= 0)]) }
    else if (k == 7) { val y = (x * x) % p out(g, "sqrt", F.nm, [y, p], [1]) }
    else if (k == 8) { val y = (((x * x) % p) * F.g) % p out(g, "sqrt", F.nm, [y, p], [b2i(y == 0)]) }
    else if (k == 9) {
      // elements of small 2-power order times squares: the deep Tonelli-Shanks branches
      val t = oddpart(p - 1)
      val w = powmod(F.g, t * 2^((r / 2^170) % 34), p)
      val y = (w * (if ((r / 2^180) % 3 == 0) 1 else (x * x) % p)) % p
      out(g, "sqrt", F.nm, [y, p], [b2i(euler(y, p) >= 0)])
    }
    else if (k == 10 or k == 11) {
      val r2 = nxt(r)
      val c = (r / 2^170) % 4
      val y = if (c == 3) 0 else genv(r2, F)
      val x1 = if (c == 0) (((x * x) % p) * y) % p else if (c == 1) 0 else x
      val rt = powmod(F.g, oddpart(p - 1), p)
      val e = if (x1 == 0) [1, 0] else if (y == 0) [0, 0] else {
        val q = (x1 * powmod(y, p - 2, p)) % p
        if (euler(q, p) == 1) [1, q] else [0, (q * rt) % p]
      }
      out({ ...g, r: r2 }, "sqrtratio", F.nm, [x1, y, p], e)
    }
    else if (k <= 14) {
      // generic inverter: modulus odd > 1, both below 2^(62L-64)
      val L = (r / 2^170) % 8 + 2
      val bits = 62 * L - 64 - (if ((r / 2^600) % 3 == 0) 0 else (r / 2^610) % (62 * L - 67))
      val r2 = nxt(r)
      val r3 = nxt(r2)
      val c = (r / 2^620) % 4
      val m0 = if (c == 0) { val h = bits / 2 (2 * gint(r2, h, 3) + 1) * (2 * gint(r3, bits - h - 1, 3) + 1) }
               else 2 * gint(r2, bits - 1, 5) + 1
      val m1 = (m0 % 2^(62 * L - 64))
      val m = if (m1 <= 1) 3 else m1
      val x1 = gint(r3, bits, m)
      val x0 = if ((r / 2^650) % 3 == 0) x1 else x1 % m
      val v = if (c == 0 and (r / 2^630) % 2 == 0) ((2 * gint(r2, bits / 2, 3) + 1) * (x0 % 1000 + 1)) % m else x0
      val adj = if ((r / 2^640) % 2 == 0) 1 % m else (r3 / 2^170) % m
      val eg = egcd(v % m, m)
      out({ ...g, r: r3 }, "byinv", "gen", [L, m, adj, v], if (eg._1 == 1) [1, (eg._2 * adj) % m] else [0, 0])
    }
    else {
      val L = (r / 2^170) % 8 + 1
      val bits = 64 * L - 31 - (if ((r / 2^600) % 3 == 0) 0 else (r / 2^610) % (64 * L - 34))
      val r2 = nxt(r)
      val r3 = nxt(r2)
      val d = 2 * gint(r2, bits - 1, 5) + 1
      val c = (r / 2^620) % 5
      val n0 = gint(r3, bits, d)
      // a shared factor, possibly wider than one limb
      val n = if (c == 0) n0 % d else n0
      val sh = 2 * gint(nxt(r3), bits / 2, 7) + 1
      val dd = if (c == 1 and d * sh < 2^(64 * L - 31)) d * sh else d
      val nn = if (c == 1 and n * sh < 2^(64 * L - 31)) n * sh else n
      out({ ...g, r: r3 }, "jac", "gen", [L, nn, dd], [jacobi(nn, dd)])
    }
  }

  pure def batch(r: int, F: Field): List[Op] =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, F)).ops

  action init = {
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, log' = [] }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, log' = batch(s, FIELDS[f]) }
  }
  // the specification's own values satisfy the defining equations
  val okF02 = log.select(o =>
      (o.o == "inv" and o.e[0] == 1 and (o.a[0] * o.e[1]) % FIELDS[fid].p != 1)
   or (o.o == "byinv" and o.e[0] == 1 and (o.a[3] * o.e[1] + o.a[1] - o.a[2]) % o.a[1] != 0)).length() == 0
}
