// F05: the exported wide integers LInt<L>: (64 L)-bit two's complement, wrapping.  A register machine
// over unsigned residues modulo 2^(64 L); the limb algorithms are modelled and checked at small scope.
module f05 {
  import nt.* from "./nt"

  var lid: int
  var regs: List[int]
  var log: List[Op]
  pure val LS = [1, 2, 3, 4, 5, 6, 7, 8, 9]
  pure val NM = ["lint1", "lint2", "lint3", "lint4", "lint5", "lint6", "lint7", "lint8", "lint9"]
  pure val NR = 6
  pure val BATCH = 24
  type G = { r: int, regs: List[int], ops: List[Op] }
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def md(i: int): int = 2^(64 * LS[i])
  pure def negative(i: int, x: int): bool = 2 * x >= md(i)
  pure def signed(i: int, x: int): int = if (negative(i, x)) x - md(i) else x
  pure def wrap(i: int, x: int): int = ((x % md(i)) + md(i)) % md(i)
  // floor division by 2^k
  pure def shift(x: int, k: int): int = if (x >= 0) x / 2^k else -((-x + 2^k - 1) / 2^k)

  // limbs that start, stop and carry carries
  pure def limb(r: int): int = {
    val m = (r / 2^200) % 8
    if (m == 0) 0 else if (m == 1) 2^64 - 1 else if (m == 2) 2^63 else if (m == 3) 2^63 - 1 else if (m == 4) (r / 2^210) % 3
    else if (m == 5) 2^64 - 1 - (r / 2^210) % 3 else (r / 2^210) % 2^64
  }
  pure def gen(r: int, n: int): int = {
    val m = (r / 2^180) % 12
    val k = (r / 2^190) % (64 * n)
    val lim = 2^(64 * n)
    if (m < 6) range(0, n).foldl((0, nxt(r + 3)), (s, q) => (s._1 * 2^64 + limb(s._2), nxt(s._2)))._1
    else if (m == 6) 2^k else if (m == 7) (lim - 2^k) % lim else if (m == 8) (2^k + lim - 1 + (r / 2^290) % 2) % lim
    else if (m == 9) (lim / 2 + (r / 2^290) % 5 + lim - 2) % lim
    else if (m == 10) (lim + (r / 2^290) % 9 - 4) % lim
    else (r / 2^64) % lim
  }
  pure def word(r: int): int = {
    val m = (r / 2^200) % 10
    val v = (r / 2^210) % 2^63
    if (m == 0) -2^63 else if (m == 1) 2^63 - 1 else if (m == 2) -1 else if (m == 3) 0 else if (m == 4) 1 else if (m == 5) -2^62
    else if (m == 6) -(v % 100) else if (m == 7) v % 2^((r / 2^300) % 63) else if (m == 8) -v else v
  }
  pure def emit(g: G, i: int, o: str, d: int, a: List[int], v: int): G =
    { ...g, regs: g.regs.replaceAt(d, v), ops: g.ops.append({ o: o, t: NM[i], a: a, e: [v] }) }
  pure def oneOp(g0: G, i: int): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val n = LS[i]
    val k = (r / 2^500) % 24
    val d = (r / 2^510) % NR
    val x = (r / 2^520) % NR
    val y = (r / 2^530) % NR
    val f = (r / 2^540) % 4
    val X = g.regs[x]
    val Y = g.regs[y]
    if (k < 5) { val c = if (k == 0) 1 + (r / 2^550) % n else n  emit(g, i, "lnew", d, [d, c], gen(nxt(nxt(r)), c)) }
    else if (k < 8) emit(g, i, "ladd", d, [d, x, y, f], wrap(i, X + Y))
    else if (k < 11) emit(g, i, "lsub", d, [d, x, y, f], wrap(i, X - Y))
    else if (k < 13) emit(g, i, "lneg", d, [d, x, f], wrap(i, -X))
    else if (k < 16) emit(g, i, "lmul", d, [d, x, y, f], wrap(i, X * Y))
    else if (k < 18) { val s = word(nxt(r)) emit(g, i, "lmuls", d, [d, x, s, f], wrap(i, X * s)) }
    else if (k < 21) { val s = 1 + (r / 2^550) % 63 emit(g, i, "lshr", d, [d, x, s, f], wrap(i, shift(signed(i, X), s))) }
    else if (k < 23) {
      // another number that differs from x in one bit
      val b = (r / 2^560) % (64 * n)
      val Z = if ((X / 2^b) % 2 == 1) X - 2^b else X + 2^b
      { ...g, ops: g.ops.append({ o: "lcmp", t: NM[i], a: [x, y, Z], e: [b2i(X == Y), b2i(negative(i, X)), b2i(X == 0), b2i(X == 1), b2i(X == md(i) - 1), b2i(negative(i, Z))] }) }
    }
    else { ...g, ops: g.ops.append({ o: "llen", t: NM[i], a: [(r / 2^550) % (n + 4)], e: [b2i((r / 2^550) % (n + 4) <= n)] }) }
  }
  pure def start(i: int): List[int] = [0, 1, md(i) - 1, md(i) / 2, md(i) / 2 - 1, 2^64 - 1]
  action at(i: int): bool = all {
    lid' = i, regs' = start(i), log' = start(i).foldl([], (l, v) => l.append({ o: "lnew", t: NM[i], a: [l.length(), LS[i]], e: [v] }))
  }
  action init = { nondet i = 0.to(LS.length() - 1).oneOf() at(i) }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val g = range(0, BATCH).foldl({ r: s, regs: regs, ops: [] }, (q, _) => oneOp(q, lid))
    all { lid' = lid, regs' = g.regs, log' = g.ops }
  }
  val okF05 = regs.foldl(true, (ok, x) => ok and x >= 0 and x < md(lid)
    and wrap(lid, signed(lid, x)) == x and wrap(lid, x + wrap(lid, -x)) == 0)

  // ---- the limb algorithms, base b (a power of two), little-endian digit lists
  pure def digits(x: int, b: int, n: int): List[int] = range(0, n).foldl(([], x), (s, _) => (s._1.append(s._2 % b), s._2 / b))._1
  pure def value(l: List[int], b: int): int = range(0, l.length()).foldl(0, (s, q) => s * b + l[l.length() - 1 - q])
  // x + y + c, digit by digit; y is complemented when `inverted`
  pure def addAlg(x: List[int], y: List[int], b: int, inverted: bool): List[int] =
    range(0, x.length()).foldl(([], if (inverted) 1 else 0), (s, q) => {
      val t = x[q] + (if (inverted) b - 1 - y[q] else y[q]) + s._2
      (s._1.append(t % b), t / b)
    })._1
  // truncated schoolbook product; the flag records that every partial sum fits two digits
  pure def mulAlg(x: List[int], y: List[int], b: int): (List[int], bool) = {
    val n = x.length()
    range(0, n).foldl((digits(0, b, n), true), (s, i) => {
      val w = range(0, n - i).foldl((s._1, 0, s._2), (u, k) => {
        val t = x[i] * y[k] + u._1[i + k] + u._2
        (u._1.replaceAt(i + k, t % b), t / b, u._3 and t < b * b)
      })
      (w._1, w._3)
    })
  }
  // product with a signed digit: a negative one multiplies the complement and starts from its magnitude
  pure def mulsAlg(x: List[int], s: int, b: int): List[int] = {
    val m = if (s < 0) -s else s
    x.foldl(([], if (s < 0) m else 0), (u, q) => {
      val t = (if (s < 0) b - 1 - q else q) * m + u._2
      (u._1.append(t % b), t / b)
    })._1
  }
  pure def shrAlg(x: List[int], k: int, b: int): List[int] = {
    val n = x.length()
    val neg = 2 * x[n - 1] >= b
    range(0, n).foldl([], (l, q) =>
      l.append((x[q] / 2^k + (if (q + 1 < n) x[q + 1] * (b / 2^k) else if (neg) (b - b / 2^k) else 0)) % b))
  }
  run limbAlgorithmsTest = all {
    assert(Set((2, 3), (4, 2), (8, 1), (4, 1)).forall(c => {
      val b = c._1
      val n = c._2
      val M = b^n
      0.to(M - 1).forall(x => 0.to(M - 1).forall(y => {
        val dx = digits(x, b, n)
        val dy = digits(y, b, n)
        val pr = mulAlg(dx, dy, b)
        value(addAlg(dx, dy, b, false), b) == (x + y) % M and value(addAlg(dx, dy, b, true), b) == (x + M - y) % M
        and value(pr._1, b) == (x * y) % M and pr._2
      }))
      and 0.to(M - 1).forall(x => {
        val dx = digits(x, b, n)
        val sx = if (2 * x >= M) x - M else x
        val lo = -(b / 2)
        lo.to(b / 2 - 1).forall(s => value(mulsAlg(dx, s, b), b) == (((x * s) % M) + M) % M)
        and 1.to(bitlen(b) - 2).forall(k => value(shrAlg(dx, k, b), b) == ((shift(sx, k) % M) + M) % M)
      })
    }))
  }
}
