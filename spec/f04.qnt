// F04: integers, wide byte strings, decimal strings and constants map to residues.
module f04 {
  import nt.* from "./nt"
  import params.* from "./params"

  var fid: int
  var log: List[Op]
  var n: int
  pure val BATCH = 24

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def val2(F: Field, v: int): List[int] = [v % F.p, raw(F, v % F.p)]

  // integers below 2^bits: boundaries, patterns, multiples of p
  pure def gint(r: int, bits: int, F: Field): int = {
    val m = (r / 2^170) % 10
    val k = (r / 2^175) % bits
    val d = (r / 2^190) % 5
    val t = 2^bits
    val big = (r / 2^160) + (nxt(r) / 2^160) * 2^540
    if (m <= 2) big % t
    else if (m == 3) big % 2^(k + 1)
    else if (m == 4) (2^k + d - 2 + t) % t
    else if (m == 5) t - 1 - d
    else if (m == 6) (patt(r, F.nl, F.p) + patt(nxt(r), F.nl, F.p) * 2^(64 * F.nl)) % t
    else if (m == 7) (F.p * ((big % 2^((r / 2^200) % bits + 1)) / 2^(if (F.nb < bits) 0 else 0)) + d) % t
    else if (m == 8) (F.p * ((r / 2^200) % 2^d) + (r / 2^210) % 3 + t - 1) % t
    else (r / 2^200) % 70000 % t
  }

  pure def oddpart(x: int): int = range(0, 40).foldl(x, (m, i) => if (m % 2 == 0) m / 2 else m)
  pure def twos(x: int): int = range(0, 40).foldl((x, 0), (m, i) => if (m._1 % 2 == 0) (m._1 / 2, m._2 + 1) else m)._2

  pure def oneOp(g0: G, F: Field): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val k = (r / 2^165) % 12
    if (k <= 1) { val v = gint(r, 64, F) out(g, "u64", F.nm, [v], val2(F, v)) }
    else if (k <= 3) { val v = gint(r, 128, F) out(g, "u128", F.nm, [v], val2(F, v)) }
    else if (k == 4) { val v = (r / 2^200) % 2 out(g, "bool", F.nm, [v], val2(F, v)) }
    else if (k <= 6) { val v = gint(r, 64 * F.nl, F) out(g, "limbs", F.nm, [v], val2(F, v)) }
    else if (k <= 10) {
      val sz = F.uni[(r / 2^240) % F.uni.length()]
      val v = gint(r, 8 * sz, F)
      out(g, "uniform", F.nm, [sz, v], val2(F, v))
    }
    else {
      // decimal strings: mode 0 plain, 1 leading zero, 2 empty, 3 stray character
      val md = (r / 2^250) % 6
      val v = gint(r, 64 * F.nl + 40, F)
      out(g, "str", F.nm, [if (md > 3) 0 else md, v],
        if (md == 1 or md == 2 or md == 3) [0, 0, 0] else [1, v % F.p, raw(F, v % F.p)])
    }
  }
  pure def batch(r: int, F: Field): List[Op] =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, F)).ops

  pure def consts(F: Field): Op = {
    val p = F.p
    val s = twos(p - 1)
    val t = oddpart(p - 1)
    val w = powmod(F.g, t, p)
    val z = powmod(F.g, (p - 1) / 3, p)
    { o: "const", t: F.nm, a: [], e: [p, F.nb, F.nb - 1, F.g, s, w, powmod(w, p - 2, p), powmod(F.g, 2^s, p),
       (p + 1) / 2, z, (z * z) % p, F.nl, 8 * F.nl] }
  }
  // a run of consecutive small integers (covers the table of the bn256-table build)
  pure def tableOp(F: Field, lo: int, m: int): Op =
    { o: "u64range", t: F.nm, a: [lo, m], e: range(lo, lo + m).foldl([], (l, v) => l.append(raw(F, v % F.p))) }

  action init = {
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, n' = 0, log' = range(0, FIELDS.length()).foldl([], (l, i) => l.append(consts(FIELDS[i]))) }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, n' = n + 1, log' = batch(s, FIELDS[f]) }
  }
  // separate machine: the complete table, 1024 entries per step
  action initT = all { fid' = 0, n' = 0, log' = [] }
  action stepT = all { fid' = 0, n' = n + 1, log' = [tableOp(FIELDS[0], 1024 * n, 1024)] }

  // constants satisfy their defining equations
  val okF04 = log.foldl(true, (b, o) => b and (o.o != "const" or and {
      powmod(o.e[5], 2^o.e[4], o.e[0]) == 1, powmod(o.e[5], 2^(o.e[4] - 1), o.e[0]) == o.e[0] - 1,
      (o.e[5] * o.e[6]) % o.e[0] == 1, (2 * o.e[8]) % o.e[0] == 1, powmod(o.e[9], 3, o.e[0]) == 1, o.e[9] != 1 }))
}
