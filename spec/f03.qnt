// F03: encodings as integer layouts.  A byte string s[0..n) is modelled as sum s[i]*256^i.
module f03 {
  import nt.* from "./nt"
  import params.* from "./params"

  var fid: int
  var log: List[Op]
  pure val BATCH = 24

  type G = { r: int, ops: List[Op] }
  pure def out(g: G, o: str, t: str, a: List[int], e: List[int]): G =
    { ...g, ops: g.ops.append({ o: o, t: t, a: a, e: e }) }
  pure def b2i(b: bool): int = if (b) 1 else 0

  pure def rev(b: int, n: int): int = range(0, n).foldl((0, b), (s, i) => (s._1 * 256 + s._2 % 256, s._2 / 256))._1

  // byte strings around the acceptance boundary
  pure def gbytes(r: int, F: Field): int = {
    val p = F.p
    val top = 2^(64 * F.nl)
    val m = (r / 2^180) % 12
    val d = (r / 2^190) % 4
    val k = (r / 2^200) % (64 * F.nl)
    val i = (r / 2^220) % F.nl
    val b =
      if (m == 0) p + d
      else if (m == 1) p - 1 - d
      else if (m == 2) p + 2^k
      else if (m == 3) p + top - 2^k
      else if (m == 4) genv(r, F) + p * ((r / 2^230) % 4 + 1)
      else if (m == 5) patt(r, F.nl, p)
      else if (m == 6) top - 1 - d
      // p with one limb replaced
      else if (m == 7) { val l = limb(p, i) val w = [0, W - 1, (l + 1) % W, (l + W - 1) % W][d] p + (w - l) * 2^(64 * i) }
      else if (m == 8) { val l = limb(p, i) p - l * 2^(64 * i) + ((r / 2^240) % W) * 2^(64 * i) }
      else if (m == 9) genv(r, F)
      else if (m == 10) (r / 2^240) % top
      else (p / 2 + d) * ((r / 2^240) % 5)
    b % top
  }

  pure def oneOp(g0: G, F: Field): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val p = F.p
    val n = 8 * F.nl
    val k = (r / 2^165) % 10
    if (k <= 3) {
      val v = genv(r, F)
      val bytes = if (F.be) rev(v, n) else v
      out(g, "enc", F.nm, [v], [v, bytes, raw(F, v), v % 2, b2i(v > (p - v) % p)])
    }
    else if (k <= 7) {
      val b = gbytes(r, F)
      val be = if (F.be) rev(b, n) else b
      val rw = (b % p * F.Ri) % p
      // accept flag and value: LE repr, inherent/EndianRepr bytes, raw limbs
      out(g, "dec", F.nm, [b], [b2i(b < p), b % p, b2i(be < p), be % p, b2i(b < p), rw])
    }
    else if (k == 8) {
      // wrong lengths on the variable-length interfaces
      val c = (r / 2^170) % 6
      val len = if (c == 0) 0 else if (c == 1) n - 1 else if (c == 2) n + 1 else if (c == 3) n - 8 else if (c == 4) 2 * n else (r / 2^175) % (2 * n)
      val b = genv(r, F)
      out(g, "len", F.nm, [b, len], [b2i(len == n), b2i(len >= n), if (len >= n) b else 0])
    }
    else {
      val x = genv(r, F)
      val r2 = nxt(r)
      val c = (r / 2^170) % 4
      val y0 = genv(r2, F)
      val y = if (c == 0) x else if (c == 1) (p - x) % p else if (c == 2) (x + 2^((r / 2^180) % F.nb)) % p else y0
      out({ ...g, r: r2 }, "cmp", F.nm, [x, y], [if (x < y) -1 else if (x == y) 0 else 1])
    }
  }
  pure def batch(r: int, F: Field): List[Op] =
    range(0, BATCH).foldl({ r: r, ops: [] }, (g, i) => oneOp(g, F)).ops

  action init = {
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, log' = [{ o: "char", t: FIELDS[f].nm, a: [], e: [FIELDS[f].p] }] }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, log' = batch(s, FIELDS[f]) }
  }
  // each encoding is injective on the values of a batch; decode inverts encode
  val okF03 = log.select(o => o.o == "enc").forall2(o =>
      and { o.e[0] < FIELDS[fid].p, (if (FIELDS[fid].be) rev(o.e[1], 8 * FIELDS[fid].nl) else o.e[1]) == o.e[0],
            (o.e[2] * FIELDS[fid].Ri) % FIELDS[fid].p == o.e[0] })
  pure def forall2(l: List[Op], f: (Op) => bool): bool = l.foldl(true, (b, o) => b and f(o))
}
