// F01: a register machine over Z/p.  Registers live across operations; the replayer keeps the
// corresponding library objects alive, so every history is executed without re-normalisation.
module f01 {
  import nt.* from "./nt"
  import params.* from "./params"

  var fid: int
  var regs: List[int]
  var log: List[Op]

  pure val NR = 8
  pure val BATCH = 40

  type G = { r: int, regs: List[int], ops: List[Op] }

  pure def emit(g: G, F: Field, o: str, d: int, a: List[int], v: int): G =
    { ...g, regs: g.regs.replaceAt(d, v), ops: g.ops.append({ o: o, t: F.nm, a: a, e: [v, raw(F, v)] }) }

  // one operation, chosen and executed
  pure def oneOp(g0: G, F: Field): G = {
    val r = nxt(g0.r)
    val g = { ...g0, r: r }
    val p = F.p
    val k = (r / 2^200) % 32
    val d = (r / 2^210) % NR
    val i = (r / 2^220) % NR
    val j = (r / 2^230) % NR
    val f = (r / 2^240) % 6
    val x = g.regs[i]
    val y = g.regs[j]
    if (k < 7) emit(g, F, "load", d, [d], genv(r, F))
    else if (k < 10) emit(g, F, "add", d, [d, i, j, f], (x + y) % p)
    else if (k < 13) emit(g, F, "sub", d, [d, i, j, f], (x + p - y) % p)
    else if (k < 18) emit(g, F, "mul", d, [d, i, j, f], (x * y) % p)
    else if (k == 18) emit(g, F, "neg", d, [d, i, f], (p - x) % p)
    else if (k == 19) emit(g, F, "double", d, [d, i, f], (x + x) % p)
    else if (k == 20 or k == 21) emit(g, F, "square", d, [d, i, f], (x * x) % p)
    else if (k == 22) emit(g, F, "cube", d, [d, i], (((x * x) % p) * x) % p)
    else if (k == 23) { val c = (r / 2^250) % 2  emit(g, F, "select", d, [d, i, j, c], if (c == 1) y else x) }
    else if (k == 24) { val n = listLen(r) emit(g, F, "sum", d, [d, f, n, i, j], range(0, n).foldl(0, (s, q) => (s + g.regs[(i + q * j) % NR]) % p)) }
    else if (k == 25) { val n = listLen(r) emit(g, F, "product", d, [d, f, n, i, j], range(0, n).foldl(1, (s, q) => (s * g.regs[(i + q * j) % NR]) % p)) }
    else if (k == 26) {
      val n = (r / 2^250) % 40 + 1
      emit(g, F, "chain", d, [d, i, j, n], range(0, n).foldl(g.regs[d], (s, q) => (s * x + y) % p))
    }
    else if (k == 27) {
      val w = (r / 2^250) % 6
      val e = if (w == 0) (r / 2^260) % 4 else if (w == 1) 2^((r / 2^260) % 130) - 1 else if (w == 2) p - 1
              else if (w == 3) p - 2 else if (w == 4) (r / 2^260) % 2^64 else (r / 2^260) % 2^128
      emit(g, F, "pow", d, [d, i, f, e], powmod(x, e, p))
    }
    else if (k == 28) {
      // opposite / complement / neighbour in the internal form
      val c = (r / 2^300) % 10
      val top = 2^(64 * F.nl)
      val sm = { val z = (r / 2^310) % 6
        if (z == 0) (r / 2^320) % 4 else if (z == 1) (top - p + (r / 2^320) % 3 - 1) % p else if (z == 2) p - 1 - (r / 2^320) % 4
        else if (z == 3) (r / 2^320) % 2^34 else if (z == 4) (r / 2^320) % 2^((64 * F.nl) / 2) else patt(r, F.nl, p) % p }
      val rx = raw(F, x)
      val v = if (c == 0) (p - x) % p
              else if (c == 1) (((p - 1 + p - rx) % p) * F.Ri) % p
              else if (c == 2) (x + F.Ri) % p
              else if (c == 3) (x + p - F.Ri) % p
              else if (c == 4) (x + ((2^(64 * (f % F.nl)) % p) * F.Ri)) % p
              // internal forms that sum to the word boundary, or to just above the modulus
              else if (c == 5) (((top - rx + (r / 2^310) % 3 - 1) % p) * F.Ri) % p
              else if (c == 6) (((p - rx + sm) % p) * F.Ri) % p
              // a factor for which the internal form of the product is extreme
              else (((sm * F.Ri) % p) * inv(x, p)) % p
      if (c < 5 or x == 0) emit(g, F, "load", d, [d], v)
      else {
        val dd = (i + 1 + d % (NR - 1)) % NR
        val h = emit(g, F, "load", dd, [dd], v)
        val tt = j
        if (c < 7) emit(h, F, if (sm % 2 == 0) "add" else "sub", tt, [tt, i, dd, f], if (sm % 2 == 0) (x + v) % p else (x + p - v) % p)
        else emit(h, F, "mul", tt, [tt, i, dd, f], (x * v) % p)
      }
    }
    else if (k == 29) {
      // comparison of two registers, and of a register with a value differing in one internal limb
      val z = (x + ((2^((64 * f) % (64 * F.nl)) % p) * F.Ri)) % p
      { ...g, ops: g.ops.append({ o: "eq", t: F.nm, a: [i, j, z],
          e: [if (x == y) 1 else 0, if (x == z) 1 else 0, if (x == 0) 1 else 0, if (x == 1) 1 else 0] }) }
    }
    else if (k == 31)
      // random elements from a byte source that starts with a run of one byte: the representation is below p
      { ...g, ops: g.ops.append({ o: "rand", t: F.nm, a: [r % 2^64, (r / 2^250) % 100, if (f < 3) 255 else if (f == 3) 0 else (r / 2^260) % 256], e: [p] }) }
    else emit(g, F, "mulsub", d, [d, i, j, f], ((x * y) % p + p - g.regs[d]) % p)
  }

  pure def batch(r: int, F: Field, rs: List[int]): G =
    range(0, BATCH).foldl({ r: r, regs: rs, ops: [] }, (g, i) => oneOp(g, F))

  action init = {
    nondet f = 0.to(FIELDS.length() - 1).oneOf()
    all { fid' = f, regs' = [0, 1, 2, FIELDS[f].p - 1, FIELDS[f].R, FIELDS[f].Ri, FIELDS[f].p / 2, 7], log' = [0, 1, 2, FIELDS[f].p - 1, FIELDS[f].R, FIELDS[f].Ri, FIELDS[f].p / 2, 7].foldl([], (l, v) =>
      l.append({ o: "load", t: FIELDS[f].nm, a: [l.length()], e: [v, raw(FIELDS[f], v)] })) }
  }
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    val g = batch(s, FIELDS[fid], regs)
    all { fid' = fid, regs' = g.regs, log' = g.ops }
  }
  // every register is a canonical residue; logged internal forms are the canonical Montgomery images
  val invF01 = regs.select(v => v < 0 or v >= FIELDS[fid].p).length() == 0
        and log.select(o => o.o != "eq" and o.o != "rand" and (o.e[1] * FIELDS[fid].Ri) % FIELDS[fid].p != o.e[0]).length() == 0
}
