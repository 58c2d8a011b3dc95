// -*- mode: Bluespec; -*-
// F01, F04, design model: multi-word Montgomery arithmetic, one action per word operation, with a parametric
// word size and number of words, so that small instances drive every carry.
//   product (or, for a wide reduction, any 2L-word number) -> L rounds of adding k_i p 2^(w i) -> one conditional
//   subtraction; and addition, subtraction, negation as word chains with carry or borrow.
// Checked in every state: every word is a word, carries are 0 or 1 between rounds, the number held stays congruent
// to the input, its low words vanish; the result is the canonical residue even for moduli that use every bit.
module mont {
  import nt.* from "./nt"
  type S = { op: int, w: int, L: int, p: int, a: int, b: int, inp: int,      // inp: the wide number to reduce
             t: List[int], i: int, j: int, k: int, c: int, c2: int, out: List[int], bor: int }
  var s: S

  pure def word(x: int, i: int, w: int): int = (x / 2^(w * i)) % 2^w
  pure def words(x: int, n: int, w: int): List[int] = range(0, n).foldl([], (l, i) => l.append(word(x, i, w)))
  pure def num(l: List[int], w: int): int = range(0, l.length()).foldl(0, (z, i) => z + l[i] * 2^(w * i))

  // op 0: product of two residues; 1: any number below R p; 2: plain residue (leaving the internal form);
  // 3: addition; 4: subtraction; 5: negation
  action init = {
    nondet op = 0.to(5).oneOf()
    nondet w = Set(2, 3, 4, 8, 64).oneOf()
    nondet L = 1.to(4).oneOf()
    nondet r = 0.to(RM - 1).oneOf()
    val R = 2^(w * L)
    // moduli that use every bit, one bit less, or anything
    val c = (r / 2^20) % 6
    val p0 = if (c == 0) R - 1 - 2 * ((r / 2^30) % (R / 8 + 1)) else if (c == 1) R / 2 + 1 + 2 * ((r / 2^30) % 4) else if (c == 2) R / 2 - 1 - 2 * ((r / 2^30) % (R / 16 + 1)) else 2 * ((r / 2^30) % (R / 2)) + 1
    val p = if (p0 < 3) 3 else if (p0 >= R) R - 1 else p0
    def pick(z: int): int = { val m = z % 6 if (m == 0) p - 1 - (z / 8) % minI(p, 3) else if (m == 1) (z / 8) % minI(p, 3) else if (m == 2) (R - 1 - (z / 8) % 3) % p else (z / 8) % p }
    val a = pick(r / 2^350)
    // opposite, complementary, or free second operand
    val b0 = pick(r / 2^40)
    val b = if ((r / 2^11) % 4 == 0) (2 * p - a + (r / 2^14) % 3 - 1) % p else if ((r / 2^11) % 4 == 1) (2 * R * p + R - a + (r / 2^14) % 3 - 1) % p else b0
    val x = if (op == 0) a * b else if (op == 1) (if ((r / 2^17) % 3 == 0) R * p - 1 - (r / 2^400) % 5 else (r / 2^60) % (R * p)) else a
    s' = { op: op, w: w, L: L, p: p, a: a, b: b, inp: x, t: words(x, 2 * L, w), i: 0, j: 0, k: 0, c: 0, c2: 0, out: [], bor: 0 }
  }
  pure def minI(x: int, y: int): int = if (x < y) x else y
  pure def neginv(S0: S): int = { val m = 2^S0.w (m - inv(S0.p % m, m)) % m }

  // ---- reduction, word by word
  action mac = all {
    s.op <= 2, s.i < s.L, s.j < s.L,
    val k = if (s.j == 0) (s.t[s.i] * neginv(s)) % 2^s.w else s.k
    val v = s.t[s.i + s.j] + k * word(s.p, s.j, s.w) + (if (s.j == 0) 0 else s.c)
    s' = { ...s, k: k, t: s.t.replaceAt(s.i + s.j, v % 2^s.w), c: v / 2^s.w, j: s.j + 1 }
  }
  action carryOut = all {
    s.op <= 2, s.i < s.L, s.j == s.L,
    val v = s.t[s.i + s.L] + s.c2 + s.c
    s' = { ...s, t: s.t.replaceAt(s.i + s.L, v % 2^s.w), c2: v / 2^s.w, c: 0, i: s.i + 1, j: 0 }
  }
  // ---- addition: chain of carries
  action addW = all {
    s.op == 3, s.j < s.L, s.i == 0,
    val v = word(s.a, s.j, s.w) + word(s.b, s.j, s.w) + s.c
    s' = { ...s, t: s.t.replaceAt(s.L + s.j, v % 2^s.w), c: v / 2^s.w, j: s.j + 1,
           i: if (s.j + 1 == s.L) s.L else 0, c2: if (s.j + 1 == s.L) v / 2^s.w else 0 }
  }
  // conditional subtraction of the modulus from (c2, t[L..2L-1]); ends with the borrow out of c2
  def inSub = (s.op <= 2 and s.i == s.L) or (s.op == 3 and s.i == s.L)
  action subP = all {
    inSub, s.out.length() < s.L,
    val q = s.out.length()
    val v = s.t[s.L + q] - word(s.p, q, s.w) - s.bor
    s' = { ...s, out: s.out.append((v + 2^s.w) % 2^s.w), bor: if (v < 0) 1 else 0, j: s.L }
  }
  action fix = all {
    inSub, s.out.length() == s.L,
    val neg = s.c2 - s.bor < 0
    s' = { ...s, i: s.L + 1, k: 0, out: if (neg) words((num(s.out, s.w) + s.p) % 2^(s.w * s.L), s.L, s.w) else s.out }
  }
  // ---- subtraction and negation: chain of borrows, then add the modulus back if the last one is set
  action subW = all {
    (s.op == 4 or s.op == 5), s.i == 0, s.j < s.L,
    val x = if (s.op == 4) s.a else s.p
    val y = if (s.op == 4) s.b else s.a
    val v = word(x, s.j, s.w) - word(y, s.j, s.w) - s.bor
    s' = { ...s, out: s.out.append((v + 2^s.w) % 2^s.w), bor: if (v < 0) 1 else 0, j: s.j + 1, i: if (s.j + 1 == s.L) s.L else 0 }
  }
  action backW = all {
    (s.op == 4 or s.op == 5), s.i == s.L,
    s' = { ...s, i: s.L + 1, out: if (s.op == 5) (if (s.a == 0) words(0, s.L, s.w) else s.out)
           else if (s.bor == 1) words((num(s.out, s.w) + s.p) % 2^(s.w * s.L), s.L, s.w) else s.out }
  }
  def done = s.i == s.L + 1
  action again = all { done, init }
  action step = any { mac, carryOut, addW, subP, fix, subW, backW, again }

  def R = 2^(s.w * s.L)
  def wordsOk = s.t.select(x => x < 0 or x >= 2^s.w).length() == 0 and s.out.select(x => x < 0 or x >= 2^s.w).length() == 0
  def carries = s.c2 <= 1 and s.c2 >= 0 and s.c >= 0 and s.c < 2^s.w and (s.j == 0 or s.op == 3 implies s.c <= 1)
  // the number held, with its pending carries at their places, is the input plus a multiple of p, below 2 R p
  def held = num(s.t, s.w) + (if (s.j > 0 and s.j <= s.L and s.i < s.L) s.c * 2^(s.w * (s.i + s.j)) else 0) + s.c2 * 2^(s.w * (s.L + s.i))
  // what the round in progress has still to add
  def rest = if (s.i < s.L and s.j > 0) s.k * (s.p - s.p % 2^(s.w * s.j)) * 2^(s.w * s.i) else 0
  def congruent = (s.op <= 2 and s.i <= s.L) implies ((held + rest - s.inp) % s.p == 0 and held < 2 * R * s.p and
    range(0, s.i).foldl(true, (ok, q) => ok and s.t[q] == 0))
  def result = done implies {
    val v = num(s.out, s.w)
    v >= 0 and v < s.p and (
      if (s.op <= 2) (v * R - s.inp) % s.p == 0
      else if (s.op == 3) v == (s.a + s.b) % s.p
      else if (s.op == 4) v == (s.a + s.p - s.b) % s.p
      else v == (s.p - s.a) % s.p)
  }
  val okMont = wordsOk and carries and congruent and result
}
