// -*- mode: Bluespec; -*-
// T01, design model: the in-place fast Fourier transform as a set of fork/join tasks under every interleaving
// of single butterflies.  A block is a task: it forks its two halves, and when both have joined it combines
// them element by element.  Checked in every state of every schedule: a finished block holds the transform of
// the coefficients it was given (those whose index ends in the reversed bits of its position), an untouched
// block still holds its coefficients, and two tasks that may run at the same time touch disjoint cells.
// A small prime with 16-th roots of unity keeps the arithmetic exact and every root reachable.
module fftalg {
  pure val P = 97                                     // 96 = 32 * 3
  pure def pw(b: int, e: int): int = range(0, e).foldl(1, (a, i) => (a * b) % P)
  pure val G16 = pw(5, 6)                             // 5 generates Z/97*
  type Node = { st: int, k: int }                     // 0 not started, 1 forked, 2 combining cell k, 3 joined
  type Blk = { lo: int, len: int }

  var n: int
  var omega: int
  var input: List[int]
  var arr: List[int]
  var nodes: Blk -> Node

  pure def rev(k: int, n0: int): int = range(0, 4).foldl((0, k), (s, i) => if (2^i < n0) (2 * s._1 + s._2 % 2, s._2 / 2) else s)._1
  // blocks of at least two cells
  pure def blocks(n0: int): Set[Blk] = Set(2, 4, 8, 16).filter(l => l <= n0).map(l => 0.to(n0 / l - 1).map(i => { lo: i * l, len: l })).flatten()
  pure def dft(c: List[int], w: int): List[int] =
    range(0, c.length()).foldl((1, []), (z, k) => ((z._1 * w) % P, z._2.append(
      // Horner at w^k
      range(0, c.length()).foldl(0, (s, j) => (s * z._1 + c[c.length() - 1 - j]) % P))))._2
  // the coefficients a block of the reversed array starts from, in natural order of the subsequence
  pure def coeffs(v: List[int], n0: int, b: Blk): List[int] =
    range(0, b.len).foldl([], (l, j) => l.append(v[rev(b.lo + rev(j, b.len), n0)]))

  action init = {
    nondet lg = 1.to(4).oneOf()
    nondet odd = Set(1, 3, 5, 7, 9, 11, 13, 15).oneOf()
    nondet seed = 0.to(97^4 - 1).oneOf()
    nondet dense = 0.to(2).oneOf()
    val m = 2^lg
    val v = range(0, m).foldl([], (l, i) =>
      l.append(if (dense == 0) (if (i == seed % m) 1 else 0) else if (dense == 1) pw(seed % 96 + 1, i) else (seed / pw2(i % 4) + 7 * i * i + 3 * i * seed) % P))
    all { n' = m, omega' = pw(G16, (16 / m) * odd), input' = v,
          arr' = range(0, m).foldl([], (l, i) => l.append(v[rev(i, m)])),
          nodes' = blocks(m).mapBy(b => { st: 0, k: 0 }) }
  }
  pure def pw2(i: int): int = 97^i
  def kids(b: Blk): Set[Blk] = Set({ lo: b.lo, len: b.len / 2 }, { lo: b.lo + b.len / 2, len: b.len / 2 })
  def joined(b: Blk): bool = b.len == 1 or nodes.get(b).st == 3
  // forked by its parent (the whole array is started by the caller)
  def started(b: Blk): bool = b.len == n or nodes.get({ lo: b.lo - b.lo % (2 * b.len), len: 2 * b.len }).st == 1
  def runnable(b: Blk): bool = started(b) and (nodes.get(b).st == 0 or (nodes.get(b).st == 1 and kids(b).forall(joined)) or nodes.get(b).st == 2)
  action fork = {
    nondet b = blocks(n).filter(b => started(b) and nodes.get(b).st == 0).oneOf()
    all { nodes' = nodes.set(b, { st: if (b.len == 2) 2 else 1, k: 0 }), arr' = arr, input' = input, n' = n, omega' = omega }
  }
  action join = {
    nondet b = blocks(n).filter(b => nodes.get(b).st == 1 and kids(b).forall(joined)).oneOf()
    all { nodes' = nodes.set(b, { st: 2, k: 0 }), arr' = arr, input' = input, n' = n, omega' = omega }
  }
  // one butterfly of one block
  action butterfly = {
    nondet b = blocks(n).filter(b => nodes.get(b).st == 2).oneOf()
    val k = nodes.get(b).k
    val h = b.len / 2
    val x = arr[b.lo + k]
    val t = (arr[b.lo + h + k] * pw(omega, (k * (n / b.len)) % n)) % P
    all {
      arr' = arr.replaceAt(b.lo + k, (x + t) % P).replaceAt(b.lo + h + k, (x + P - t) % P),
      nodes' = nodes.set(b, if (k + 1 == h) { st: 3, k: 0 } else { st: 2, k: k + 1 }),
      input' = input, n' = n, omega' = omega
    }
  }
  def done = nodes.get({ lo: 0, len: n }).st == 3
  action stay = all { done, nodes' = nodes, arr' = arr, input' = input, n' = n, omega' = omega }
  action step = if (done) stay else any { fork, join, butterfly }

  // progress: an unfinished computation can always move
  def progress = done or blocks(n).exists(runnable)
  def finished = blocks(n).filter(b => nodes.get(b).st == 3 and not(outer(b))).forall(b =>
    arr.slice(b.lo, b.lo + b.len) == dft(coeffs(input, n, b), pw(omega, n / b.len)))
  // an enclosing block has begun to overwrite the cells
  def outer(b: Blk): bool = blocks(n).exists(c => c.len > b.len and b.lo - b.lo % c.len == c.lo and (nodes.get(c).st == 3 or (nodes.get(c).st == 2 and nodes.get(c).k > 0)))
  def untouched = range(0, n).foldl(true, (ok, i) => ok and
    (blocks(n).forall(b => (i >= b.lo and i < b.lo + b.len) implies nodes.get(b).st < 2) implies arr[i] == input[rev(i, n)]))
  def disjoint = blocks(n).filter(b => nodes.get(b).st == 2).forall(b => blocks(n).filter(c => nodes.get(c).st == 2).forall(c =>
    b == c or b.lo + b.len <= c.lo or c.lo + c.len <= b.lo))
  def result = done implies arr == dft(input, omega)
  def okFft = progress and finished and untouched and disjoint and result

  // transforming with the inverse root and dividing by the length restores the input: every size, every root
  run inverseTest = assert(Set(2, 4, 8, 16).forall(m => Set(1, 3, 5, 7, 9, 11, 13, 15).forall(o => {
    val w = pw(G16, (16 / m) * o)
    val v = range(0, m).foldl([], (l, i) => l.append((i * i * 31 + 5 * o + i) % P))
    val u = dft(dft(v, w), pw(w, m - 1))
    range(0, m).foldl(true, (ok, i) => ok and u[i] == (v[i] * m) % P) })))
  run rootsTest = assert(Set(2, 4, 8, 16).forall(m => Set(1, 3, 5, 7, 9, 11, 13, 15).forall(o =>
    pw(G16, (16 / m) * o * m) == 1 and pw(G16, (16 / m) * o * (m / 2)) == P - 1)))
}
