// Design model of the batched bucket accumulation: a bucket is touched by at most one pending
// addition; additions that would touch a pending bucket go to a second table; a full batch is
// executed in one go.  Points are elements of a small cyclic group Z_M (0 = identity, never a base).
// Checked: the weighted total of buckets + pending + second table is always the sum of what was fed in,
// a pending bucket is never empty, and one execution never needs two additions into one bucket.
module sched {
  pure val M = 5
  pure val NB = 2
  pure val CAP = 2
  var buckets: List[int]                      // value of each bucket, 0 = none
  var pending: List[{ b: int, p: int }]
  var second: List[int]
  var fed: List[int]                          // what each bucket should hold in the end
  var emptied: bool

  action init = all {
    buckets' = [0, 0], pending' = [], second' = [0, 0], fed' = [0, 0], emptied' = false
  }
  pure def exec(bs: List[int], ps: List[{ b: int, p: int }]): List[int] =
    ps.foldl(bs, (s, x) => s.replaceAt(x.b, (s[x.b] + x.p) % M))
  action feed = {
    nondet b = 0.to(NB - 1).oneOf()
    nondet p = 1.to(M - 1).oneOf()
    val isPending = pending.select(x => x.b == b).length() > 0
    val ps = pending.append({ b: b, p: p })
    all {
      fed' = fed.replaceAt(b, (fed[b] + p) % M),
      emptied' = emptied,
      if (isPending) all { second' = second.replaceAt(b, (second[b] + p) % M), buckets' = buckets, pending' = pending }
      else if (buckets[b] == 0) all { second' = second, buckets' = buckets.replaceAt(b, p), pending' = pending }
      else if (ps.length() == CAP) all { second' = second, buckets' = exec(buckets, ps), pending' = [] }
      else all { second' = second, buckets' = buckets, pending' = ps }
    }
  }
  action flush = all {
    buckets' = exec(buckets, pending), pending' = [], second' = second, fed' = fed,
    emptied' = pending.select(x => (buckets[x.b] + x.p) % M == 0).length() > 0
  }
  action step = any { feed, flush }
  val totals = range(0, NB).foldl(true, (ok, b) =>
    ok and (exec(buckets, pending)[b] + second[b]) % M == fed[b])
  val noEmptyPending = pending.select(x => buckets[x.b] == 0).length() == 0
  val onePerBucket = range(0, NB).foldl(true, (ok, b) => ok and pending.select(x => x.b == b).length() <= 1)
  val okSched = totals and noEmptyPending and onePerBucket and pending.length() < CAP

  // The invariant is inductive: checked on EVERY state of this instance that satisfies it (all bucket values,
  // all second tables, all pending batches below capacity) and every input.
  type S = { bs: List[int], ps: List[{ b: int, p: int }], se: List[int] }
  pure def total(s: S, b: int): int = (exec(s.bs, s.ps)[b] + s.se[b]) % M
  pure def good(s: S): bool = and {
    s.ps.select(x => s.bs[x.b] == 0).length() == 0,
    range(0, NB).foldl(true, (ok, b) => ok and s.ps.select(x => x.b == b).length() <= 1),
    s.ps.length() < CAP
  }
  pure def fed1(s: S, b: int, p: int): S = {
    val ps = s.ps.append({ b: b, p: p })
    if (s.ps.select(x => x.b == b).length() > 0) { ...s, se: s.se.replaceAt(b, (s.se[b] + p) % M) }
    else if (s.bs[b] == 0) { ...s, bs: s.bs.replaceAt(b, p) }
    else if (ps.length() == CAP) { ...s, bs: exec(s.bs, ps), ps: [] }
    else { ...s, ps: ps }
  }
  pure val V = 0.to(M - 1)
  pure val PS = 0.to(NB - 1).map(b => 1.to(M - 1).map(p => [{ b: b, p: p }])).flatten().union(Set([]))
  pure val ALL = tuples(V, V, V, V, PS).map(t => { bs: [t._1, t._2], ps: t._5, se: [t._3, t._4] }).filter(s => good(s))
  run inductiveTest = all {
    assert(ALL.size() > 3000),
    assert(ALL.forall(s => 0.to(NB - 1).forall(b => 1.to(M - 1).forall(p => {
      val t = fed1(s, b, p)
      good(t) and range(0, NB).foldl(true, (ok, c) => ok and total(t, c) == (total(s, c) + (if (c == b) p else 0)) % M)
    }))))
  }
}
