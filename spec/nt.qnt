// -*- mode: Bluespec; -*-
// Number theory and pseudo-randomness shared by every module of the specification.
// Integers are exact (arbitrary precision); no function here mirrors code of the
// library: each is the textbook definition.
module nt {
  // number of worker threads
  pure def workers(r: int): int = if ((r / 2^370) % 8 == 0) [24, 32, 64, 100][(r / 2^360) % 4] else 1 + (r / 2^360) % 17
  // length of a list to fold: mostly short, sometimes longer
  pure def listLen(r: int): int = {
    val m = (r / 2^400) % 8
    if (m < 4) (r / 2^410) % 12 else if (m < 6) 12 + (r / 2^410) % 60 else if (m == 6) 120 + (r / 2^410) % 20 else 250 + (r / 2^410) % 20
  }
  type Op = { o: str, t: str, a: List[int], e: List[int] }

  // a^e mod p by left-to-right square and multiply (nb = number of exponent bits)
  pure def bitlen(x: int): int = range(0, 12).foldl(0, (acc, i) => {
    val s = 2^(11 - i)
    if (x >= 2^(acc + s)) acc + s else acc
  }) + (if (x > 0) 1 else 0)

  pure def powmod(b: int, e: int, p: int): int = {
    val n = bitlen(e)
    range(0, n).foldl((1 % p, b % p, e), (s, i) =>
      (if (s._3 % 2 == 1) (s._1 * s._2) % p else s._1, (s._2 * s._2) % p, s._3 / 2))._1
  }

  // Extended Euclid: (gcd, x) with a*x = gcd mod m.  Bounded fold: at most 1.45*bitlen steps.
  pure def egcd(a: int, m: int): (int, int) = {
    val n = (bitlen(m) * 3) / 2 + 4
    val r = range(0, n).foldl((m, a % m, 0, 1), (s, i) =>
      if (s._2 == 0) s else {
        val q = s._1 / s._2
        (s._2, s._1 - q * s._2, s._4, s._3 - q * s._4)
      })
    (r._1, ((r._3 % m) + m) % m)
  }
  pure def inv(a: int, p: int): int = egcd(a, p)._2

  // Jacobi symbol (a/n), n odd positive
  pure def jacobi(a: int, n: int): int = {
    val steps = bitlen(n) * 3
    val r = range(0, steps).foldl((a % n, n, 1), (s, i) =>
      if (s._1 == 0) s
      else if (s._1 % 2 == 0) (s._1 / 2, s._2, if (s._2 % 8 == 3 or s._2 % 8 == 5) -s._3 else s._3)
      else (s._2 % s._1, s._1, if (s._1 % 4 == 3 and s._2 % 4 == 3) -s._3 else s._3))
    if (r._2 == 1) r._3 else 0
  }

  // ---- deterministic stream: one nondeterministic seed per step, decoded purely
  pure val RM = 2^704
  pure val RA = 0x2b5ad5c4795c026514f8317c7a215e218dccd6cf47a9b3c1d5e7f90123456789abcdef0fedcba98765432100112233445566778899aabbccddeeff1 * 2^64 + 5
  pure val RC = 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95
  pure def nxt(r: int): int = (r * RA + RC) % RM
  pure def rv(r: int, n: int): int = (r / 2^160) % n
}
