// SHA-256 (FIPS 180-4) on lists of bytes.  Quint has no bit operations: three-input bit functions are
// table lookups on nibbles.
module sha {
  import nt.* from "./nt"

  pure def bit(v: int, i: int): int = (v / 2^i) % 2
  pure def table3(f: (int, int, int) => int): List[int] =
    range(0, 4096).foldl([], (l, k) => l.append(
      range(0, 4).foldl(0, (s, i) => s + 2^i * f(bit(k / 256, i), bit(k / 16, i), bit(k, i)))))
  pure val T_XOR = table3((a, b, c) => (a + b + c) % 2)
  pure val T_CH = table3((a, b, c) => if (a == 1) b else c)
  pure val T_MAJ = table3((a, b, c) => if (a + b + c >= 2) 1 else 0)
  pure val NIB = range(0, 8).foldl([], (l, i) => l.append(16^i))
  pure def bits3(t: List[int], a: int, b: int, c: int): int =
    NIB.foldl(0, (s, w) => s + w * t[256 * ((a / w) % 16) + 16 * ((b / w) % 16) + (c / w) % 16])

  pure val W32 = 2^32
  pure def rotr(x: int, r: int): int = x / 2^r + (x % 2^r) * 2^(32 - r)
  pure def bigSig0(x: int): int = bits3(T_XOR, rotr(x, 2), rotr(x, 13), rotr(x, 22))
  pure def bigSig1(x: int): int = bits3(T_XOR, rotr(x, 6), rotr(x, 11), rotr(x, 25))
  pure def sig0(x: int): int = bits3(T_XOR, rotr(x, 7), rotr(x, 18), x / 2^3)
  pure def sig1(x: int): int = bits3(T_XOR, rotr(x, 17), rotr(x, 19), x / 2^10)

  // The constants are the fractional parts of cube and square roots of the first primes.
  pure def primesUpTo(n: int): List[int] =
    range(2, n + 1).foldl([], (l, k) => if (l.foldl(true, (ok, p) => ok and k % p != 0)) l.append(k) else l)
  pure val PR = primesUpTo(311)
  pure def root(e: int, v: int, bits: int): int =        // floor of the e-th root
    range(0, bits).foldl((0, 2^(bits - 1)), (s, _) => (if ((s._1 + s._2)^e <= v) s._1 + s._2 else s._1, s._2 / 2))._1
  pure val K = PR.foldl([], (l, p) => l.append(root(3, p * 2^96, 36) % W32))
  pure val H0 = PR.slice(0, 8).foldl([], (l, p) => l.append(root(2, p * 2^64, 38) % W32))

  type St = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }
  pure def block(hs: List[int], m: List[int]): List[int] = {
    val w = range(16, 64).foldl(m, (l, t) =>
      l.append((sig1(l[t - 2]) + l[t - 7] + sig0(l[t - 15]) + l[t - 16]) % W32))
    val s = range(0, 64).foldl({ a: hs[0], b: hs[1], c: hs[2], d: hs[3], e: hs[4], f: hs[5], g: hs[6], h: hs[7] }, (z, t) => {
      val t1 = z.h + bigSig1(z.e) + bits3(T_CH, z.e, z.f, z.g) + K[t] + w[t]
      val t2 = bigSig0(z.a) + bits3(T_MAJ, z.a, z.b, z.c)
      { a: (t1 + t2) % W32, b: z.a, c: z.b, d: z.c, e: (z.d + t1) % W32, f: z.e, g: z.f, h: z.g }
    })
    [(hs[0] + s.a) % W32, (hs[1] + s.b) % W32, (hs[2] + s.c) % W32, (hs[3] + s.d) % W32,
     (hs[4] + s.e) % W32, (hs[5] + s.f) % W32, (hs[6] + s.g) % W32, (hs[7] + s.h) % W32]
  }
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, _) => l.append(0))
  // big-endian digits of a number in base 256
  pure def be(v: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append((v / 256^(n - 1 - i)) % 256))
  pure def beInt(l: List[int]): int = l.foldl(0, (s, b) => 256 * s + b)
  pure def sha256(msg: List[int]): List[int] = {
    val n = msg.length()
    val z = (119 - n % 64) % 64                     // zero bytes after 0x80 so that the total is a multiple of 64
    val p = msg.append(128).concat(zeros(z)).concat(be(8 * n, 8))
    val hs = range(0, p.length() / 64).foldl(H0, (h, i) =>
      block(h, range(0, 16).foldl([], (l, j) => l.append(beInt(p.slice(64 * i + 4 * j, 64 * i + 4 * j + 4))))))
    hs.foldl([], (l, w) => l.concat(be(w, 4)))
  }
  run shaTest = all {
    assert(PR.length() == 64),
    assert(K[0] == 0x428a2f98), assert(K[63] == 0xc67178f2), assert(H0[7] == 0x5be0cd19),
    // FIPS 180-4 / NIST examples
    assert(beInt(sha256([])) == 0xe3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855),
    assert(beInt(sha256([97, 98, 99])) == 0xba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad),
    assert(beInt(sha256(range(0, 56).foldl([], (l, i) => l.append(97 + i / 4 + i % 4))))
      == 0x248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1)
  }
}
