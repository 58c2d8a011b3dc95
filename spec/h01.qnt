// H01: hash to curve follows its suite for every message, domain and map input.
module h01 {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import cof.* from "./cof"
  import sha.* from "./sha"
  import h2c.* from "./h2c"

  var cid: int
  var log: List[Op]

  // ---- messages and domains
  pure def bytesOf(r: int, n: int): List[int] = {
    val m = (r / 2^650) % 6
    if (m == 0) zeros(n)
    else if (m == 1) range(0, n).foldl([], (l, _) => l.append(255))
    else range(0, n).foldl(([], r), (s, i) => (s._1.append((s._2 / 2^200) % 256), if (i % 40 == 39) nxt(s._2) else s._2 / 256 + (s._2 % 256) * 2^690))._1
  }
  pure val LENS = [0, 1, 2, 3, 31, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 66, 100, 118, 119, 120, 127, 128, 129, 183, 184, 191, 192, 200, 255, 256, 257, 300]
  // lengths that put the end of the first hash's input (64 + message + 3 + dst + 1) next to a padding boundary
  pure def msgLen(r: int, dl: int): int =
    if ((r / 2^640) % 2 == 0) LENS[(r / 2^620) % LENS.length()]
    else { val q = (55 + 128 * 4 - (64 + 4 + dl)) % 64  q + 64 * ((r / 2^620) % 3) + (r / 2^610) % 3 + (if (q == 0) 0 else -1) }
  // ASCII with a two-byte character now and then
  pure def prefixOf(r: int, n: int): List[int] =
    if (n >= 2 and (r / 2^640) % 3 == 0) [195, 169].concat(ascii(r, n - 2)) else ascii(r, n)
  pure def ascii(r: int, n: int): List[int] =
    range(0, n).foldl(([], r), (s, i) => (s._1.append(((s._2 / 2^200) % 128)), s._2 / 128 + (s._2 % 128) * 2^690))._1
  // total length of prefix and suite id: mostly short, often around 255 (the longest DST) and one beyond
  pure def prefixLen(r: int, idl: int): int = {
    val m = (r / 2^600) % 8
    if (m == 0) 0 else if (m == 1) 255 - idl else if (m == 2) 254 - idl
    else if (m == 3) 256 - idl + (r / 2^500) % 40
    else if (m == 4) (r / 2^500) % (256 - idl) else (r / 2^500) % 24
  }
  pure def hashOp(i: int, r: int): Op = {
    val s = SUITES[i]
    val pl = prefixLen(r, s.id.length())
    val pre = prefixOf(nxt(r), pl)
    val msg = bytesOf(nxt(nxt(r)), msgLen(nxt(nxt(nxt(r))), pl + s.id.length()))
    { o: "h2c", t: CURVES[s.ci].nm, a: [pl].concat(pre).concat(msg),
      e: if (pl + s.id.length() > 255) [2] else ptl(hashTo(s, pre, msg)) }
  }

  // messages of tens of thousands of bytes: a short pattern repeated
  pure def longOp(i: int, r: int, n: int): Op = {
    val s = SUITES[i]
    val pre = ascii(nxt(r), (r / 2^500) % 9)
    val pat = range(0, 61).foldl(([], nxt(nxt(r))), (l, k) => (l._1.append((l._2 / 2^200) % 256), nxt(l._2)))._1
    val msg = range(0, n).foldl([], (l, k) => l.append(pat[k % 61]))
    { o: "h2cl", t: CURVES[s.ci].nm, a: [pre.length()].concat(pre).concat([n]).concat(pat), e: ptl(hashTo(s, pre, msg)) }
  }

  // ---- map inputs: the exceptional ones of either map, and arbitrary ones, unreduced
  // u whose simplified SWU image on the 11-isogenous curve of BLS12-381 G1 lies in the isogeny's kernel
  pure val KER = [
    0x146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598,
    0xec1d2551f80abe70136a7f42e52133ebddf9b619a88147ae422a98e57581f2b0961dc019c74599f12a1b5513649a2e8,
    0xa92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29,
    0x10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f,
    0x1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0,
    0xa2605e5991fcf3e63728a7a1468d79bacaa5f23f3816aadcd38efdd330c6d4f5bbf450f92156e0e23e16e3252bcd042,
    0x854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405,
    0xa3bf00221e169b850c5268c3d1edd576732060760bc0c00ed0311dee8588b18130822d3027f8d142802d784ea194fca]
  // square roots of -1/Z, or of 1/g(Z) and -1/g(Z), where they exist
  pure def special(i: int): List[P2] = {
    val s = SUITES[i]
    val C = CURVES[s.ci]
    val cs = if (s.sswu) [n2(C.p, finv(C, s.z))] else { val t = finv(C, rhs(C, s.z)) [t, n2(C.p, t)] }
    cs.select(c => fisq(C, c)).foldl([], (l, c) => l.append(fsqrt(C, c)))
  }
  pure def inputs(i: int): List[P2] = {
    val k = if (i == 6) KER.foldl([], (l, v) => l.append((v, 0))) else []
    [(0, 0), (1, 0)].concat(special(i)).concat(special(i)).concat(k)
  }
  pure val INPUTS: List[List[P2]] = range(0, SUITES.length()).foldl([], (l, i) => l.append(inputs(i)))
  pure def genU(i: int, r: int): P2 = {
    val C = CURVES[SUITES[i].ci]
    val m = (r / 2^660) % 6
    val u = if (m < 3) INPUTS[i][(r / 2^600) % INPUTS[i].length()]
            else if (m == 3) (genv(r, C.F), if (C.ext) genv(nxt(r), C.F) else 0)
            else if (m == 4 and C.ext) (0, genv(r, C.F))
            else (rv(r, C.p), if (C.ext) rv(nxt(r), C.p) else 0)
    if ((r / 2^650) % 2 == 0) u else n2(C.p, u)
  }
  // an L-byte big-endian integer congruent to v
  pure def bytesFor(r: int, v: int, p: int, L: int): List[int] = {
    val mx = (256^L - 1 - v) / p
    val m = (r / 2^670) % 4
    be(v + p * (if (m == 0) 0 else if (m == 1) mx else if (m == 2) (r / 2^100) % 4 else (r / 2^60) % (mx + 1)), L)
  }
  pure def eltBytes(i: int, r: int, u: P2): List[int] = {
    val s = SUITES[i]
    val C = CURVES[s.ci]
    val l = bytesFor(r, u._1, C.p, s.L)
    if (C.ext) l.concat(bytesFor(nxt(r), u._2, C.p, s.L)) else l
  }
  pure def mapOp(i: int, r: int): Op = {
    val s = SUITES[i]
    val C = CURVES[s.ci]
    val u = genU(i, nxt(r))
    val m = (r / 2^600) % 8
    val v = if (m == 0) u else if (m == 1) n2(C.p, u) else genU(i, nxt(nxt(nxt(r))))
    val bs = eltBytes(i, nxt(r), u).concat(eltBytes(i, nxt(nxt(r)), v))
    { o: "map", t: C.nm, a: bs, e: ptl(finish(s, bs)) }
  }
  pure def specialOp(i: int, k: int): Op = {
    val s = SUITES[i]
    val bs = eltBytes(i, 0, INPUTS[i][k]).concat(eltBytes(i, 0, (2, 0)))
    { o: "map", t: CURVES[s.ci].nm, a: bs, e: ptl(finish(s, bs)) }
  }
  action at(f: int): bool = all { cid' = f,
    log' = range(0, INPUTS[f].length()).foldl([], (l, k) => l.append(specialOp(f, k))) }
  action init = { nondet f = 0.to(9).oneOf() at(f) }
  action init0 = at(0)
  action init1 = at(1)
  action init2 = at(2)
  action init3 = at(3)
  action init4 = at(4)
  action init5 = at(5)
  action init6 = at(6)
  action init7 = at(7)
  action init8 = at(8)
  action init9 = at(9)
  action step = {
    nondet s = 0.to(RM - 1).oneOf()
    all { cid' = cid, log' = [mapOp(cid, s), mapOp(cid, nxt(nxt(nxt(nxt(nxt(s)))))), hashOp(cid, nxt(nxt(nxt(s))))] }
  }
  action stepLong = {
    nondet s = 0.to(RM - 1).oneOf()
    val m = (s / 2^400) % 4
    val n = if (m == 0) 1000 + (s / 2^410) % 60 else if (m == 1) 4090 + (s / 2^410) % 12 else if (m == 2) 8150 + (s / 2^410) % 70 else 2000 + (s / 2^410) % 2000
    all { cid' = cid, log' = [longOp(cid, s, n)] }
  }
  action stepXLong = {
    nondet s = 0.to(RM - 1).oneOf()
    val m = (s / 2^400) % 3
    all { cid' = cid, log' = [longOp(cid, s, if (m == 0) 65520 + (s / 2^410) % 40 else if (m == 1) 16370 + (s / 2^410) % 30 else 32700 + (s / 2^410) % 100)] }
  }
  // every hash is a point of the prime-order subgroup
  val okH01 = log.length() > 0 and log.foldl(true, (ok, o) => ok and (o.e.length() == 1 or {
    val C = CURVES[SUITES[cid].ci]
    val P = if (o.e[0] == 1) INF else aff((o.e[1], o.e[2]), (o.e[3], o.e[4]))
    onc(C, P) and smul(C, C.r, P) == INF
  }))
  // the special inputs are what they claim to be
  run specialTest = all {
    assert(range(0, KER.length()).foldl(true, (ok, k) => ok and mapTo(SUITES[6], (KER[k], 0)) == INF)),
    assert(Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 9).forall(i => special(i).foldl(true, (ok, u) => ok and {
      val s = SUITES[i]
      val C = CURVES[s.ci]
      val uu = fm(C, u, u)
      if (s.sswu) fm(C, s.z, uu) == (C.p - 1, 0)
      else { val t = fm(C, uu, rhs(C, s.z)) t == (1, 0) or t == (C.p - 1, 0) }
    }))),
    assert(range(0, 10).foldl(0, (n, i) => n + special(i).length()) > 5)
  }
}
