// Hash to curve, RFC 9380: expand_message_xmd with SHA-256, hash_to_field, the simplified SWU and the
// Shallue-van de Woestijne maps in their mathematical form, isogenies, cofactor clearing.
module h2c {
  import nt.* from "./nt"
  import params.* from "./params"
  import tower.* from "./tower"
  import curve.* from "./curve"
  import cof.* from "./cof"
  import sha.* from "./sha"

  // ---- section 5.3.1: expand_message_xmd
  pure def xorBytes(a: List[int], b: List[int]): List[int] =
    be(range(0, a.length() / 4).foldl(0, (s, i) =>
      s * W32 + bits3(T_XOR, beInt(a.slice(4 * i, 4 * i + 4)), beInt(b.slice(4 * i, 4 * i + 4)), 0)), a.length())
  pure def expandXmd(msg: List[int], dst: List[int], n: int): List[int] = {
    val ell = (n + 31) / 32
    val dp = dst.append(dst.length())
    val b0 = sha256(zeros(64).concat(msg).concat(be(n, 2)).append(0).concat(dp))
    val b1 = sha256(b0.append(1).concat(dp))
    range(2, ell + 1).foldl((b1, b1), (s, i) => {
      val b = sha256(xorBytes(b0, s._2).append(i).concat(dp))
      (s._1.concat(b), b)
    })._1.slice(0, n)
  }

  // ---- suites.  iso: coefficients (low degree first) of x_num, x_den, y_num, y_den of the isogeny E' -> E,
  // E': y^2 = x^3 + ia x + ib  (empty: E' = E)
  type Suite = { ci: int, id: List[int], L: int, sswu: bool, z: P2, ia: P2, ib: P2, iso: List[List[P2]] }
  pure val K1_ISO: List[List[P2]] = [[(0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7, 0), (0x7d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581, 0), (0x534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262, 0), (0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c, 0)], [(0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b, 0), (0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14, 0), (0x1, 0)], [(0x4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c, 0), (0xc75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3, 0), (0x29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931, 0), (0x2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84, 0)], [(0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b, 0), (0x7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573, 0), (0x6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f, 0), (0x1, 0)]]
  pure val B1_ISO: List[List[P2]] = [[(0x11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7, 0), (0x17294ed3e943ab2f0588bab22147a81c7c17e75b2f6a8417f565e33c70d1e86b4838f2a6f318c356e834eef1b3cb83bb, 0), (0xd54005db97678ec1d1048c5d10a9a1bce032473295983e56878e501ec68e25c958c3e3d2a09729fe0179f9dac9edcb0, 0), (0x1778e7166fcc6db74e0609d307e55412d7f5e4656a8dbf25f1b33289f1b330835336e25ce3107193c5b388641d9b6861, 0), (0xe99726a3199f4436642b4b3e4118e5499db995a1257fb3f086eeb65982fac18985a286f301e77c451154ce9ac8895d9, 0), (0x1630c3250d7313ff01d1201bf7a74ab5db3cb17dd952799b9ed3ab9097e68f90a0870d2dcae73d19cd13c1c66f652983, 0), (0xd6ed6553fe44d296a3726c38ae652bfb11586264f0f8ce19008e218f9c86b2a8da25128c1052ecaddd7f225a139ed84, 0), (0x17b81e7701abdbe2e8743884d1117e53356de5ab275b4db1a682c62ef0f2753339b7c8f8c8f475af9ccb5618e3f0c88e, 0), (0x80d3cf1f9a78fc47b90b33563be990dc43b756ce79f5574a2c596c928c5d1de4fa295f296b74e956d71986a8497e317, 0), (0x169b1f8e1bcfa7c42e0c37515d138f22dd2ecb803a0c5c99676314baf4bb1b7fa3190b2edc0327797f241067be390c9e, 0), (0x10321da079ce07e272d8ec09d2565b0dfa7dccdde6787f96d50af36003b14866f69b771f8c285decca67df3f1605fb7b, 0), (0x6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229, 0)], [(0x8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c, 0), (0x12561a5deb559c4348b4711298e536367041e8ca0cf0800c0126c2588c48bf5713daa8846cb026e9e5c8276ec82b3bff, 0), (0xb2962fe57a3225e8137e629bff2991f6f89416f5a718cd1fca64e00b11aceacd6a3d0967c94fedcfcc239ba5cb83e19, 0), (0x3425581a58ae2fec83aafef7c40eb545b08243f16b1655154cca8abc28d6fd04976d5243eecf5c4130de8938dc62cd8, 0), (0x13a8e162022914a80a6f1d5f43e7a07dffdfc759a12062bb8d6b44e833b306da9bd29ba81f35781d539d395b3532a21e, 0), (0xe7355f8e4e667b955390f7f0506c6e9395735e9ce9cad4d0a43bcef24b8982f7400d24bc4228f11c02df9a29f6304a5, 0), (0x772caacf16936190f3e0c63e0596721570f5799af53a1894e2e073062aede9cea73b3538f0de06cec2574496ee84a3a, 0), (0x14a7ac2a9d64a8b230b3f5b074cf01996e7f63c21bca68a81996e1cdf9822c580fa5b9489d11e2d311f7d99bbdcc5a5e, 0), (0xa10ecf6ada54f825e920b3dafc7a3cce07f8d1d7161366b74100da67f39883503826692abba43704776ec3a79a1d641, 0), (0x95fc13ab9e92ad4476d6e3eb3a56680f682b4ee96f7d03776df533978f31c1593174e4b4b7865002d6384d168ecdd0a, 0), (0x1, 0)], [(0x90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33, 0), (0x134996a104ee5811d51036d776fb46831223e96c254f383d0f906343eb67ad34d6c56711962fa8bfe097e75a2e41c696, 0), (0xcc786baa966e66f4a384c86a3b49942552e2d658a31ce2c344be4b91400da7d26d521628b00523b8dfe240c72de1f6, 0), (0x1f86376e8981c217898751ad8746757d42aa7b90eeb791c09e4a3ec03251cf9de405aba9ec61deca6355c77b0e5f4cb, 0), (0x8cc03fdefe0ff135caf4fe2a21529c4195536fbe3ce50b879833fd221351adc2ee7f8dc099040a841b6daecf2e8fedb, 0), (0x16603fca40634b6a2211e11db8f0a6a074a7d0d4afadb7bd76505c3d3ad5544e203f6326c95a807299b23ab13633a5f0, 0), (0x4ab0b9bcfac1bbcb2c977d027796b3ce75bb8ca2be184cb5231413c4d634f3747a87ac2460f415ec961f8855fe9d6f2, 0), (0x987c8d5333ab86fde9926bd2ca6c674170a05bfe3bdd81ffd038da6c26c842642f64550fedfe935a15e4ca31870fb29, 0), (0x9fc4018bd96684be88c9e221e4da1bb8f3abd16679dc26c1e8b6e6a1f20cabe69d65201c78607a360370e577bdba587, 0), (0xe1bba7a1186bdb5223abde7ada14a23c42a0ca7915af6fe06985e7ed1e4d43b9b3f7055dd4eba6f2bafaaebca731c30, 0), (0x19713e47937cd1be0dfd0b8f1d43fb93cd2fcbcb6caf493fd1183e416389e61031bf3a5cce3fbafce813711ad011c132, 0), (0x18b46a908f36f6deb918c143fed2edcc523559b8aaf0c2462e6bfe7f911f643249d9cdf41b44d606ce07c8a4d0074d8e, 0), (0xb182cac101b9399d155096004f53f447aa7b12a3426b08ec02710e807b4633f06c851c1919211f20d4c04f00b971ef8, 0), (0x245a394ad1eca9b72fc00ae7be315dc757b3b080d4c158013e6632d3c40659cc6cf90ad1c232a6442d9d3f5db980133, 0), (0x5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b, 0), (0x15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604, 0)], [(0x16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1, 0), (0x1962d75c2381201e1a0cbd6c43c348b885c84ff731c4d59ca4a10356f453e01f78a4260763529e3532f6102c2e49a03d, 0), (0x58df3306640da276faaae7d6e8eb15778c4855551ae7f310c35a5dd279cd2eca6757cd636f96f891e2538b53dbf67f2, 0), (0x16b7d288798e5395f20d23bf89edb4d1d115c5dbddbcd30e123da489e726af41727364f2c28297ada8d26d98445f5416, 0), (0xbe0e079545f43e4b00cc912f8228ddcc6d19c9f0f69bbb0542eda0fc9dec916a20b15dc0fd2ededda39142311a5001d, 0), (0x8d9e5297186db2d9fb266eaac783182b70152c65550d881c5ecd87b6f0f5a6449f38db9dfa9cce202c6477faaf9b7ac, 0), (0x166007c08a99db2fc3ba8734ace9824b5eecfdfa8d0cf8ef5dd365bc400a0051d5fa9c01a58b1fb93d1a1399126a775c, 0), (0x16a3ef08be3ea7ea03bcddfabba6ff6ee5a4375efa1f4fd7feb34fd206357132b920f5b00801dee460ee415a15812ed9, 0), (0x1866c8ed336c61231a1be54fd1d74cc4f9fb0ce4c6af5920abc5750c4bf39b4852cfe2f7bb9248836b233d9d55535d4a, 0), (0x167a55cda70a6e1cea820597d94a84903216f763e13d87bb5308592e7ea7d4fbc7385ea3d529b35e346ef48bb8913f55, 0), (0x4d2f259eea405bd48f010a01ad2911d9c6dd039bb61a6290e591b36e636a5c871a5c29f4f83060400f8b49cba8f6aa8, 0), (0xaccbb67481d033ff5852c1e48c50c477f94ff8aefce42d28c0f9a88cea7913516f968986f7ebbea9684b529e2561092, 0), (0xad6b9514c767fe3c3613144b45f1496543346d98adf02267d5ceef9a00d9b8693000763e3b90ac11e99b138573345cc, 0), (0x2660400eb2e4f3b628bdd0d53cd76f2bf565b94e72927c1cb748df27942480e420517bd8714cc80d1fadc1326ed06f7, 0), (0xe0fa1d816ddc03e6b24255e0d7819c171c40f65e273b853324efcd6356caa205ca2f570f13497804415473a1d634b8f, 0), (0x1, 0)]]
  pure val B2_ISO: List[List[P2]] = [[(0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6, 0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6), (0x0, 0x11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a), (0x11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e, 0x8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d), (0x171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1, 0x0)], [(0x0, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa63), (0xc, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa9f), (0x1, 0x0)], [(0x1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706, 0x1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706), (0x0, 0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be), (0x11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c, 0x8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f), (0x124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10, 0x0)], [(0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb), (0x0, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa9d3), (0x12, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa99), (0x1, 0x0)]]
  pure val SUITES: List[Suite] = [
    // BN254G1_XMD:SHA-256_SVDW_RO_
    { ci: 0, id: [66, 78, 50, 53, 52, 71, 49, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 48, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] },
    // BN254G2_XMD:SHA-256_SVDW_RO_
    { ci: 1, id: [66, 78, 50, 53, 52, 71, 50, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 48, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] },
    // GRUMPKIN_XMD:SHA-256_SVDW_RO_
    { ci: 2, id: [71, 82, 85, 77, 80, 75, 73, 78, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 48, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] },
    // secp256k1_XMD:SHA-256_SSWU_RO_
    { ci: 3, id: [115, 101, 99, 112, 50, 53, 54, 107, 49, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95], L: 48, sswu: true, z: (FP_K1 - 11, 0), ia: (0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533, 0), ib: (1771, 0), iso: K1_ISO },
    // secq256k1_XMD:SHA-256_SVDW_RO_
    { ci: 4, id: [115, 101, 99, 113, 50, 53, 54, 107, 49, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 48, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] },
    // P256_XMD:SHA-256_SSWU_RO_
    { ci: 5, id: [80, 50, 53, 54, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95], L: 48, sswu: true, z: (FP_R1 - 10, 0), ia: CURVES[5].a, ib: CURVES[5].b, iso: [] },
    // BLS12381G1_XMD:SHA-256_SSWU_RO_
    { ci: 6, id: [66, 76, 83, 49, 50, 51, 56, 49, 71, 49, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95], L: 64, sswu: true, z: (11, 0), ia: (0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d, 0), ib: (0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0, 0), iso: B1_ISO },
    // BLS12381G2_XMD:SHA-256_SSWU_RO_
    { ci: 7, id: [66, 76, 83, 49, 50, 51, 56, 49, 71, 50, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95], L: 64, sswu: true, z: (FQ_BLS - 2, FQ_BLS - 1), ia: (0, 240), ib: (1012, 1012), iso: B2_ISO },
    // pluto_XMD:SHA-256_SVDW_RO_
    { ci: 8, id: [112, 108, 117, 116, 111, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 72, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] },
    // eris_XMD:SHA-256_SVDW_RO_
    { ci: 9, id: [101, 114, 105, 115, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 86, 68, 87, 95, 82, 79, 95], L: 72, sswu: false, z: (1, 0), ia: (0, 0), ib: (0, 0), iso: [] }
  ]

  // ---- section 5.2: hash_to_field.  L bytes per coefficient, c0 first, most significant byte first
  pure def perElt(s: Suite): int = if (CURVES[s.ci].ext) 2 * s.L else s.L
  pure def toField(s: Suite, bs: List[int], k: int): P2 = {
    val p = CURVES[s.ci].p
    val o = k * perElt(s)
    (beInt(bs.slice(o, o + s.L)) % p, if (CURVES[s.ci].ext) beInt(bs.slice(o + s.L, o + 2 * s.L)) % p else 0)
  }

  // ---- section 4.1
  pure def sgn0(x: P2): int = if (x._1 != 0) x._1 % 2 else x._2 % 2
  pure def signAs(C: Curve, u: P2, y: P2): P2 = if (sgn0(u) == sgn0(y)) y else n2(C.p, y)
  pure def inv0(C: Curve, x: P2): P2 = if (x == (0, 0)) (0, 0) else finv(C, x)

  // ---- section 6.6.1: Shallue-van de Woestijne
  pure def svdw(s: Suite, u: P2): Pt = {
    val C = CURVES[s.ci]
    val gz = rhs(C, s.z)
    val d = fa(C, fk(C, 3, fm(C, s.z, s.z)), fk(C, 4, C.a))          // 3 Z^2 + 4 A
    val half = (C.p + 1) / 2
    val t = fm(C, fm(C, u, u), gz)
    val tv2 = fa(C, (1, 0), t)
    val tv1 = fs(C, (1, 0), t)
    val tv3 = inv0(C, fm(C, tv1, tv2))
    val q = fsqrt(C, n2(C.p, fm(C, gz, d)))
    val tv4 = if (sgn0(q) == 1) n2(C.p, q) else q
    val tv5 = fm(C, fm(C, fm(C, u, tv1), tv3), tv4)
    val mz = n2(C.p, fk(C, half, s.z))
    val x1 = fs(C, mz, tv5)
    val x2 = fa(C, mz, tv5)
    val w = fm(C, fm(C, tv2, tv2), tv3)
    val x3 = fa(C, s.z, fm(C, fm(C, n2(C.p, fk(C, 4, gz)), finv(C, d)), fm(C, w, w)))
    val x = if (fisq(C, rhs(C, x1))) x1 else if (fisq(C, rhs(C, x2))) x2 else x3
    aff(x, signAs(C, u, fsqrt(C, rhs(C, x))))
  }

  // ---- section 6.6.2: simplified SWU on E', then the isogeny; its kernel goes to the identity
  pure def polyAt(C: Curve, co: List[P2], x: P2): P2 =
    range(0, co.length()).foldl((0, 0), (a, i) => fa(C, fm(C, a, x), co[co.length() - 1 - i]))
  pure def isoMap(s: Suite, x: P2, y: P2): Pt = {
    val C = CURVES[s.ci]
    if (s.iso.length() == 0) aff(x, y)
    else {
      val xd = polyAt(C, s.iso[1], x)
      val yd = polyAt(C, s.iso[3], x)
      if (xd == (0, 0) or yd == (0, 0)) INF
      else aff(fm(C, polyAt(C, s.iso[0], x), finv(C, xd)), fm(C, y, fm(C, polyAt(C, s.iso[2], x), finv(C, yd))))
    }
  }
  pure def gIso(s: Suite, x: P2): P2 = {
    val C = CURVES[s.ci]
    fa(C, fm(C, fa(C, fm(C, x, x), s.ia), x), s.ib)
  }
  pure def sswuXY(s: Suite, u: P2): (P2, P2) = {
    val C = CURVES[s.ci]
    val zu = fm(C, s.z, fm(C, u, u))
    val t = fa(C, fm(C, zu, zu), zu)
    val x1 = if (t == (0, 0)) fm(C, s.ib, finv(C, fm(C, s.z, s.ia)))
             else fm(C, fm(C, n2(C.p, s.ib), finv(C, s.ia)), fa(C, (1, 0), finv(C, t)))
    val x = if (fisq(C, gIso(s, x1))) x1 else fm(C, zu, x1)
    (x, signAs(C, u, fsqrt(C, gIso(s, x))))
  }
  pure def mapTo(s: Suite, u: P2): Pt =
    if (s.sswu) { val q = sswuXY(s, u) isoMap(s, q._1, q._2) } else svdw(s, u)

  pure def finish(s: Suite, bs: List[int]): Pt =
    clear(s.ci, cadd(CURVES[s.ci], mapTo(s, toField(s, bs, 0)), mapTo(s, toField(s, bs, 1))))
  pure def hashTo(s: Suite, prefix: List[int], msg: List[int]): Pt =
    finish(s, expandXmd(msg, prefix.concat(s.id), 2 * perElt(s)))

  // ---- published vectors (RFC 9380 appendix J and K; gnark-crypto for BN254), msg = "" or "abc"
  pure val ABC = [97, 98, 99]
  pure val QUUX = [81, 85, 85, 88, 45, 86, 48, 49, 45, 67, 83, 48, 50, 45, 119, 105, 116, 104, 45]   // QUUX-V01-CS02-with-
  run rfcTest = all {
    // K.1: DST QUUX-V01-CS02-with-expander-SHA256-128, len 0x20
    assert(beInt(expandXmd(ABC, QUUX.concat([101, 120, 112, 97, 110, 100, 101, 114, 45, 83, 72, 65, 50, 53, 54, 45, 49, 50, 56]), 32))
      == 0xd8ccab23b5985ccea865c6c97b6e5b8350e794e603b4b97902f53a8a0d605615),
    assert(hashTo(SUITES[5], QUUX, []) == aff((0x2c15230b26dbc6fc9a37051158c95b79656e17a1a920b11394ca91c44247d3e4, 0), (0x8a7a74985cc5c776cdfe4b1f19884970453912e9d31528c060be9ab5c43e8415, 0))),
    assert(hashTo(SUITES[5], QUUX, ABC) == aff((0x0bb8b87485551aa43ed54f009230450b492fead5f1cc91658775dac4a3388a0f, 0), (0x5c41b3d0731a27a7b14bc0bf0ccded2d8751f83493404c84a88e71ffd424212e, 0))),
    assert(hashTo(SUITES[3], QUUX, []) == aff((0xc1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346, 0), (0x64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067, 0))),
    assert(hashTo(SUITES[3], QUUX, ABC) == aff((0x3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b, 0), (0x7f95890f33efebd1044d382a01b1bee0900fb6116f94688d487c6c7b9c8371f6, 0))),
    assert(hashTo(SUITES[6], QUUX, []) == aff((0x052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1, 0), (0x08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265, 0))),
    assert(hashTo(SUITES[6], QUUX, ABC) == aff((0x03567bc5ef9c690c2ab2ecdf6a96ef1c139cc0b2f284dca0a9a7943388a49a3aee664ba5379a7655d3c68900be2f6903, 0), (0x0b9c15f3fe6e5cf4211f346271d7b01c8f3b28be689c8429c85b67af215533311f0b8dfaaa154fa6b88176c229f2885d, 0))),
    assert(hashTo(SUITES[7], QUUX, []) == aff(
      (0x0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a, 0x05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d),
      (0x0503921d7f6a12805e72940b963c0cf3471c7b2a524950ca195d11062ee75ec076daf2d4bc358c4b190c0c98064fdd92, 0x12424ac32561493f3fe3c260708a12b7c620e7be00099a974e259ddc7d1f6395c3c811cdd19f1e8dbf3e9ecfdcbab8d6))),
    assert(hashTo(SUITES[0], QUUX, []) == aff((0x0a976ab906170db1f9638d376514dbf8c42aef256a54bbd48521f20749e59e86, 0), (0x02925ead66b9e68bfc309b014398640ab55f6619ab59bc1fab2210ad4c4d53d5, 0))),
    assert(hashTo(SUITES[1], QUUX, []) == aff(
      (0x1192005a0f121921a6d5629946199e4b27ff8ee4d6dd4f9581dc550ade851300, 0x1747d950a6f23c16156e2171bce95d1189b04148ad12628869ed21c96a8c9335),
      (0x0498f6bb5ac309a07d9a8b88e6ff4b8de0d5f27a075830e1eb0e68ea318201d8, 0x2c9755350ca363ef2cf541005437221c5740086c2e909b71d075152484e845f4)))
  }
  // the isogenies map E' to E and respect addition (so they are the stated rational maps, kernel included)
  run isoTest = all {
    assert(Set(3, 6, 7).forall(i => Set(1, 2, 3, 12345).forall(k => {
      val s = SUITES[i]
      val C = CURVES[s.ci]
      val E = { ...C, a: s.ia, b: s.ib }
      val p = sswuXY(s, (k, if (C.ext) 3 * k else 0))
      val q = sswuXY(s, (k + 1, 0))
      val t = cadd(E, aff(p._1, p._2), aff(q._1, q._2))
      and {
        onc(E, aff(p._1, p._2)), onc(C, isoMap(s, p._1, p._2)),
        isoMap(s, t.x, t.y) == cadd(C, isoMap(s, p._1, p._2), isoMap(s, q._1, q._2))
      }
    })))
  }
}
