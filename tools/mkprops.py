#!/usr/bin/env python3
# Source of properties.jsonl (one JSON object per line): run to regenerate.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

FIELDS = ["derive/src/field/mod.rs", "derive/src/field/arith.rs", "derive/src/field/asm/limb4.rs", "src/derive/field/mod.rs"]

p("F01", "Prime-field ring operations compute modulo p on one canonical representation",
  "For every prime field of the library and every history of additions, subtractions, negations, doublings, squarings, multiplications, powers, sums, products and constant-time selections, the value obtained is the one integer arithmetic modulo the field's prime gives. Every element's memory representation is the unique reduced one, so equality, constant-time equality, hashing and the zero/one tests agree exactly with equality of the represented integers. The portable and the assembly builds give the same results.",
  ["inputs", "histories", "configurations"],
  "all operand values (including those adjacent to 0, p, 2^k and limb boundaries in either canonical or Montgomery form), all sequences of operations without re-normalisation, both builds (generic; asm + bn256-table), all ten prime fields",
  "Existing tests draw 10^4-10^5 uniformly random operands from one seed and check algebraic identities of the same implementation against itself; carries, borrows and final reductions that only occur for rare limb patterns are reached with probability about 2^-64, and consistent errors cancel in identities.",
  FIELDS + ["src/ff_ext/mod.rs"],
  [("Montgomery multiplication / conditional subtraction (portable)", "derive/src/field/arith.rs"),
   ("Montgomery multiplication (x86-64 assembly)", "derive/src/field/asm/limb4.rs"),
   ("operator, Sum/Product, select, eq impls", "derive/src/field/mod.rs, src/derive/field/mod.rs")],
  [("limbs", "Montgomery form of the element, little-endian u64 limbs", "generated struct $field([u64; N])")],
  ["Add/Sub/Mul/Neg/double/square/cube/pow/pow_vartime/sum/product", "to_repr", "to_raw_bytes", "==, ct_eq, Hash, is_zero"])

p("F02", "Inverse, square root, sqrt_ratio and Legendre symbol are exact for every input",
  "For every prime field, inversion returns the multiplicative inverse for every non-zero element and reports none for zero; the Legendre/Jacobi symbol is -1, 0 or 1 exactly as the element is a non-residue, zero or a residue; a square root is returned exactly for squares (including zero) and squares back to its input; sqrt_ratio honours its contract in all four cases. The exported generic modular inverter and Jacobi-symbol routines agree with integer arithmetic for every odd modulus of the supported width.",
  ["inputs", "configurations"],
  "all field elements of all ten prime fields, all pairs for sqrt_ratio, all odd moduli and all residues representable in the limb count for the generic routines, both builds",
  "Tests sample random elements; the Bernstein-Yang and Jacobi loops have data-dependent branch structure (sign of delta, number of divsteps, approximation of high bits), so inputs with long zero runs, tiny or huge values, shared factors with the modulus, or composite moduli are not reached.",
  ["src/ff_ext/inverse.rs", "src/ff_ext/jacobi.rs", "src/ff_ext/mod.rs", "derive/src/field/mod.rs"],
  [("BYInverter (safegcd, batched divsteps)", "src/ff_ext/inverse.rs"), ("jacobi (Pornin-style binary)", "src/ff_ext/jacobi.rs"),
   ("sqrt / sqrt_ratio dispatch (p = 3 mod 4, Tonelli-Shanks)", "derive/src/field/mod.rs")],
  [], ["Field::invert", "Field::sqrt", "Field::sqrt_ratio", "Legendre::legendre", "ff_ext::inverse::BYInverter", "ff_ext::jacobi::jacobi"])

p("F03", "Field encodings are canonical bijections that reject everything else",
  "For every prime field, each encoding (repr, little/big-endian bytes, raw internal bytes, streams, serde text and binary, bit view) is the documented byte image of the element, decoding an encoding returns that element, and distinct elements have distinct encodings. Decoding any other byte string - a value not below the modulus, a wrong length, a truncated stream - yields a clean rejection and never a panic or a second representation of an element. Ordering, parity and the lexicographically-largest predicate agree with the encoded integer.",
  ["inputs", "configurations"],
  "all byte strings of the encoding's length and of neighbouring lengths, all elements, both builds",
  "Tests round-trip random elements, so only encodings below the modulus occur; values in [p, 2^n), equality to p, limb-wise comparisons where high limbs tie, and malformed lengths are not enumerated.",
  ["derive/src/field/mod.rs", "src/derive/field/mod.rs", "src/serde.rs", "src/derive/field/common.rs"],
  [("canonical comparison with the modulus", "derive/src/field/mod.rs"), ("Endian conversion", "src/serde.rs"), ("SerdeObject impls", "derive/src/field/mod.rs")],
  [], ["to_repr/from_repr", "EndianRepr", "SerdeObject", "serde::{Serialize,Deserialize}", "Ord", "is_odd"])

p("F04", "Integers, wide byte strings and constants map to the right field element",
  "For every prime field, converting an unsigned integer, a boolean, a raw limb array, a decimal string or a wide uniform byte string of any supported size gives the element that represents that integer modulo p, including values at or above p and, for the table-backed build, every table entry. The advertised constants - modulus, generator, root of unity and its inverse, two-adicity, delta, cube root of unity, inverse of two - satisfy their defining equations.",
  ["inputs", "configurations"],
  "all u64/u128/limb-array values, all 48/64/72/96/112-byte strings supported per field, all 2^16 table entries, both builds",
  "Tests compare a few random 64-byte inputs and small integers; a wrong reduction for inputs above a limb boundary or a single wrong table row is not sampled.",
  ["derive/src/field/mod.rs", "script/bn256.py", "src/bn256/fr.rs", "src/derive/field/mod.rs"],
  [("from_uniform_bytes chunked reduction", "derive/src/field/mod.rs"), ("small-integer table", "src/bn256/fr/table.rs (generated)"), ("constant derivation", "derive/src/field/mod.rs")],
  [], ["From<u64>, From<u128>, From<bool>", "from_raw", "FromUniformBytes", "PrimeField constants", "WithSmallOrderMulGroup::ZETA"])

p("F05", "Exported wide integers are exact wrapping two's-complement arithmetic",
  "The exported signed big-integer type computes, for every width and every history of additions, subtractions, negations, products (by another big integer or by a machine word on either side, in owned and borrowed forms) and arithmetic right shifts by 1 to 63 bits, the result of integer arithmetic wrapped to the type's 64*L bits in two's complement. Equality, the sign test and the constants agree with the represented integer, and construction from a word list refuses lists longer than the type.",
  ["inputs", "histories", "configurations"],
  "all values and all machine words including the most negative one, all widths of 1 to 9 words, all sequences of operations, both builds",
  "The few callers inside the library (the Jacobi symbol) only use small words, two or three operators and non-extreme values, so carries across limbs, the sign extension and the most negative word are not reached by the tests.",
  ["src/ff_ext/jacobi.rs"],
  [("limb carries, complement, truncated product", "src/ff_ext/jacobi.rs (impl Add/Sub/Neg/Mul/Shr for LInt)")],
  [], ["LInt::new", "+ - * >> and unary -", "==", "is_negative", "ZERO/ONE/MINUS_ONE"])

p("X01", "Extension-field towers compute in the stated quotient rings",
  "For every quadratic, sextic and dodecic extension field, addition, subtraction, negation, doubling, multiplication, squaring, inversion, conjugation, Frobenius powers, multiplication by the non-residue and by sparse operands, and zero/equality tests agree with polynomial arithmetic in the tower's defining quotient ring over the prime field. Inversion succeeds exactly for non-zero elements; Frobenius is the p-power map for every exponent; cyclotomic squaring agrees with squaring on the cyclotomic subgroup.",
  ["inputs", "histories"],
  "all operands (including operands with any subset of zero coefficients), all Frobenius powers, all operation sequences, the three towers bn256, bls12-381, pluto",
  "Tests use random dense operands, so structured elements (zero coefficients, subfield elements, elements of small subgroups) and large Frobenius powers are absent, and identities are checked against the implementation itself.",
  ["src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs", "src/derive/field/tower.rs", "src/bn256/fq2.rs", "src/bn256/fq6.rs", "src/bn256/fq12.rs", "src/bls12381/fq2.rs", "src/bls12381/fq6.rs", "src/bls12381/fq12.rs", "src/pluto_eris/fp2.rs", "src/pluto_eris/fp6.rs", "src/pluto_eris/fp12.rs"],
  [("QuadExtField / CubicExtField arithmetic and sparse products", "src/ff_ext/"), ("Frobenius coefficient tables", "src/*/f{q,p}{2,6,12}.rs")],
  [("c0, c1, c2", "coefficients over the lower field", "QuadExtField, CubicExtField")],
  ["field operators", "frobenius_map", "mul_by_*", "cyclotomic_square", "invert", "is_zero"])

p("X02", "Quadratic extension square roots, order and encodings are exact",
  "For every quadratic extension field, a square root is returned exactly for squares (zero, base-field and purely imaginary elements included), squares back to the input, and the Legendre symbol agrees with squareness; the call always terminates. Byte encodings are the documented coefficient layout, decode to the element they encode, and every non-canonical byte string is rejected without a panic; ordering is the order of the encoded coefficients and the lexicographically-largest predicate picks exactly one of x and -x.",
  ["inputs"],
  "all elements of the three quadratic extensions, all byte strings of the encoding length",
  "Random elements almost never have a zero coefficient or a root with one zero coefficient, which are the special branches of the complex-method algorithms; the encoding tests only decode what was encoded.",
  ["src/ff_ext/quadratic.rs", "src/derive/field/tower.rs", "src/bn256/fq2.rs", "src/bls12381/fq2.rs", "src/pluto_eris/fp2.rs"],
  [("sqrt_algo9 / sqrt_algo10", "src/ff_ext/quadratic.rs"), ("impl_tower2 encodings", "src/derive/field/tower.rs")],
  [], ["Field::sqrt", "Legendre::legendre", "to_repr/from_repr", "SerdeObject", "Ord", "lexicographically_largest"])

p("C01", "Point addition, doubling and negation implement the curve's group law",
  "For every curve, any sequence of additions, subtractions, mixed additions, affine additions, doublings, negations and sums yields the point the group law defines, for all operand combinations including the identity, equal points, opposite points and points given in any projective representation. The result is again a valid point of the curve.",
  ["inputs", "histories"],
  "all pairs of points on all eleven curves, all projective representations of each, all operation histories",
  "Tests add random points and check a handful of identities for one representation; exceptional pairs arising only after a specific history, and rescaled or mixed-coordinate operands, are sampled at most once.",
  ["src/derive/curve.rs", "src/derive/mod.rs"],
  [("complete addition formulas (RCB 2015/1060), doubling, mixed addition", "src/derive/curve.rs")],
  [("x, y, z", "homogeneous projective coordinates", "src/derive/curve.rs"), ("x, y", "affine coordinates, (0,0) identity", "src/derive/curve.rs")],
  ["Add/Sub/Neg/double/sum for projective and affine types", "is_on_curve"])

p("C02", "Scalar multiplication is repeated addition; the endomorphism is a scalar",
  "For every curve, multiplying a projective or affine point by a scalar yields the scalar-fold sum of the point, for every scalar from zero to the group order minus one and every point including the identity and non-normalised representations. Where a curve offers the cube-root endomorphism, applying it equals multiplication by the cube root of unity of the scalar field. The generator has exactly the scalar field's order.",
  ["inputs"],
  "all (point, scalar) pairs for all curves; scalars with extreme bit patterns",
  "Tests check distributivity for random scalars, using the same routine on both sides; leading-zero, all-ones, order-minus-one scalars and identity inputs are not enumerated.",
  ["src/derive/curve.rs", "src/bn256/curve.rs", "src/secp256k1/curve.rs", "src/pluto_eris/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/grumpkin/curve.rs"],
  [("double-and-add over the scalar repr", "src/derive/curve.rs"), ("endo via ZETA", "src/derive/curve.rs")],
  [], ["Mul<Scalar> for projective and affine", "CurveExt::endo", "generator()"])

p("C03", "All representations of a point denote the same point",
  "For every curve, converting between projective, Jacobian and affine forms, singly or in batch (with identities at any positions), preserves the point; equality holds exactly between representations of the same point. Building a point from coordinates succeeds exactly when they satisfy the curve equation (or denote the identity), and the on-curve predicate agrees.",
  ["inputs", "histories"],
  "all points, all rescalings, all batches with any pattern of identities, all coordinate pairs/triples",
  "The batch-normalisation tests contain no identity and only random scalings; coordinates off the curve and degenerate triples are not generated.",
  ["src/derive/curve.rs"],
  [("batch_normalize / to_affine / new_jacobian / jacobian_coordinates / ct_eq / is_on_curve", "src/derive/curve.rs")],
  [], ["to_affine", "batch_normalize", "to_curve", "jacobian_coordinates", "new_jacobian", "from_xy", "coordinates", "ct_eq/=="])

p("S01", "Compressed point encodings are canonical, injective and strictly validated",
  "For every curve, compressing any point (the identity and points with a zero coordinate included) gives the documented bytes, and decompressing them returns that point. Decompression accepts only canonical encodings: any byte string that is not the encoding of a curve point - x not reduced or not on the curve, inconsistent or unknown flag bits, a non-zero remainder in an identity encoding - is rejected without a panic, so no point has two encodings.",
  ["inputs"],
  "all byte strings of the encoding length for all eleven curves: every flag combination times every x class",
  "Tests round-trip random points and flip a few flags at random; the cross product of flags, identity, x = 0, unreduced x and non-residue x is not covered, nor what a rejected string may do instead (panic).",
  ["src/serde.rs", "src/derive/curve.rs", "src/derive/field/tower.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs"],
  [("Compressed::{encode,decode}, flags", "src/serde.rs"), ("sign / resolve", "src/derive/curve.rs")],
  [], ["GroupEncoding::{to_bytes,from_bytes,from_bytes_unchecked}"])

p("S02", "Uncompressed, raw and serde point encodings round-trip and validate",
  "For every curve, uncompressed bytes, raw coordinates bytes, raw streams and serde (text and binary) forms of any point decode to the same point. The checked decoders accept exactly strings whose coordinates are reduced and satisfy the curve equation (or denote the identity) and reject everything else - wrong length, truncated stream, off-curve or degenerate coordinates - without a panic.",
  ["inputs"],
  "all points and all byte strings of the respective lengths for all curves",
  "Tests round-trip random points only and never present off-curve, unreduced or truncated input to the checked readers.",
  ["src/derive/curve.rs", "src/serde.rs"],
  [("UncompressedEncoding, SerdeObject, serde impls", "src/derive/curve.rs")],
  [], ["UncompressedEncoding", "SerdeObject::{from_raw_bytes,read_raw}", "serde::{Serialize,Deserialize}"])

p("M01", "Every multi-scalar multiplication routine returns the exact weighted sum",
  "For every curve, the serial, parallel and best multi-scalar multiplication routines return the sum of scalar-times-point over the whole input, for every length (zero included), any pattern of repeated, opposite or identity points and any scalars including zero and extremes. The result does not depend on the number of worker threads, and mismatched input lengths are refused.",
  ["inputs", "schedules", "configurations"],
  "all coefficient/base vectors of all lengths up to and beyond the algorithm-selection thresholds; all thread-pool sizes",
  "Tests use distinct random points with random scalars at power-of-two lengths on the default pool, so bucket collisions, cancellations, identities, odd chunkings and window-boundary digits do not occur.",
  ["src/msm.rs"],
  [("Booth recoding", "src/msm.rs get_booth_index"), ("batch-affine bucket scheduler", "src/msm.rs Schedule, batch_add"), ("chunked parallel split", "src/msm.rs msm_parallel")],
  [("buckets", "affine bucket accumulators", "src/msm.rs"), ("set, ptr", "pending batch of bucket additions", "src/msm.rs Schedule")],
  ["msm_serial", "msm_parallel", "msm_best"])

p("T01", "The FFT equals the discrete Fourier transform, for any worker count",
  "For every scalar field and for points of a curve, the fast Fourier transform of a power-of-two-length vector with a matching primitive root of unity yields, in natural order, the evaluations of the coefficient vector at the successive powers of the root; transforming with the inverse root and dividing by the length restores the input. The result does not depend on the number of worker threads.",
  ["inputs", "schedules", "configurations"],
  "all vectors of length 2^k, all primitive roots, all thread counts relative to k",
  "There is one test, which checks a forward/backward round trip on the default pool; a consistent permutation or twiddle error cancels in it and the serial/parallel switch depends on the machine's core count.",
  ["src/fft.rs"],
  [("best_fft: bit reversal, radix-2 stages, recursive parallel split", "src/fft.rs")],
  [], ["fft::best_fft"])

p("H01", "Hash-to-curve follows its published suite for every message and domain",
  "For every curve offering it, hashing a message under a domain prefix gives exactly the point defined by the documented suite (expand-message-XMD with SHA-256, hash-to-field, the suite's SSWU or SVDW map with isogeny, addition, cofactor clearing), for messages of every length and every domain the suite can encode (prefix and suite identifier together at most 255 bytes; longer ones are refused). The result is always a valid point of the curve and depends on nothing else.",
  ["inputs"],
  "all messages and all domain prefixes on all supporting curves; all field elements as map inputs including the exceptional ones",
  "Tests pin a few short known answers per suite; long messages, block boundaries, other domains and exceptional map inputs are not pinned.",
  ["src/hash_to_curve.rs", "src/bn256/curve.rs", "src/grumpkin/curve.rs", "src/secp256k1/curve.rs", "src/secp256r1/curve.rs", "src/secq256k1/curve.rs", "src/pluto_eris/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs"],
  [("expand_message_xmd, hash_to_field, sswu/svdw maps, isogenies", "src/hash_to_curve.rs")],
  [], ["CurveExt::hash_to_curve"], "cfg(halo2curves_verif) thread-local stand-in for the expanded message, to reach exceptional map inputs")

p("B01", "Pairings are bilinear, non-degenerate and multiplicative over batches",
  "For bn256, bls12-381 and pluto, the pairing of multiples aP and bQ equals the pairing of P and Q raised to ab for all scalars, is the identity exactly when either input is the identity, and the pairing of the generators is a fixed element of exact order r. The multi-Miller loop over any list of pairs (any length, identities anywhere) followed by final exponentiation equals the product of the individual pairings.",
  ["inputs", "histories"],
  "all scalar pairs, all lists of terms with any pattern of identities",
  "Tests check bilinearity for random non-identity inputs and lists of two or three terms; identities within lists, extreme scalars, long or empty lists are not covered.",
  ["src/derive/pairing.rs", "src/bn256/engine.rs", "src/bls12381/engine.rs", "src/pluto_eris/engine.rs"],
  [("Miller loop with prepared line coefficients", "src/*/engine.rs"), ("multi_miller_loop over terms", "src/derive/pairing.rs")],
  [], ["Engine::pairing", "MultiMillerLoop::multi_miller_loop", "MillerLoopResult::final_exponentiation", "PairingCurveAffine::pairing_with"], hook="Gt hides the field element behind it: cfg(halo2curves_verif) adds verif_inner/verif_new to the target groups")

p("B02", "Target-group operations and the final exponentiation are exact",
  "For every pairing engine, target-group addition, doubling, negation, subtraction, sums and scalar multiplication act on pairing values as exponent arithmetic modulo the group order. The final exponentiation of any non-zero field element is that element raised to one fixed multiple of (p^12-1)/r: it is multiplicative, lands in the order-r subgroup, and is trivial on proper-subfield elements. Randomly sampled target-group elements lie in the order-r subgroup.",
  ["inputs", "histories"],
  "all target-group histories and scalars; all Miller-loop outputs, dense or structured",
  "Tests exercise only identities on random inputs; scalar multiplication bit patterns and structured Miller values are not enumerated.",
  ["src/derive/pairing.rs", "src/bn256/engine.rs", "src/bls12381/engine.rs", "src/pluto_eris/engine.rs"],
  [("Gt newtype group impl", "src/derive/pairing.rs"), ("exponentiation chain with cyclotomic squarings", "src/*/engine.rs")],
  [], ["Gt: Group", "final_exponentiation"], hook="Gt hides the field element behind it: cfg(halo2curves_verif) adds verif_inner/verif_new to the target groups")

p("G01", "Cofactor clearing and torsion checks decide subgroup membership",
  "For curves with a non-trivial cofactor, clearing the cofactor of any curve point yields a point of the prime-order subgroup, maps the identity to itself, is a group homomorphism that is injective on the subgroup, and the torsion test is true exactly for points of the prime-order subgroup (identity included); conversion into the subgroup succeeds exactly for those points and returns the point itself. Randomly sampled points always lie on the curve and in the prime-order subgroup.",
  ["inputs"],
  "all points on the curve, inside and outside the subgroup, in any representation",
  "Tests check a few random points; points in small cofactor subgroups, mixed torsion and non-normalised representations are not covered.",
  ["src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/bn256/curve.rs", "src/pluto_eris/curve.rs", "src/derive/curve.rs"],
  [("clear_cofactor, is_torsion_free, psi maps", "src/bls12381/g2.rs, src/bn256/curve.rs, src/pluto_eris/curve.rs")],
  [], ["CofactorGroup::{clear_cofactor,is_torsion_free,into_subgroup}", "Group::random"])

p("E01", "Endomorphism scalar decomposition reconstructs every scalar in half width",
  "For every curve with an endomorphism-based scalar decomposition, splitting any scalar k yields two signed halves whose magnitudes fit in 128 bits and satisfy k = k1 - k2*lambda (the sign and lambda convention of the library) modulo the group order, lambda being the eigenvalue of the endomorphism.",
  ["inputs"],
  "all scalars of the supporting curves, including those at the rounding boundaries of the lattice reduction",
  "The test samples 10^5 random scalars; the boundary scalars where rounding changes or a half becomes negative or widest are not sampled.",
  ["src/derive/curve.rs", "src/arithmetic.rs", "src/bn256/curve.rs", "src/grumpkin/curve.rs", "src/bls12381/mod.rs", "src/pasta/mod.rs"],
  [("CurveEndo::decompose_scalar, EndoParameters", "src/derive/curve.rs, src/arithmetic.rs")],
  [], ["CurveEndo::decompose_scalar"], "cfg(halo2curves_verif) re-export of the crate-private CurveEndo trait")

p("R01", "Random sampling is unbiased, covers the whole set and uses only its generator",
  "For every prime field, extension field, curve and target group, random sampling draws from the uniform distribution on the set (field elements; points of the prime-order group, both signs of y equally likely; target-group elements): no observable bias of any bit of any coordinate in canonical or internal form, no correlation between coordinates or successive samples. The result depends only on the bytes taken from the caller's generator, of which at least as many are taken as the element has entropy, and distinct draws give distinct elements.",
  ["inputs", "histories"],
  "all outputs of the caller's generator, all sampling histories, every type with a sampler",
  "Existing tests use random elements as inputs and never look at how they are distributed: a truncated or repeated limb, a missing wide reduction or a fixed sign leaves every test passing.",
  ["derive/src/field/mod.rs", "src/derive/field/mod.rs", "src/derive/curve.rs", "src/derive/pairing.rs", "src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs"],
  [("Field::random by wide reduction", "derive/src/field/mod.rs"), ("point sampling by rejection with a random sign", "src/derive/curve.rs"), ("target-group sampling through the final exponentiation", "src/derive/pairing.rs")],
  [], ["Field::random", "Group::random", "affine random"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
