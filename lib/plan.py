"""What each check runs: models, bounds, minimal coverage."""
def m(file, main, inv, quick, thorough, **kw):
    return dict(file=file, main=main, inv=inv, quick=dict(zip(("procs", "steps", "samples"), quick)),
                thorough=dict(zip(("procs", "steps", "samples"), thorough)), **kw)

CURVES11 = [f"init{i}" for i in range(11)]

PLAN = {
 "F01": dict(level="exploration", models=[m("f01.qnt", "f01", "invF01", (8, 60, 5), (8, 400, 40)),
    m("mont.qnt", "mont", "okMont", (2, 300, 100), (8, 600, 2000), replay=False)],
    rule="operands drawn from canonical and internal-form boundary classes, registers never re-normalised",
    ops=["load","add","sub","mul","neg","double","square","cube","select","sum","product","chain","pow","eq","mulsub","rand"], min_ops=50000),
 "F02": dict(level="exploration", models=[
    m("f02.qnt", "f02", "okF02", (8, 40, 4), (8, 300, 40)),
    m("alg.qnt", "alg", "ok", (8, 500, 6), (16, 1500, 40), inits=["initBy", "initJac"])],
    rule="operands: boundary, zero-run, small-order and shared-factor classes",
    ops=["inv","batchinv","leg","sqrt","sqrtratio","byinv","jac"], min_ops=10000),
 "F03": dict(level="exploration", models=[m("f03.qnt", "f03", "okF03", (8, 40, 4), (8, 300, 40))],
    rule="byte strings on both sides of the acceptance boundary", ops=["enc","dec","len","cmp","char"], min_ops=10000),
 "F04": dict(level="exploration", models=[m("f04.qnt", "f04", "okF04", (7, 40, 4), (8, 300, 40)),
    m("f04.qnt", "f04", None, (1, 64, 1), (1, 64, 1), init="initT", step="stepT")],
    rule="integers around multiples of p, limb and size boundaries; the whole 2^16 table",
    ops=["u64","u128","bool","limbs","uniform","str","const","u64range"], min_ops=10000),
 "F05": dict(level="exploration", models=[m("f05.qnt", "f05", "okF05", (8, 80, 8), (8, 400, 60))],
    modeltests=[dict(file="f05.qnt", main="f05")],
    rule="limbs that start, carry and stop carries; minimal, maximal, one-bit numbers; every word count from 1 to 9",
    ops=["lnew","ladd","lsub","lneg","lmul","lmuls","lshr","lcmp","llen"], min_ops=50000),
 "X01": dict(level="exploration", models=[m("x01.qnt", "x01", "invX01", (16, 40, 4), (16, 300, 20))],
    modeltests=[dict(file="x01.qnt", main="x01")],
    rule="operands with zero, boundary and dependent coefficients; registers never re-normalised",
    ops=["load","add","sub","mul","neg","double","square","frob","conj","norm","nonres","inv","inv0","select","sum","product","pow","eq","m1","m01","m014","m034","cyc"], min_ops=10000),
 "X02": dict(level="exploration", models=[m("x02.qnt", "x02", "invX02", (8, 40, 6), (8, 300, 40))],
    rule="squares, non-squares, base-field, imaginary and small-order elements; byte strings around the acceptance boundary",
    ops=["sqrt","enc","dec","len","const","cmp","uniform","u64"], min_ops=8000),
 "C01": dict(level="exploration", models=[m("c01.qnt", "c01", "invC01", (11, 40, 6), (33, 300, 12), inits=CURVES11)],
    modeltests=[dict(file="curve.qnt", main="curve")],
    rule="operands equal, opposite, doubled, with a common y, the identity; every projective representation scaled independently",
    ops=["load","add","sub","double","neg","sum","select","rep"], min_ops=10000),
 "C02": dict(level="exploration", models=[m("c02.qnt", "c02", "okC02", (11, 14, 6), (33, 150, 6), inits=CURVES11)],
    modeltests=[dict(file="curve.qnt", main="curve", match="generatorsTest")],
    rule="scalars from boundary, sparse and dense classes; points of the whole curve in scaled representations",
    ops=["mul","gen","endo"], min_ops=3000),
 "C03": dict(level="exploration", models=[m("c03.qnt", "c03", "okC03", (11, 30, 6), (33, 250, 12), inits=CURVES11)],
    rule="coordinates on and next to the curve, degenerate triples, identities at any batch position",
    ops=["conv","batch","eq","jac","xy","onc","const"], min_ops=8000),
 "S01": dict(level="exploration", models=[m("s01.qnt", "s01", "okS01", (11, 14, 4), (33, 200, 5), inits=CURVES11)],
    rule="encodings of special and generic points and byte strings one mutation away from them; all 256 flag bytes",
    ops=["cenc","cdec"], min_ops=10000),
 "S02": dict(level="exploration", models=[m("s02.qnt", "s02", "okS02", (11, 20, 6), (33, 250, 10), inits=CURVES11)],
    rule="coordinates on and off the curve, non-reduced coefficients, degenerate triples, wrong lengths, truncated streams",
    ops=["senc","udec","radec","rpdec","sdec","slen"], min_ops=8000),
 "M01": dict(level="exploration", models=[
    m("m01.qnt", "m01", "okM01", (11, 10, 6), (33, 60, 6), inits=CURVES11),
    m("m01.qnt", "m01", None, (11, 6, 2), (22, 20, 4), inits=CURVES11, step="stepL"),
    m("m01.qnt", "m01", None, (0, 2, 1), (11, 3, 2), inits=CURVES11, step="stepXL"),
    m("m01.qnt", "m01", None, (1, 1, 1), (11, 1, 1), inits=[CURVES11[i] for i in (6, 3, 5, 7, 0, 1, 2, 4, 8, 9, 10)], step="step15"),
    m("m01.qnt", "m01", None, (2, 1, 1), (11, 2, 2), inits=[CURVES11[i] for i in (5, 0, 3, 7, 6, 1, 2, 4, 8, 9, 10)], step="step12"),
    m("m01.qnt", "m01", None, (1, 1, 1), (11, 1, 2), inits=[CURVES11[i] for i in (3, 5, 7, 0, 6, 1, 2, 4, 8, 9, 10)], step="step13"),
    m("m01.qnt", "m01", None, (0, 1, 1), (11, 1, 1), inits=CURVES11, step="step14"),
    m("sched.qnt", "sched", "okSched", (2, 60, 400), (8, 200, 2000), replay=False)],
    modeltests=[dict(file="m01.qnt", main="m01", match="recodingTest"), dict(file="sched.qnt", main="sched", match="inductiveTest")],
    rule="repeated, opposite, identity and cancelling bases; zero, boundary, sparse and dense scalars; lengths around every algorithm threshold; every window width up to 15 bits; thread pools of 1 to 9 workers",
    ops=["msm","msml","msmt","mis"], min_ops=500, op_limit=240),
 "T01": dict(level="exploration", models=[
    m("t01.qnt", "t01", "okT01", (11, 16, 4), (33, 60, 8), inits=CURVES11),
    m("t01.qnt", "t01", None, (11, 3, 2), (22, 8, 3), inits=CURVES11, step="stepL"),
    m("t01.qnt", "t01", None, (0, 2, 1), (11, 3, 1), inits=CURVES11, step="stepXL"),
    m("fftalg.qnt", "fftalg", "okFft", (2, 80, 30), (8, 80, 400), replay=False)],
    modeltests=[dict(file="t01.qnt", main="t01", match="functionalTest"), dict(file="fftalg.qnt", main="fftalg")],
    rule="unit vectors, constants, geometric and dense vectors; all primitive roots of each size; thread pools of 1 to 9 workers",
    ops=["fft","fftl","fftg","bfly","fftlen"], min_ops=500, op_limit=240),
 "E01": dict(level="exploration", models=[m("e01.qnt", "e01", "okE01", (6, 30, 4), (24, 300, 8), inits=[f"init{i}" for i in range(6)])],
    modeltests=[dict(file="e01.qnt", main="e01", match="latticeTest")],
    rule="scalars at rounding boundaries of the lattice basis, sparse, extreme and dense scalars", ops=["glv","glvp"], min_ops=5000),
 "G01": dict(level="exploration", models=[m("g01.qnt", "g01", "okG01", (11, 14, 4), (33, 120, 6), inits=CURVES11)],
    modeltests=[dict(file="cof.qnt", main="cof", match="cofactorTest")],
    rule="subgroup points, torsion points of small order, their sums, generic points of the whole curve; all random byte streams of the samplers",
    ops=["cof","cofhom","rand"], min_ops=1000),
 "H01": dict(level="exploration", models=[m("h01.qnt", "h01", "okH01", (10, 12, 4), (30, 100, 5), inits=[f"init{i}" for i in range(10)]),
    m("h01.qnt", "h01", None, (10, 2, 1), (10, 12, 1), inits=[f"init{i}" for i in range(10)], step="stepLong"),
    m("h01.qnt", "h01", None, (2, 1, 1), (10, 3, 1), inits=[f"init{i}" for i in (0, 6, 3, 1, 2, 4, 5, 7, 8, 9)], step="stepXLong")],
    modeltests=[dict(file="h2c.qnt", main="h2c", match="rfcTest|isoTest"), dict(file="sha.qnt", main="sha", match="shaTest"), dict(file="h01.qnt", main="h01", match="specialTest")],
    rule="messages and domains at every padding boundary, messages up to 65559 bytes, the longest domain and the first refused one; map inputs exceptional for either map, zero, opposite, unreduced",
    ops=["h2c","h2cl","map"], min_ops=800),
 "B01": dict(level="exploration", models=[m("b01.qnt", "b01", "okB01", (6, 10, 3), (24, 120, 3), inits=["init0","init1","init2"])],
    modeltests=[dict(file="pair.qnt", main="pair", match="bilinearTest")],
    rule="multiples by boundary, sparse and dense scalars; lists of 0 to 140 pairs with identities anywhere, repeated and cancelling pairs",
    ops=["pair","multi"], min_ops=400),
 "B02": dict(level="exploration", models=[m("b02.qnt", "b02", "okB02", (6, 12, 3), (24, 120, 3), inits=["init0","init1","init2"])],
    modeltests=[dict(file="b02.qnt", main="b02", match="finalExpTest")],
    rule="histories over registers; boundary, sparse and dense scalars; dense, sparse, subfield, unitary and cyclotomic arguments of the final exponentiation",
    ops=["gload","gadd","gsub","gneg","gdbl","gsum","gsel","gid","gmul","geq","fexp","grand"], min_ops=1500),
 "R01": dict(level="exploration", models=[
    m("r01.qnt", "r01", None, (4, 1, 1), (8, 4, 2), step="stepR"),
    m("r01.qnt", "r01", None, (4, 1, 1), (8, 4, 2), step="stepP"),
    m("r01.qnt", "r01", "okR01", (1, 300, 100), (1, 1000, 1000), replay=False)],
    modeltests=[dict(file="r01.qnt", main="r01", match="wideTest|weightTest|clearTest|bitsTest")],
    rule="samples of every sampler from seeded generators: every bit of every coordinate in canonical and internal form, correlations between bits, limbs, coordinates and successive samples",
    ops=["dist"], min_ops=100),
}
