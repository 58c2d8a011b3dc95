// Included once per curve (module with C, A, B, S, NM in scope).
pub fn mk(x: B, y: B, z: B) -> C { C { x, y, z } }
pub fn am(x: B, y: B) -> A { A { x, y } }
    fn addf(form: usize, sub: bool, p: &C, q: &C) -> C {
            let (a, b) = (norm_affine(p), norm_affine(q));
            match (form % 4, sub, form / 4) {
                (0, false, 0) => p + q, (0, false, 1) => *p + *q, (0, false, 2) => *p + q, (0, false, 3) => p + *q,
                (0, false, 4) => { let mut r = *p; r += q; r } (0, false, 5) => { let mut r = *p; r += *q; r } (0, false, _) => [*p, *q].iter().sum(),
                (0, true, 0) => p - q, (0, true, 1) => *p - *q, (0, true, 2) => *p - q, (0, true, 3) => p - *q,
                (0, true, 4) => { let mut r = *p; r -= q; r } (0, true, 5) => { let mut r = *p; r -= *q; r } (0, true, _) => [*p, -q].into_iter().sum(),
                (1, false, 0) => p + &b, (1, false, 1) => *p + b, (1, false, 2) => *p + &b, (1, false, 3) => p + b,
                (1, false, 4) => { let mut r = *p; r += &b; r } (1, false, _) => { let mut r = *p; r += b; r }
                (1, true, 0) => p - &b, (1, true, 1) => *p - b, (1, true, 2) => *p - &b, (1, true, 3) => p - b,
                (1, true, 4) => { let mut r = *p; r -= &b; r } (1, true, _) => { let mut r = *p; r -= b; r }
                (2, false, 0) => &a + q, (2, false, 1) => a + *q, (2, false, 2) => a + q, (2, false, _) => &a + *q,
                (2, true, 0) => &a - q, (2, true, 1) => a - *q, (2, true, 2) => a - q, (2, true, _) => &a - *q,
                (_, false, 0) => &a + &b, (_, false, 1) => a + b, (_, false, 2) => a + &b, (_, false, _) => &a + b,
                (_, true, 0) => &a - &b, (_, true, 1) => a - b, (_, true, 2) => a - &b, (_, true, _) => &a - b,
            }
        }
    fn mulf(form: usize, p: &C, s: &S) -> C {
            let a = norm_affine(p);
            match form % 10 {
                0 => p * s, 1 => *p * *s, 2 => *p * s, 3 => p * *s,
                4 => { let mut r = *p; r *= s; r } 5 => { let mut r = *p; r *= *s; r }
                6 => &a * s, 7 => a * *s, 8 => a * s, _ => &a * *s,
            }
        }
/// The point denoted by a projective triple, computed here (not by the library's conversion): [inf, x, y].
pub fn norm(p: &C) -> Result<Vec<BigInt>, String> {
    let (x, y, z) = (p.x, p.y, p.z);
    if z.c().iter().all(is0) {
        if !x.c().iter().all(is0) || y.c().iter().all(is0) {
            return Err(format!("({x:?}, {y:?}, 0) denotes no point of the curve"));
        }
        return Ok(vec![1.into(), 0.into(), 0.into(), 0.into(), 0.into()]);
    }
    let zi = Option::<B>::from(z.invert()).ok_or("z has no inverse")?;
    let mut v = vec![BigInt::zero()];
    v.extend((x * zi).c());
    v.extend((y * zi).c());
    Ok(v)
}
/// Samples of both random() functions, as the coefficients of the coordinates.
pub fn dist(op: &crate::itf::Op) -> R {
    let cut = |v: Vec<BigInt>| -> Result<Vec<BigInt>, String> {
        cmp("random point is the identity", is0(&v[0]), true)?;
        Ok(if NM.ends_with("_g2") || NM == "triton" { v[1..].to_vec() } else { vec![v[1].clone(), v[3].clone()] })
    };
    crate::rnd::dist(op, "Group::random", &mut |g| cut(norm(&<C as Group>::random(g))?))?;
    crate::rnd::dist(op, "random of affine points", &mut |g| cut(anorm(&<A>::random(g))))
}
fn norm_affine(p: &C) -> A {
    let (x, y, z) = (p.x, p.y, p.z);
    match Option::<B>::from(z.invert()) {
        Some(zi) => am(x * zi, y * zi),
        None => am(B::ZERO, B::ZERO),
    }
}
pub fn anorm(p: &A) -> Vec<BigInt> {
    let (x, y) = (p.x, p.y);
    let inf = x.c().iter().chain(y.c().iter()).all(is0);
    let mut v = vec![BigInt::from(inf as u8)];
    v.extend(x.c());
    v.extend(y.c());
    v
}
/// [x0,x1,y0,y1,l0,l1,inf] as a projective triple (x l, y l, l) or (0, l, 0).
pub fn proj(a: &[BigInt]) -> Result<C, String> {
    let l = B::b(&a[4..6])?;
    if !is0(&a[6]) {
        return Ok(mk(B::ZERO, l, B::ZERO));
    }
    Ok(mk(B::b(&a[0..2])? * l, B::b(&a[2..4])? * l, l))
}
pub fn affine(a: &[BigInt]) -> Result<A, String> {
    Ok(am(B::b(&a[0..2])?, B::b(&a[2..4])?))
}

type Rp = <C as GroupEncoding>::Repr;
const CL: usize = std::mem::size_of::<Rp>();

fn decoded(b: &[u8], e: Option<Vec<BigInt>>) -> R {
    let repr = Rp::from(b);
    let p: Option<C> = C::from_bytes(&repr).into();
    cmp("from_bytes", p.map(|p| norm(&p)).transpose()?, e.clone())?;
    let p: Option<A> = A::from_bytes(&repr).into();
    cmp("affine from_bytes", p.map(|p| anorm(&p)), e.clone())?;
    if e.is_some() {
        let p: Option<C> = C::from_bytes_unchecked(&repr).into();
        cmp("from_bytes_unchecked", p.map(|p| norm(&p)).transpose()?, e.clone())?;
        let p: Option<A> = A::from_bytes_unchecked(&repr).into();
        cmp("affine from_bytes_unchecked", p.map(|p| anorm(&p)), e)?;
    }
    Ok(())
}
fn serded(b: &[u8], e: Option<Vec<BigInt>>) -> R {
    let js = format!("\"{}\"", hex(b));
    cmp("serde text decode", serde_json::from_str::<C>(&js).ok().map(|p| norm(&p)).transpose()?, e.clone())?;
    cmp("affine serde text decode", serde_json::from_str::<A>(&js).ok().map(|p| anorm(&p)), e.clone())?;
    cmp("serde binary decode", bincode::deserialize::<C>(b).ok().map(|p| norm(&p)).transpose()?, e.clone())?;
    cmp("affine serde binary decode", bincode::deserialize::<A>(b).ok().map(|p| anorm(&p)), e)
}

pub struct CvM {
    regs: Vec<C>,
}
impl CvM {
    pub fn new() -> Self {
        CvM { regs: vec![C::identity(); 6] }
    }
    fn store(&mut self, op: &Op, p: C) -> R {
        self.regs[u(&op.a[0])] = p;
        cmp(&op.o, norm(&p)?, op.e.clone())
    }
    pub fn exec(&mut self, op: &Op) -> R {
        let r = |i: usize| self.regs[u(&op.a[i])];
        let form = |i: usize| u(&op.a[i]);
        match op.o.as_str() {
            // ---------------------------------------------------------------- C01
            "load" => {
                let p = proj(&op.a[1..])?;
                self.store(op, p)
            }
            "add" | "sub" => {
                let p = addf(form(3), op.o == "sub", &r(1), &r(2));
                self.store(op, p)
            }
            "double" => self.store(op, r(1).double()),
            "neg" => {
                let p = r(1);
                let a = -norm_affine(&p);
                cmp("affine negation", anorm(&a), op.e.clone())?;
                self.store(op, -p)
            }
            "sum" => {
                let l = pick(&self.regs, &op.a[2..]);
                let p: C = if form(1) % 2 == 0 { l.iter().sum() } else { l.into_iter().sum() };
                self.store(op, p)
            }
            "select" => {
                let c = (form(3) as u8).into();
                let a = <A>::conditional_select(&norm_affine(&r(1)), &norm_affine(&r(2)), c);
                cmp("affine conditional_select", anorm(&a), op.e.clone())?;
                self.store(op, C::conditional_select(&r(1), &r(2), c))
            }
            "rep" => {
                let l = B::b(&op.a[2..4])?;
                let (x, y, z) = { let p = r(1); (p.x, p.y, p.z) };
                self.store(op, mk(x * l, y * l, z * l))
            }
            // ---------------------------------------------------------------- C02
            "mul" => {
                let p = proj(&op.a)?;
                let s = el::<S>(&op.a[7])?;
                cmp("scalar multiple", norm(&mulf(form(8), &p, &s))?, op.e.clone())
            }
            "gen" => {
                let (g, a) = (<C>::generator(), <A>::generator());
                cmp("generator()", norm(&g)?, op.e.clone())?;
                cmp("affine generator()", anorm(&a), op.e.clone())?;
                cmp("Group::generator()", norm(&<C as Group>::generator())?, op.e.clone())?;
                cmp("PrimeCurveAffine::generator()", anorm(&<A as PrimeCurveAffine>::generator()), op.e.clone())
            }
            "endo" => {
                let p = proj(&op.a)?;
                let z = val(&<S as ff::WithSmallOrderMulGroup<3>>::ZETA);
                let e = if z == op.e[0] { &op.e[1..6] } else { &op.e[7..12] };
                if z != op.e[0] && z != op.e[6] {
                    return Err(format!("ZETA = {z} is not a primitive cube root of unity of the scalar field"));
                }
                cmp("endo", norm(&p.endo())?, e.to_vec())
            }
            // ---------------------------------------------------------------- C03
            "conv" => {
                let p = proj(&op.a)?;
                let e = op.e.clone();
                let a = affine(&op.a)?;
                let inf = !is0(&op.a[6]);
                cmp("to_affine", anorm(&p.to_affine()), e.clone())?;
                cmp("Affine::from(C)", anorm(&<A as From<C>>::from(p)), e.clone())?;
                cmp("Affine::from(&C)", anorm(&<A as From<&C>>::from(&p)), e.clone())?;
                cmp("to_curve", norm(&a.to_curve())?, e.clone())?;
                cmp("C::from(Affine)", norm(&<C as From<A>>::from(a))?, e.clone())?;
                cmp("C::from(&Affine)", norm(&<C as From<&A>>::from(&a))?, e.clone())?;
                cmp("is_identity", bool::from(p.is_identity()), inf)?;
                cmp("affine is_identity", bool::from(a.is_identity()), inf)?;
                cmp("is_on_curve", bool::from(p.is_on_curve()), true)?;
                cmp("affine is_on_curve", bool::from(a.is_on_curve()), true)?;
                cmp("identity()", norm(&C::identity())?[0].clone(), 1.into())?;
                cmp("default()", norm(&C::default())?[0].clone(), 1.into())?;
                cmp("affine identity()", anorm(&<A as PrimeCurveAffine>::identity())[0].clone(), 1.into())?;
                cmp("affine default()", anorm(&<A>::default())[0].clone(), 1.into())?;
                // Jacobian coordinates denote (X/Z^2, Y/Z^3)
                let (x, y, z) = p.jacobian_coordinates();
                if inf {
                    cmp("jacobian z of the identity", z.c().iter().all(is0), true)?;
                } else {
                    let zi = Option::<B>::from(z.invert()).ok_or("jacobian z is zero for a finite point")?;
                    let z2 = zi.square();
                    cmp("jacobian_coordinates", [(x * z2).c(), (y * z2 * zi).c()].concat(), e[1..].to_vec())?;
                }
                let back: Option<C> = C::new_jacobian(x, y, z).into();
                cmp("new_jacobian(jacobian_coordinates)", norm(&back.ok_or("new_jacobian rejects the point's own Jacobian coordinates")?)?, e.clone())?;
                if !inf {
                    let c: Option<halo2curves::Coordinates<A>> = a.coordinates().into();
                    let c = c.ok_or("coordinates() is none for a finite point")?;
                    cmp("coordinates", [c.x().c(), c.y().c()].concat(), e[1..].to_vec())?;
                }
                Ok(())
            }
            "batch" => {
                let n = form(0);
                let v: Result<Vec<C>, String> = (0..n).map(|i| proj(&op.a[1 + 7 * i..])).collect();
                let v = v?;
                let mut q = vec![<A as PrimeCurveAffine>::generator(); n];
                C::batch_normalize(&v, &mut q);
                let got: Vec<BigInt> = q.iter().flat_map(|a| anorm(a)).collect();
                cmp("batch_normalize", got, op.e.clone())
            }
            "eq" => {
                let (p, q) = (proj(&op.a)?, proj(&op.a[7..])?);
                let (a, b) = (affine(&op.a)?, affine(&op.a[7..])?);
                let e = !is0(&op.e[0]);
                cmp("==", p == q, e)?;
                cmp("== (swapped)", q == p, e)?;
                cmp("!=", p != q, !e)?;
                cmp("ct_eq", bool::from(p.ct_eq(&q)), e)?;
                cmp("== itself", p == p, true)?;
                cmp("affine ==", a == b, e)?;
                cmp("affine ct_eq", bool::from(a.ct_eq(&b)), e)?;
                cmp("is_identity", bool::from(p.is_identity()), !is0(&op.e[1]))?;
                cmp("== identity()", p == C::identity(), !is0(&op.e[1]))?;
                cmp("identity() ==", C::identity() == q, !is0(&op.e[2]))?;
                cmp("affine == identity()", a == <A as PrimeCurveAffine>::identity(), !is0(&op.e[1]))
            }
            "jac" => {
                let (x, y, z) = (B::b(&op.a[0..2])?, B::b(&op.a[2..4])?, B::b(&op.a[4..6])?);
                let p: Option<C> = C::new_jacobian(x, y, z).into();
                match (p, is0(&op.e[0])) {
                    (None, true) => Ok(()),
                    (Some(p), false) => cmp("new_jacobian", norm(&p)?, op.e[1..].to_vec()),
                    (p, _) => Err(format!("new_jacobian returned {p:?}, specification says accept = {}", op.e[0])),
                }
            }
            "xy" => {
                let (x, y) = (B::b(&op.a[0..2])?, B::b(&op.a[2..4])?);
                let ok = !is0(&op.e[0]);
                cmp("affine is_on_curve", bool::from(am(x, y).is_on_curve()), ok)?;
                cmp("affine is_identity", bool::from(am(x, y).is_identity()), !is0(&op.e[1]))?;
                let p: Option<A> = <A as CurveAffine>::from_xy(x, y).into();
                cmp("from_xy", p.map(|p| (p.x, p.y)), ok.then_some((x, y)))
            }
            "onc" => {
                let (x, y, z) = (B::b(&op.a[0..2])?, B::b(&op.a[2..4])?, B::b(&op.a[4..6])?);
                cmp("is_on_curve", bool::from(mk(x, y, z).is_on_curve()), !is0(&op.e[0]))
            }
            "const" => {
                cmp("a, b", [<C as CurveExt>::a().c(), <C as CurveExt>::b().c()].concat(), op.e[0..4].to_vec())?;
                cmp("affine a, b", [<A as CurveAffine>::a().c(), <A as CurveAffine>::b().c()].concat(), op.e[0..4].to_vec())?;
                cmp("generator", norm(&C::generator())?, op.e[4..].to_vec())
            }
            // ---------------------------------------------------------------- S01
            "cenc" => {
                let (p, a) = (proj(&op.a)?, affine(&op.a)?);
                let b = le(&op.e[0], CL);
                let e = op.e[1..].to_vec();
                cmp("to_bytes", p.to_bytes().as_ref().to_vec(), b.clone())?;
                cmp("affine to_bytes", a.to_bytes().as_ref().to_vec(), b.clone())?;
                decoded(&b, Some(e))
            }
            "cdec" => {
                let b = le(&op.a[0], CL);
                decoded(&b, if is0(&op.e[0]) { None } else { Some(op.e[1..].to_vec()) })
            }
            // ---------------------------------------------------------------- S02
            "senc" => {
                let (p, a) = (proj(&op.a)?, affine(&op.a)?);
                let n = <B as Bs>::BL;
                let (cb, ub, ra, rp) = (le(&op.e[0], CL), le(&op.e[1], 2 * n), le(&op.e[2], 2 * n), le(&op.e[3], 3 * n));
                let e = op.e[4..].to_vec();
                cmp("to_uncompressed", a.to_uncompressed().as_ref().to_vec(), ub.clone())?;
                let q: Option<A> = A::from_uncompressed(&<A as UncompressedEncoding>::Uncompressed::from(&ub[..])).into();
                cmp("from_uncompressed", q.map(|q| anorm(&q)), Some(e.clone()))?;
                let q: Option<A> = A::from_uncompressed_unchecked(&<A as UncompressedEncoding>::Uncompressed::from(&ub[..])).into();
                cmp("from_uncompressed_unchecked", q.map(|q| anorm(&q)), Some(e.clone()))?;
                cmp("affine to_raw_bytes", a.to_raw_bytes(), ra.clone())?;
                cmp("to_raw_bytes", p.to_raw_bytes(), rp.clone())?;
                let (mut w, mut v) = (vec![], vec![]);
                a.write_raw(&mut w).map_err(|e| e.to_string())?;
                p.write_raw(&mut v).map_err(|e| e.to_string())?;
                cmp("affine write_raw", w, ra.clone())?;
                cmp("write_raw", v, rp.clone())?;
                cmp("affine from_raw_bytes", A::from_raw_bytes(&ra).map(|q| anorm(&q)), Some(e.clone()))?;
                cmp("affine from_raw_bytes_unchecked", anorm(&A::from_raw_bytes_unchecked(&ra)), e.clone())?;
                cmp("affine read_raw", A::read_raw(&mut &ra[..]).ok().map(|q| anorm(&q)), Some(e.clone()))?;
                cmp("affine read_raw_unchecked", anorm(&A::read_raw_unchecked(&mut &ra[..])), e.clone())?;
                cmp("from_raw_bytes", C::from_raw_bytes(&rp).map(|q| norm(&q)).transpose()?, Some(e.clone()))?;
                cmp("from_raw_bytes_unchecked", norm(&C::from_raw_bytes_unchecked(&rp))?, e.clone())?;
                cmp("read_raw", C::read_raw(&mut &rp[..]).ok().map(|q| norm(&q)).transpose()?, Some(e.clone()))?;
                cmp("read_raw_unchecked", norm(&C::read_raw_unchecked(&mut &rp[..]))?, e.clone())?;
                streams("", &p, &rp)?;
                streams("affine", &a, &ra)?;
                serde_ways("", &p)?;
                serde_ways("affine", &a)?;
                // the stream form leaves what follows untouched
                let mut more = rp.clone();
                more.extend([1, 2, 3]);
                let mut rd = &more[..];
                C::read_raw(&mut rd).map_err(|e| e.to_string())?;
                cmp("bytes left by read_raw", rd.len(), 3)?;
                // serde
                let js = format!("\"{}\"", hex(&cb));
                cmp("serde text", serde_json::to_string(&p).map_err(|e| e.to_string())?, js.clone())?;
                cmp("affine serde text", serde_json::to_string(&a).map_err(|e| e.to_string())?, js)?;
                cmp("serde binary", bincode::serialize(&p).map_err(|e| e.to_string())?, cb.clone())?;
                cmp("affine serde binary", bincode::serialize(&a).map_err(|e| e.to_string())?, cb.clone())?;
                serded(&cb, Some(e))
            }
            "udec" => {
                let b = le(&op.a[0], 2 * <B as Bs>::BL);
                let q: Option<A> = A::from_uncompressed(&<A as UncompressedEncoding>::Uncompressed::from(&b[..])).into();
                let got = q.map(|q| [q.x.c(), q.y.c()].concat());
                cmp("from_uncompressed", got, if is0(&op.e[0]) { None } else { Some(op.e[1..].to_vec()) })
            }
            "radec" => {
                let b = le(&op.a[0], 2 * <B as Bs>::BL);
                let e = if is0(&op.e[0]) { None } else { Some(op.e[1..].to_vec()) };
                cmp("affine from_raw_bytes", A::from_raw_bytes(&b).map(|q| [q.x.c(), q.y.c()].concat()), e.clone())?;
                cmp("affine read_raw", A::read_raw(&mut &b[..]).ok().map(|q| [q.x.c(), q.y.c()].concat()), e)
            }
            "rpdec" => {
                let b = le(&op.a[0], 3 * <B as Bs>::BL);
                let e = if is0(&op.e[0]) { None } else { Some(op.e[1..].to_vec()) };
                let n = |q: C| norm(&q).unwrap_or_else(|_| vec![BigInt::from(-1)]);
                cmp("from_raw_bytes", C::from_raw_bytes(&b).map(n), e.clone())?;
                cmp("read_raw", C::read_raw(&mut &b[..]).ok().map(n), e)
            }
            "sdec" => {
                let b = le(&op.a[0], CL);
                serded(&b, if is0(&op.e[0]) { None } else { Some(op.e[1..].to_vec()) })
            }
            "slen" => {
                let (p, a) = (proj(&op.a)?, affine(&op.a)?);
                let c = form(7);
                let n = <B as Bs>::BL;
                let cut = |v: Vec<u8>| -> Vec<u8> {
                    let k = v.len();
                    let l = if c < k { c } else { c + 1 };
                    let mut w = v;
                    w.resize(l, 0);
                    w
                };
                let (ra, rp, cb) = (cut(a.to_raw_bytes()), cut(p.to_raw_bytes()), cut(p.to_bytes().as_ref().to_vec()));
                cmp("affine from_raw_bytes (wrong length)", A::from_raw_bytes(&ra).is_none(), true)?;
                cmp("from_raw_bytes (wrong length)", C::from_raw_bytes(&rp).is_none(), true)?;
                if ra.len() < 2 * n {
                    cmp("affine read_raw (truncated)", A::read_raw(&mut &ra[..]).is_err(), true)?;
                }
                if rp.len() < 3 * n {
                    cmp("read_raw (truncated)", C::read_raw(&mut &rp[..]).is_err(), true)?;
                }
                let js = format!("\"{}\"", hex(&cb));
                cmp("serde text (wrong length)", serde_json::from_str::<C>(&js).is_err(), true)?;
                cmp("affine serde text (wrong length)", serde_json::from_str::<A>(&js).is_err(), true)?;
                let odd = format!("\"{}\"", &hex(p.to_bytes().as_ref())[1..]);
                cmp("serde text (odd digits)", serde_json::from_str::<C>(&odd).is_err(), true)?;
                let bad = format!("\"{}zz\"", &hex(p.to_bytes().as_ref())[2..]);
                cmp("serde text (not hexadecimal)", serde_json::from_str::<A>(&bad).is_err(), true)?;
                if cb.len() < CL {
                    cmp("serde binary (truncated)", bincode::deserialize::<C>(&cb).is_err(), true)?;
                    cmp("affine serde binary (truncated)", bincode::deserialize::<A>(&cb).is_err(), true)?;
                }
                Ok(())
            }
            // ---------------------------------------------------------------- M01
            "msm" | "msml" | "msmt" => {
                let table = |j: usize, kmax: usize| -> Result<Vec<A>, String> {
                    // A_j + k D
                    let (mut p, d) = (proj(&op.a[7 * j..])?, proj(&op.a[21..])?);
                    let mut v = Vec::with_capacity(kmax);
                    for _ in 0..kmax {
                        v.push(p);
                        p += d;
                    }
                    let mut q = vec![<A as PrimeCurveAffine>::identity(); kmax];
                    C::batch_normalize(&v, &mut q);
                    Ok(q)
                };
                let threads = u(&op.a[28]);
                let n = u(&op.a[29]);
                let kmax = if op.o == "msm" { (0..n).map(|i| u(&op.a[32 + 4 * i])).max().map_or(0, |k| k + 1) } else { u(&op.a[32]) };
                let tabs = [table(0, kmax)?, table(1, kmax)?, table(2, kmax)?];
                let base = |j: usize, k: usize, z: usize| match z {
                    1 => <A as PrimeCurveAffine>::identity(),
                    2 => tabs[j][k],
                    _ => -tabs[j][k],
                };
                let (mut ss, mut bs) = (Vec::with_capacity(n), Vec::with_capacity(n));
                if op.o == "msm" {
                    for t in op.a[30..].chunks(4) {
                        ss.push(el::<S>(&t[0])?);
                        bs.push(base(u(&t[1]), u(&t[2]), u(&t[3])));
                    }
                } else {
                    let m = if op.o == "msmt" { u(&op.a[40]) } else { n };
                    crate::msm::unfold(&op.a[30..], &op.a[34..], m, &(val(&-S::ONE) + 1), |s, j, k, z| {
                        ss.push(el::<S>(&s)?);
                        bs.push(base(j, k, z));
                        Ok(())
                    })?;
                }
                // a repeated block
                for i in ss.len()..n {
                    let m = u(&op.a[40]);
                    ss.push(ss[i - m]);
                    bs.push(bs[i - m]);
                }
                crate::msm::in_pool(threads, || -> R {
                    if op.o == "msmt" {
                        if n < 500000 {
                            cmp("msm_parallel", norm(&halo2curves::msm::msm_parallel(&ss, &bs))?, op.e.clone())?;
                        }
                        return cmp("msm_best", norm(&halo2curves::msm::msm_best(&ss, &bs))?, op.e.clone());
                    }
                    let mut acc = <C as Group>::identity();
                    halo2curves::msm::msm_serial(&ss, &bs, &mut acc);
                    cmp("msm_serial", norm(&acc)?, op.e.clone())?;
                    cmp("msm_parallel", norm(&halo2curves::msm::msm_parallel(&ss, &bs))?, op.e.clone())?;
                    cmp("msm_best", norm(&halo2curves::msm::msm_best(&ss, &bs))?, op.e.clone())
                })
            }
            "mis" => {
                let ss = vec![S::ONE; form(0)];
                let bs = vec![<A as PrimeCurveAffine>::generator(); form(1)];
                let r = quiet(|| { let mut acc = <C as Group>::identity(); halo2curves::msm::msm_serial(&ss, &bs, &mut acc); });
                cmp("msm_serial refuses lengths that differ", r.is_err(), true)?;
                cmp("msm_parallel refuses lengths that differ", quiet(|| { halo2curves::msm::msm_parallel(&ss, &bs); }).is_err(), true)?;
                cmp("msm_best refuses lengths that differ", quiet(|| { halo2curves::msm::msm_best(&ss, &bs); }).is_err(), true)
            }
            // ---------------------------------------------------------------- T01
            "fft" => {
                let (k, w) = (u(&op.a[1]) as u32, el::<S>(&op.a[2])?);
                let a: Result<Vec<S>, String> = op.a[3..].iter().map(el::<S>).collect();
                let a = a?;
                let mut v = a.clone();
                let got: Vec<BigInt> = crate::msm::in_pool(form(0), || {
                    halo2curves::fft::best_fft(&mut v, w, k);
                    v.iter().map(val).collect()
                });
                cmp("best_fft", got, op.e.clone())?;
                crate::msm::in_pool(form(0), || halo2curves::fft::best_fft(&mut v, w.invert().unwrap(), k));
                let n = S::from(a.len() as u64).invert().unwrap();
                cmp("inverse transform", v.iter().map(|x| val(&(*x * n))).collect::<Vec<_>>(), a.iter().map(val).collect())
            }
            "fftl" => {
                let (k, w) = (u(&op.a[1]) as u32, el::<S>(&op.a[2])?);
                let p = val(&-S::ONE) + 1;
                let mut q = crate::msm::Stream::new(&op.a[3]);
                let mut a = Vec::with_capacity(1 << k);
                for _ in 0..1usize << k {
                    let x = match (is0(&op.a[4]), q.f(660, 4)) {
                        (false, 0) => &p - 1 - BigInt::from(q.f(640, 3)),
                        (false, 1) => BigInt::zero(),
                        _ => q.big(&p),
                    };
                    a.push(el::<S>(&x)?);
                    q.next();
                }
                let mut v = a.clone();
                crate::msm::in_pool(form(0), || halo2curves::fft::best_fft(&mut v, w, k));
                let c = el::<S>(&op.a[5])?;
                let f = v.iter().rev().fold(S::ZERO, |s, x| s * c + x);
                cmp("best_fft: (sum of c^j out_j, out_j1, out_j2)", vec![val(&f), val(&v[form(6)]), val(&v[form(7)])], op.e.clone())?;
                crate::msm::in_pool(form(0), || halo2curves::fft::best_fft(&mut v, w.invert().unwrap(), k));
                let n = S::from(a.len() as u64).invert().unwrap();
                cmp("inverse transform restores the input", v.iter().zip(&a).all(|(x, y)| *x * n == *y), true)
            }
            "fftg" => {
                let (k, w) = (u(&op.a[1]) as u32, el::<S>(&op.a[2])?);
                let a: Result<Vec<C>, String> = op.a[3..].chunks(7).map(proj).collect();
                let mut v = a?;
                crate::msm::in_pool(form(0), || halo2curves::fft::best_fft(&mut v, w, k));
                let mut got = vec![];
                for x in &v {
                    got.extend(norm(x)?);
                }
                cmp("best_fft of points", got, op.e.clone())
            }
            "bfly" => {
                let (k, t, w) = (form(1), form(2), el::<S>(&op.a[3])?);
                let a: Result<Vec<S>, String> = op.a[4..].iter().map(el::<S>).collect();
                let mut v = a?;
                let tw: Vec<S> = (0..1usize << (k + t - 1)).scan(S::ONE, |x, _| { let y = *x; *x *= w; Some(y) }).collect();
                let got: Vec<BigInt> = crate::msm::in_pool(form(0), || {
                    halo2curves::fft::recursive_butterfly_arithmetic(&mut v, 1 << k, 1 << t, &tw);
                    v.iter().map(val).collect()
                });
                cmp("recursive_butterfly_arithmetic", got, op.e.clone())
            }
            "fftlen" => {
                let mut v = vec![S::ONE; form(1)];
                let r = quiet(|| crate::msm::in_pool(form(0), || halo2curves::fft::best_fft(&mut v, S::ONE, form(2) as u32)));
                cmp("best_fft accepts a vector of length 2^log_n only", r.is_ok(), !is0(&op.e[0]))
            }
            // ---------------------------------------------------------------- G01
            "cof" => {
                let p = proj(&op.a)?;
                let q = p.clear_cofactor();
                cmp("clear_cofactor", norm(&q)?, op.e[0..5].to_vec())?;
                cmp("is_torsion_free", bool::from(p.is_torsion_free()), !is0(&op.e[5]))?;
                cmp("is_torsion_free after clear_cofactor", bool::from(q.is_torsion_free()), true)?;
                cmp("is_small_order", bool::from(p.is_small_order()), !is0(&op.e[6]))?;
                let s: Option<C> = p.into_subgroup().into();
                cmp("into_subgroup", s.map(|s| norm(&s)).transpose()?, if is0(&op.e[5]) { None } else { Some(norm(&p)?) })
            }
            "cofhom" => {
                let (p, q) = (proj(&op.a)?, proj(&op.a[7..])?);
                cmp("clear_cofactor(P + Q)", norm(&(p + q).clear_cofactor())?, op.e.clone())?;
                cmp("clear_cofactor(P) + clear_cofactor(Q)", norm(&(p.clear_cofactor() + q.clear_cofactor()))?, op.e.clone())
            }
            "rand" => {
                let rng = || crate::msm::Bytes::new(&op.a[0], form(1), form(2) as u8);
                let r = crate::util::le(&op.a[3], 64);
                let check = |what: &str, p: C| -> R {
                    cmp(&format!("{what} on curve"), bool::from(p.is_on_curve()), true)?;
                    // [r] P by additions only
                    let mut acc = C::identity();
                    for i in (0..512).rev() {
                        acc = acc + acc;
                        if r[i / 8] >> (i % 8) & 1 == 1 {
                            acc += p;
                        }
                    }
                    cmp(&format!("[r] times {what}"), norm(&acc)?[0].clone(), 1.into())
                };
                check("random point", <C as Group>::random(rng()))?;
                check("random affine point", <A>::random(rng()).to_curve())?;
                let mut g = crate::msm::Bytes::new(&op.a[0], 0, 0);
                let (p, q) = (<C as Group>::random(&mut g), <C as Group>::random(&mut g));
                cmp("two successive random points differ", norm(&p)? != norm(&q)?, true)
            }
            "h2c" | "h2cl" => {
                let b = |i: usize| form(i) as u8;
                let n = form(0);
                let pre: Vec<u8> = (1..=n).map(b).collect();
                let pre = String::from_utf8(pre).map_err(|e| format!("harness: {e}"))?;
                let msg: Vec<u8> = if op.o == "h2c" {
                    (n + 1..op.a.len()).map(b).collect()
                } else {
                    let pat: Vec<u8> = (n + 2..op.a.len()).map(b).collect();
                    (0..form(n + 1)).map(|i| pat[i % pat.len()]).collect()
                };
                let res = quiet(|| {
                    let h = <C as CurveExt>::hash_to_curve(&pre);
                    (h(&msg), h(&msg))
                });
                if op.e.len() == 1 {
                    return cmp("an over-long domain is refused", res.is_err(), true);
                }
                let (p, q) = res.map_err(|_| "hash_to_curve panicked".to_string())?;
                Self::check_hash(&p, op)?;
                Self::check_hash(&q, op)
            }
            "map" => {
                let bs: Vec<u8> = op.a.iter().map(|x| u(x) as u8).collect();
                let run = |b: Option<Vec<u8>>| {
                    expanded(b)?;
                    let res = quiet(|| <C as CurveExt>::hash_to_curve("")(b""));
                    expanded(None)?;
                    res.map_err(|_| "hash_to_curve panicked".to_string())
                };
                let p = run(Some(bs))?;
                let r = Self::check_hash(&p, op);
                if r.is_err() && bool::from(run(None)?.ct_eq(&p)) {
                    return Err("skip: the stand-in for the expanded message has no effect".into());
                }
                r
            }
            o => Err(format!("harness: unknown operation {o}")),
        }
    }

    fn check_hash(p: &C, op: &Op) -> R {
        cmp("hash on curve", bool::from(p.is_on_curve()), true)?;
        cmp("hash", norm(p)?, op.e.clone())
    }
}
