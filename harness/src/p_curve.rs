//! Elliptic-curve level properties.
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::rt::*;
use festa_rs::ecFESTA::*;
use num_bigint::BigUint;
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;
use std::sync::OnceLock;

/// Supersingular Montgomery curves with E(GF(p^2)) = (Z/(p+1))^2: A = 6, A = -6 and ends of random walks from A = 6,
/// all computed by the oracle.
pub fn pool(ctx: &Ctx) -> &'static Vec<Cv> {
    static P: OnceLock<Vec<Cv>> = OnceLock::new();
    P.get_or_init(|| {
        let n = 16usize;
        let out: Vec<std::sync::Mutex<Option<Cv>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
        std::thread::scope(|s| {
            for i in 0..n {
                let slot = &out[i];
                let seed = ctx.case_seed("pool", i);
                s.spawn(move || {
                    let mut rng = ChaCha8Rng::from_seed(seed);
                    let mut e = Cv { a: F2::u(6) };
                    if i == 1 {
                        e = Cv { a: F2::u(6).neg() };
                    }
                    if i >= 2 {
                        for _ in 0..3 {
                            let l = [3u32, 5, 7, 11, 13][below(&mut rng, 5) as usize];
                            let k = e.rand_order(&mut rng, &[(l, 1)]);
                            e = e.velu(&k, l as u64).0;
                        }
                    }
                    *slot.lock().unwrap() = Some(e);
                });
            }
        });
        out.into_iter().map(|m| m.into_inner().unwrap().expect("oracle: pool")).collect()
    })
}
pub fn pick(ctx: &Ctx, rng: &mut ChaCha8Rng) -> Cv {
    let p = pool(ctx);
    p[below(rng, p.len() as u64) as usize]
}
pub fn rand_z(rng: &mut ChaCha8Rng) -> F2 {
    loop {
        let (z, _) = match below(rng, 3) {
            0 => (F2::one(), ""),
            1 => edge_f2(rng),
            _ => (F2::rand(rng), ""),
        };
        if !z.is_zero() {
            return z;
        }
    }
}
/// Points of order 2 and 4 of a Montgomery curve, when rational.
pub fn special_points(e: &Cv) -> Vec<(Pt, &'static str)> {
    let mut v: Vec<(Pt, &'static str)> = vec![(None, "inf"), (Some((F2::zero(), F2::zero())), "(0,0)")];
    let half = F2::u(2).inv();
    if let Some(s) = e.a.sq().sub(&F2::u(4)).sqrt() {
        for t in [s, s.neg()] {
            v.push((Some((t.sub(&e.a).mul(&half), F2::zero())), "order2"));
        }
    }
    if let Some(s) = e.a.add(&F2::u(2)).sqrt() {
        v.push((Some((F2::one(), s)), "order4 x=1"));
        v.push((Some((F2::one(), s.neg())), "order4 x=1"));
    }
    if let Some(s) = e.a.sub(&F2::u(2)).sqrt() {
        v.push((Some((F2::one().neg(), s)), "order4 x=-1"));
    }
    v
}
fn rand_curve(ctx: &Ctx, rng: &mut ChaCha8Rng) -> (Cv, &'static str) {
    match below(rng, 4) {
        0 => (Cv { a: F2::rand(rng) }, "ordinary"),
        1 => loop {
            let (a, _) = edge_f2(rng);
            if !a.sq().sub(&F2::u(4)).is_zero() {
                break (Cv { a }, "edge A");
            }
        },
        _ => (pick(ctx, rng), "supersingular"),
    }
}
fn same(what: &str, e: &Cv, got: &Point, want: &Pt, ins: &[&Pt]) -> Res {
    let g = pt(got);
    if g != *want {
        return Err(format!("{} on A={}: inputs {:?}: got {} want {}", what, show2(&e.a), ins.iter().map(|x| showp(x)).collect::<Vec<_>>(), showp(&g), showp(want)));
    }
    Ok(())
}
fn key2(e: &Cv, a: &Pt, b: &Pt) -> Vec<u8> {
    let mut k = e.a.enc();
    k.extend(Cv::pt_key(a));
    k.extend(Cv::pt_key(b));
    k
}

/// P10 for points: equality, neutrality and conditional operations on every projective form.
pub fn p10_points(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("points", ctx.n(120, 1500), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let q = e.rand_point(&mut c.rng);
        let mut pts = special_points(&e);
        for (x, n) in [(q, "random"), (Cv::neg(&q), "negated"), (e.rand_point(&mut c.rng), "random"), (None, "inf"), (None, "inf")] {
            pts.push((x, n));
        }
        // neutral elements the library itself computes, and the mark left by a rejected lift
        let mut forms: Vec<(Point, Pt, &str)> = Vec::new();
        let P = point(&q);
        let (o, _) = E.complete_pointX(&PointX::new_xz(&fq(&rand_z(&mut c.rng)), &fq(&F2::zero())));
        let mut rej = P;
        let bad = E.set_xy(&mut rej, &fq(&F2::rand(&mut c.rng)), &fq(&F2::rand(&mut c.rng)));
        ensure!(bad == 0, "harness: a random pair is on the curve");
        for (x, n) in [(Point::INFINITY, "inf constant"), (o, "inf completed"), (rej, "inf rejected"), (E.sub(&P, &P), "inf P-P"), (E.add(&P, &-P), "inf P+(-P)"), (E.double(&point(&pts[1].0)), "inf 2*order2"), (E.double(&o), "inf 2*inf"), (E.add(&o, &rej), "inf+inf"), (E.mul_small(&P, 0), "inf 0*P")] {
            forms.push((x, None, n));
        }
        for (x, n) in pts.iter().cloned().collect::<Vec<_>>() {
            forms.push((point_z(&E, &x, &rand_z(&mut c.rng)), x, n));
            forms.push((point_z(&E, &x, &rand_z(&mut c.rng)), x, n));
        }
        for (P, a, n1) in &forms {
            ensure!(P.isinfinity() == if a.is_none() { u32::MAX } else { 0 }, "isinfinity of {} ({n1}) gives {:x}", showp(a), P.isinfinity());
            ensure!(P.to_xy_vartime().is_none() == a.is_none(), "to_xy_vartime of {} ({n1})", showp(a));
            ensure!(E.on_curve(P), "on_curve rejects {} ({n1})", showp(a));
            for (Q, b, n2) in &forms {
                let eq = P.equals(Q);
                let want = if a == b { u32::MAX } else { 0 };
                ensure!(eq == want, "equals on {} ({n1}) and {} ({n2}) gives {:x}", showp(a), showp(b), eq);
                for ctl in [0, u32::MAX] {
                    let mut t = *P;
                    t.set_cond(Q, ctl);
                    same("set_cond", &e, &t, if ctl == 0 { a } else { b }, &[a, b])?;
                }
                c.obs(&format!("points: {} & {}", if a.is_none() { "neutral" } else { "finite" }, if b.is_none() { "neutral" } else { "finite" }), &key2(&e, a, b));
            }
            for ctl in [0, u32::MAX] {
                let mut t = *P;
                t.set_condneg(ctl);
                same("set_condneg", &e, &t, &if ctl == 0 { *a } else { Cv::neg(a) }, &[a])?;
            }
        }
        c.sample("points", || format!("{cn} curve A={}", show2(&e.a)));
        Ok(())
    });
}
pub fn p11(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("law", ctx.n(300, 4000), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let mut pts = special_points(&e);
        let q = e.rand_point(&mut c.rng);
        pts.push((q, "random"));
        pts.push((Cv::neg(&q), "negated"));
        pts.push((e.add(&q, &q), "double"));
        let mut mixed = Vec::new();
        for (s, n) in pts.iter().take(6) {
            mixed.push((e.add(&q, s), *n));
        }
        for (m, _) in mixed {
            pts.push((m, "random+special"));
        }
        pts.push((e.rand_point(&mut c.rng), "random"));
        for _ in 0..14 {
            let (a, n1) = pts[below(&mut c.rng, pts.len() as u64) as usize];
            let (b, n2) = match below(&mut c.rng, 5) {
                0 => (a, n1),
                1 => (Cv::neg(&a), n1),
                _ => pts[below(&mut c.rng, pts.len() as u64) as usize],
            };
            let (za, zb) = (rand_z(&mut c.rng), rand_z(&mut c.rng));
            let (P, Q) = (point_z(&E, &a, &za), point_z(&E, &b, &zb));
            let s = e.add(&a, &b);
            let d = e.add(&a, &Cv::neg(&b));
            let dd = e.add(&a, &a);
            let junk = point(&pts[0].0);
            match below(&mut c.rng, 2) {
                0 => {
                    same("add", &e, &E.add(&P, &Q), &s, &[&a, &b])?;
                    same("sub", &e, &E.sub(&P, &Q), &d, &[&a, &b])?;
                    same("double", &e, &E.double(&P), &dd, &[&a])?;
                }
                _ => {
                    let mut t = junk;
                    E.add_into(&mut t, &P, &Q);
                    same("add_into", &e, &t, &s, &[&a, &b])?;
                    E.sub_into(&mut t, &P, &Q);
                    same("sub_into", &e, &t, &d, &[&a, &b])?;
                    let mut t = P;
                    E.addto(&mut t, &Q);
                    same("addto", &e, &t, &s, &[&a, &b])?;
                    let mut t = P;
                    E.subfrom(&mut t, &Q);
                    same("subfrom", &e, &t, &d, &[&a, &b])?;
                    let mut t = junk;
                    E.double_into(&mut t, &P);
                    same("double_into", &e, &t, &dd, &[&a])?;
                    let mut t = P;
                    E.double_self(&mut t);
                    same("double_self", &e, &t, &dd, &[&a])?;
                }
            }
            same("neg", &e, &(-P), &Cv::neg(&a), &[&a])?;
            same("neg ref", &e, &(-&P), &Cv::neg(&a), &[&a])?;
            let mut t = P;
            t.set_neg();
            same("set_neg", &e, &t, &Cv::neg(&a), &[&a])?;
            for ctl in [0, u32::MAX] {
                let mut t = P;
                t.set_condneg(ctl);
                same("set_condneg", &e, &t, &if ctl == 0 { a } else { Cv::neg(&a) }, &[&a])?;
                let mut t = P;
                t.set_cond(&Q, ctl);
                same("set_cond", &e, &t, &if ctl == 0 { a } else { b }, &[&a, &b])?;
            }
            let eq = P.equals(&Q);
            ensure!(eq == if a == b { u32::MAX } else { 0 }, "equals on {} and {} gives {:x}", showp(&a), showp(&b), eq);
            // results remain usable: chain a further operation on a computed representation
            let r1 = E.add(&E.add(&P, &Q), &E.double(&P));
            same("(P+Q)+2P", &e, &r1, &e.add(&s, &dd), &[&a, &b])?;
            let r2 = E.sub(&E.add(&P, &Q), &Q);
            ensure!(r2.equals(&P) == u32::MAX, "(P+Q)-Q != P for {} {}", showp(&a), showp(&b));
            c.obs(&format!("{cn}: {n1} & {n2}"), &key2(&e, &a, &b));
            c.sample("law", || format!("A={} P={} Q={}", show2(&e.a), showp(&a), showp(&b)));
        }
        Ok(())
    });
    ctx.cases("double_iter", ctx.n(40, 300), |c| {
        let (e, _) = rand_curve(ctx, &mut c.rng);
        let e2 = rand_curve(ctx, &mut c.rng).0;
        let (E, E2) = (cv(&e), cv(&e2));
        let sp = special_points(&e);
        let a = if below(&mut c.rng, 3) == 0 { sp[below(&mut c.rng, sp.len() as u64) as usize].0 } else { e.rand_point(&mut c.rng) };
        let b = e.rand_point(&mut c.rng);
        let (a2, b2) = (e2.rand_point(&mut c.rng), e2.rand_point(&mut c.rng));
        let n = below(&mut c.rng, 20) as usize;
        let z = rand_z(&mut c.rng);
        let P = point_z(&E, &a, &z);
        let w = e.mul(&a, &(bu(1) << n));
        same(&format!("double_iter({n})"), &e, &E.double_iter(&P, n), &w, &[&a])?;
        // products of curves act componentwise
        let ep = EllipticProduct::new(&E, &E2);
        let (c1, c2) = (CouplePoint::new(&P, &point(&a2)), CouplePoint::new(&point(&b), &point(&b2)));
        let (s1, s2) = ep.add(&c1, &c2).points();
        same("product add.1", &e, &s1, &e.add(&a, &b), &[&a, &b])?;
        same("product add.2", &e2, &s2, &e2.add(&a2, &b2), &[&a2, &b2])?;
        let (s1, s2) = ep.double(&c1).points();
        same("product double.1", &e, &s1, &e.add(&a, &a), &[&a])?;
        same("product double.2", &e2, &s2, &e2.add(&a2, &a2), &[&a2])?;
        let (s1, s2) = ep.double_iter(&c1, n).points();
        same("product double_iter.1", &e, &s1, &w, &[&a])?;
        same("product double_iter.2", &e2, &s2, &e2.mul(&a2, &(bu(1) << n)), &[&a2])?;
        // x-only doubling
        if let Some((x, _)) = a {
            let z = rand_z(&mut c.rng);
            let (X, Z) = E.x_dbl_coords(&fq(&x.mul(&z)), &fq(&z));
            let (X, Z) = (f2(&X), f2(&Z));
            match e.add(&a, &a) {
                None => ensure!(Z.is_zero(), "x-only doubling of a point of order 2 is not infinity"),
                Some((x2, _)) => ensure!(!Z.is_zero() && X == x2.mul(&Z), "x-only doubling of {}", showp(&a)),
            }
        }
        c.obs("iterated / product / x-only", &key2(&e, &a, &b));
        Ok(())
    });
}

fn gen_scalar(rng: &mut ChaCha8Rng) -> BigUint {
    match below(rng, 15) {
        12 | 13 | 14 => crate::p_field::gen_len(rng),
        0 => bu(below(rng, 10)),
        1 => bu(1) << below(rng, 1320),
        2 => (bu(1) << (1 + below(rng, 1320))) - 1u32,
        3 => p() + 1u32 - bu(below(rng, 4)),
        4 => p() + 1u32 + bu(below(rng, 4)),
        5 => bu(rng.next_u64() >> below(rng, 64)),
        6 => (p() + 1u32) >> below(rng, 3),
        7 => BigUint::from_bytes_le(&rbytes(rng, 180)),
        8 => bu((1 << 20) + below(rng, 4 << 20)), // around the switch between the two ladders
        _ => rand_below(rng, &(p() + 1u32)),
    }
}

pub fn p12(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("mul", ctx.n(120, 2000), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let mut pts = special_points(&e);
        pts.push((e.rand_point(&mut c.rng), "random"));
        for t in 0..8 {
            let (a, n1) = if t < 3 { *pts.last().unwrap() } else { pts[below(&mut c.rng, pts.len() as u64) as usize] };
            let z = rand_z(&mut c.rng);
            let P = point_z(&E, &a, &z);
            let n = if t >= 3 { if below(&mut c.rng, 2) == 0 { bu(below(&mut c.rng, 40)) } else { gen_scalar(&mut c.rng) } } else { gen_scalar(&mut c.rng) };
            let w = e.mul(&a, &n);
            same(&format!("mul_big({n})"), &e, &E.mul_big(&P, &n), &w, &[&a])?;
            let mut nb = n.to_bytes_le();
            nb.extend(rbytes(&mut c.rng, 2));
            same(&format!("mul({n})"), &e, &E.mul(&P, &nb, n.bits() as usize), &w, &[&a])?;
            // longer bit length with leading zeros
            let mut nz = n.to_bytes_le();
            nz.extend([0u8; 6]);
            let extra = n.bits() as usize + below(&mut c.rng, 40) as usize;
            let mut t3 = P;
            E.mul_into(&mut t3, &P, &nz, extra.min(nz.len() * 8));
            same(&format!("mul_into({n}, {extra} bits)"), &e, &t3, &w, &[&a])?;
            c.obs(&format!("{cn}: {n1} x {}", if n.bits() <= 21 { "short" } else { "long" }), &{
                let mut k = key2(&e, &a, &None);
                k.extend(n.to_bytes_le());
                k
            });
            c.sample("mul", || format!("A={} P={} n={}", show2(&e.a), showp(&a), n));
        }
        Ok(())
    });
    ctx.cases("truncated", ctx.n(40, 300), |c| {
        // bits beyond the stated length are ignored
        let (e, _) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let mut pts = special_points(&e);
        pts.push((e.rand_point(&mut c.rng), "random"));
        for _ in 0..8 {
            let (a, n1) = pts[below(&mut c.rng, pts.len() as u64) as usize];
            let z = rand_z(&mut c.rng);
            let P = point_z(&E, &a, &z);
            let b = rbytes(&mut c.rng, 12);
            let len = below(&mut c.rng, 97) as usize;
            let len = if below(&mut c.rng, 3) == 0 { below(&mut c.rng, 9) as usize } else { len };
            let n = BigUint::from_bytes_le(&b) & ((bu(1) << len) - 1u32);
            same(&format!("mul({}, {len} bits)", hexs(&b)), &e, &E.mul(&P, &b, len), &e.mul(&a, &n), &[&a])?;
            c.obs(&format!("truncated {n1}"), &{
                let mut k = key2(&e, &a, &None);
                k.extend(b);
                k.push(len as u8);
                k
            });
        }
        Ok(())
    });
    ctx.cases("mul_small", ctx.n(60, 600), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let mut pts = special_points(&e);
        pts.push((e.rand_point(&mut c.rng), "random"));
        for _ in 0..10 {
            let (a, n1) = pts[below(&mut c.rng, pts.len() as u64) as usize];
            let P = point_z(&E, &a, &rand_z(&mut c.rng));
            let n = match below(&mut c.rng, 6) {
                0 => below(&mut c.rng, 8),
                1 => u64::MAX,
                2 => 1 << below(&mut c.rng, 64),
                3 => (1 << 20) + below(&mut c.rng, 3 << 20),
                4 => below(&mut c.rng, 50000),
                _ => c.rng.next_u64(),
            };
            let w = e.mulu(&a, n);
            same(&format!("mul_small({n})"), &e, &E.mul_small(&P, n), &w, &[&a])?;
            let mut t = P;
            E.mul_small_into(&mut t, &P, n);
            same(&format!("mul_small_into({n})"), &e, &t, &w, &[&a])?;
            c.obs(&format!("{cn}: small {n1}"), &{
                let mut k = key2(&e, &a, &None);
                k.extend(n.to_le_bytes());
                k
            });
        }
        Ok(())
    });
    // points of small order: every residue class of the scalar around the exceptional cases of the ladder
    ctx.cases("small_order", ctx.n(48, 500), |c| {
        let e = pick(ctx, &mut c.rng);
        let E = cv(&e);
        let fo: Vec<(u32, u32)> = match below(&mut c.rng, 10) {
            0 => vec![(3, 1)],
            1 => vec![(5, 1)],
            2 => vec![(2, 3)],
            3 => vec![(2, 1), (3, 1)],
            4 => vec![(2, 2), (3, 1)],
            5 => vec![(7, 1)],
            6 => vec![(3, 2)],
            7 => vec![(2, 4)],
            8 => vec![(11, 1)],
            _ => vec![(2, 1), (5, 1)],
        };
        let ord = prod_factored(&fo);
        let a = e.rand_order(&mut c.rng, &fo);
        let o = ord.to_u64_digits()[0];
        let big = gen_scalar(&mut c.rng) / &ord * &ord;
        for k in 0..(2 * o + 3) {
            let P = point_z(&E, &a, &rand_z(&mut c.rng));
            let w = e.mulu(&a, k % o);
            same(&format!("mul_small({k}) order {o}"), &e, &E.mul_small(&P, k), &w, &[&a])?;
            same(&format!("mul({k}) order {o}"), &e, &E.mul(&P, &k.to_le_bytes(), 64), &w, &[&a])?;
            same(&format!("mul({k}) 7 bits order {o}"), &e, &E.mul(&P, &k.to_le_bytes(), 7), &w, &[&a])?;
            let n = &big + bu(k);
            same(&format!("mul_big({n}) order {o}"), &e, &E.mul_big(&P, &n), &w, &[&a])?;
            c.obs(&format!("order {o}"), &{
                let mut kk = key2(&e, &a, &None);
                kk.extend(n.to_bytes_le());
                kk
            });
        }
        Ok(())
    });
}

pub fn p13(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("membership", ctx.n(200, 2500), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        ensure!(f2(&E.get_constant()) == e.a, "curve constant is not preserved");
        ensure!(f2(&E.j_invariant()) == e.j(), "j-invariant of A={}", show2(&e.a));
        let sp = special_points(&e);
        for t in 0..10 {
            let q = if t < sp.len() && t > 0 { sp[t].0 } else { e.rand_point(&mut c.rng) };
            let (x, y) = match q {
                None => continue,
                Some(v) => v,
            };
            // valid, or perturbed in one coordinate
            let (x, y, tag) = match below(&mut c.rng, 6) {
                0 => (x, y.add(&F2::one()), "y+1"),
                1 => (x.add(&F2::one()), y, "x+1"),
                2 => (x, F2(y.0, y.1.neg()), "conj y"),
                3 => {
                    let (u, v) = (edge_f2(&mut c.rng).0, edge_f2(&mut c.rng).0);
                    (u, v, "unrelated")
                }
                _ => (x, y, "valid"),
            };
            let want = e.on(&Some((x, y)));
            let (X, Y) = (fq(&x), fq(&y));
            let z = rand_z(&mut c.rng);
            let (PX, PY, PZ) = (fq(&x.mul(&z)), fq(&y.mul(&z)), fq(&z));
            ensure!(E.on_curve(&Point::new_xy(&X, &Y)) == want, "on_curve({}, {}) != {}", show2(&x), show2(&y), want);
            ensure!(E.on_curve(&E.point_xyz_nocheck(&PX, &PY, &PZ)) == want, "on_curve (projective) of {},{} != {}", show2(&x), show2(&y), want);
            let mut P = Point::new_xy(&Y, &X);
            let r = E.set_xy(&mut P, &X, &Y);
            ensure!((r == u32::MAX) == want && (r == 0) != want, "set_xy status {:x} for on-curve={}", r, want);
            ensure!(pt(&P) == if want { Some((x, y)) } else { None }, "set_xy left a wrong point");
            let mut P = Point::new_xy(&Y, &X);
            let r = E.set_xyz(&mut P, &PX, &PY, &PZ);
            ensure!((r == u32::MAX) == want && (r == 0) != want, "set_xyz status {:x} for on-curve={} A={} x={} y={} z={}", r, want, show2(&e.a), show2(&x), show2(&y), show2(&z));
            ensure!(pt(&P) == if want { Some((x, y)) } else { None }, "set_xyz left a wrong point");
            ensure!(E.point_xy_vartime(&X, &Y).map(|p| pt(&p)) == if want { Some(Some((x, y))) } else { None }, "point_xy_vartime");
            ensure!(E.point_xyz_vartime(&PX, &PY, &PZ).map(|p| pt(&p)) == if want { Some(Some((x, y))) } else { None }, "point_xyz_vartime");
            // affine extraction
            let Q = E.point_xyz_nocheck(&PX, &PY, &PZ);
            let (ax, ay) = Q.to_xy();
            ensure!(f2(&ax) == x && f2(&ay) == y, "to_xy of a projective point");
            let o = Q.to_xy_vartime().map(|(a, b)| (f2(&a), f2(&b)));
            ensure!(o == Some((x, y)), "to_xy_vartime of a projective point");
            let (xx, zz) = Q.to_xz();
            ensure!(f2(&xx) == x.mul(&f2(&zz)), "to_xz of a projective point");
            c.obs(&format!("{cn} membership {tag} -> {want}"), &key2(&e, &Some((x, y)), &None));
        }
        // infinity
        let z = fq(&rand_z(&mut c.rng));
        let mut P = point(&e.rand_point(&mut c.rng));
        let r = E.set_xyz(&mut P, &fq(&F2::zero()), &z, &fq(&F2::zero()));
        ensure!(r == u32::MAX && P.isinfinity() == u32::MAX, "the point at infinity was refused");
        // any triple with Z = 0 denotes the neutral element
        let (gx, gy) = (fq(&rand_z(&mut c.rng)), fq(&edge_f2(&mut c.rng).0));
        let mut P = point(&e.rand_point(&mut c.rng));
        let r = E.set_xyz(&mut P, &gx, &gy, &Fq::ZERO);
        ensure!(r == u32::MAX && P.isinfinity() == u32::MAX, "a triple (X:Y:0) was refused");
        ensure!(E.point_xyz_vartime(&gx, &gy, &Fq::ZERO).map_or(false, |p| pt(&p).is_none()), "point_xyz_vartime refused (X:Y:0)");
        ensure!(E.on_curve(&E.point_xyz_nocheck(&gx, &gy, &Fq::ZERO)), "on_curve refused (X:Y:0)");
        c.obs("neutral triple with X != 0", &key2(&e, &Some((f2(&gx), f2(&gy))), &None));
        ensure!(Point::INFINITY.to_xy_vartime().is_none() && E.on_curve(&Point::INFINITY), "infinity has affine coordinates or is off the curve");
        let (x, y) = Point::INFINITY.to_xy();
        ensure!(x.iszero() == u32::MAX && y.iszero() == u32::MAX, "to_xy of infinity");
        Ok(())
    });
    ctx.cases("lift", ctx.n(150, 2000), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        for _ in 0..8 {
            let (x, n) = edge_f2(&mut c.rng);
            let z = rand_z(&mut c.rng);
            let (P, ok) = E.complete_pointX(&PointX::new_xz(&fq(&x.mul(&z)), &fq(&z)));
            let exists = e.rhs(&x).legendre() >= 0;
            ensure!((ok == u32::MAX) == exists && (ok == 0) != exists, "lifting x={} on A={}: status {:x}, point exists: {}", show2(&x), show2(&e.a), ok, exists);
            match pt(&P) {
                None => ensure!(!exists, "lifting a valid x gave infinity"),
                Some((gx, gy)) => ensure!(exists && gx == x && e.on(&Some((gx, gy))), "lifting x={} gave {}", show2(&x), showp(&Some((gx, gy)))),
            }
            c.obs(&format!("{cn} lift {n} -> {exists}"), &key2(&e, &Some((x, F2::zero())), &None));
        }
        let (P, _) = E.complete_pointX(&PointX::new_xz(&fq(&F2::rand(&mut c.rng)), &fq(&F2::zero())));
        ensure!(P.isinfinity() == u32::MAX, "lifting the x-only infinity");
        Ok(())
    });
    ctx.cases("iterator", ctx.n(48, 500), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let n = 24;
        let got: Vec<Point> = E.iter().take(n).collect();
        let again: Vec<Point> = CurveIter::new(E.get_constant()).take(n).collect();
        ensure!(got.len() == n && again.len() == n, "the canonical iterator ended early");
        let mut x = F2::one().add(&F2::i());
        for i in 0..n {
            while e.rhs(&x).legendre() < 0 {
                x = x.add(&F2::one());
            }
            match pt(&got[i]) {
                Some((gx, gy)) => ensure!(gx == x && e.on(&Some((gx, gy))), "canonical point {} of A={} is {} want x={}", i, show2(&e.a), showp(&Some((gx, gy))), show2(&x)),
                None => return Err("canonical iterator returned infinity".into()),
            }
            ensure!(got[i].equals(&again[i]) == u32::MAX, "canonical iterator is not deterministic");
            x = x.add(&F2::one());
        }
        c.obs(&format!("{cn} iterator"), &e.a.enc());
        Ok(())
    });
    ctx.cases("iterator_long", ctx.n(8, 16), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let n = if ctx.thorough { 70_000 } else { 6_000 };
        let mut seen = std::collections::HashSet::new();
        for (i, P) in E.iter().take(n).enumerate() {
            let (x, _) = P.to_xy();
            ensure!(seen.insert(x.encode()), "point {} of the iterator of A={} repeats an earlier x-coordinate", i, show2(&e.a));
            if i % 97 == 0 {
                let q = pt(&P);
                ensure!(q.is_some() && e.on(&q), "point {} of the iterator is off the curve", i);
            }
        }
        ensure!(seen.len() == n, "the iterator ended after {} points", seen.len());
        c.obs(&format!("{cn} long iterator"), &e.a.enc());
        Ok(())
    });
    ctx.cases("random_points", ctx.n(24, 200), |c| {
        let (e, cn) = rand_curve(ctx, &mut c.rng);
        let E = cv(&e);
        let mut par = 0;
        let n = 48;
        let mut seen = std::collections::HashSet::new();
        let seed = c.rng.next_u64();
        let (mut r1, mut r2) = (ChaCha8Rng::seed_from_u64(seed), ChaCha8Rng::seed_from_u64(seed));
        for _ in 0..n {
            let P = E.rand_point(&mut r1);
            let mut Q = Point::INFINITY;
            E.set_rand_point(&mut r2, &mut Q);
            ensure!(P.equals(&Q) == u32::MAX, "random points are not a function of the supplied generator");
            let q = pt(&P);
            ensure!(e.on(&q) && q.is_some(), "random point is off the curve: {}", showp(&q));
            let (x, y) = q.unwrap();
            ensure!(seen.insert(x.enc()), "random points repeat");
            if y.0.to_big().bit(0) {
                par += 1;
            }
        }
        ensure!(par > 4 && par < n - 4, "random points always take the same square root ({}/{})", par, n);
        c.obs(&format!("{cn} random points"), &e.a.enc());
        Ok(())
    });
}

/// Montgomery models isomorphic to e over GF(p^2) (the identity included).
pub fn models(e: &Cv) -> Vec<Cv> {
    let mut v = vec![];
    let half = F2::u(2).inv();
    let mut roots = vec![F2::zero()];
    if let Some(s) = e.a.sq().sub(&F2::u(4)).sqrt() {
        roots.push(s.sub(&e.a).mul(&half));
        roots.push(s.neg().sub(&e.a).mul(&half));
    }
    for r in roots {
        let c1 = r.sq().mul(&F2::u(3)).add(&e.a.mul(&r).dbl()).add(&F2::one());
        if let Some(g) = c1.sqrt() {
            for g in [g, g.neg()] {
                if g.legendre() == 1 {
                    v.push(Cv { a: r.mul(&F2::u(3)).add(&e.a).div(&g) });
                }
            }
        }
    }
    v
}

pub fn p14(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("isomorphism", ctx.n(160, 2000), |c| {
        // the curves with extra automorphisms included: A = 0 and A^2 = 9/2 (j = 1728), A^2 = 3 (j = 0)
        let (e, cn) = match c.idx % 10 {
            3 => (Cv { a: F2::zero() }, "j=1728, A=0".to_string()),
            5 => {
                let a = F2::u(9).mul(&F2::u(2).inv()).sqrt().unwrap();
                (Cv { a: if c.idx % 20 == 5 { a } else { a.neg() } }, "j=1728, A^2=9/2".to_string())
            }
            7 => {
                let a = F2::u(3).sqrt().unwrap();
                (Cv { a: if c.idx % 20 == 7 { a } else { a.neg() } }, "j=0".to_string())
            }
            _ => {
                let (e, n) = rand_curve(ctx, &mut c.rng);
                (e, n.to_string())
            }
        };
        let extra = e.j().is_zero() || e.j() == F2::u(1728);
        let E = cv(&e);
        let ms = models(&e);
        for m in &ms {
            ensure!(m.j() == e.j(), "oracle: model has another j-invariant");
            let M = cv(m);
            let kind = if m.a == e.a { "same A" } else if m.a == e.a.neg() { "opposite A" } else { "other model" };
            let iso = CurveIsomorphism::new(&E, &M);
            let (q, r) = (e.rand_point(&mut c.rng), e.rand_point(&mut c.rng));
            let im = |a: &Pt, rng: &mut ChaCha8Rng| -> Pt { pt(&iso.eval(&point_z(&E, a, &rand_z(rng)))) };
            let (iq, ir) = (im(&q, &mut c.rng), im(&r, &mut c.rng));
            ensure!(m.on(&iq) && m.on(&ir) && iq.is_some(), "isomorphism {} from A={} to A'={} leaves the codomain", kind, show2(&e.a), show2(&m.a));
            let s = im(&e.add(&q, &r), &mut c.rng);
            ensure!(s == m.add(&iq, &ir), "isomorphism {} from A={} to A'={} is not additive", kind, show2(&e.a), show2(&m.a));
            let d = im(&e.add(&q, &q), &mut c.rng);
            ensure!(d == m.add(&iq, &iq), "isomorphism {} does not commute with doubling", kind);
            for (t, n) in special_points(&e) {
                let it = im(&t, &mut c.rng);
                ensure!(m.on(&it) && (it.is_none() == t.is_none()), "isomorphism {} maps {} {} to {}", kind, n, showp(&t), showp(&it));
                ensure!(im(&e.add(&q, &t), &mut c.rng) == m.add(&iq, &it), "isomorphism {} is not additive on a special point ({})", kind, n);
                c.obs(&format!("{cn} {kind} {n}"), &key2(&e, &t, &q));
            }
            // injective, and inverted (up to an automorphism +-1) by the isomorphism back
            let back = CurveIsomorphism::new(&M, &E);
            let b = pt(&back.eval(&point(&iq)));
            ensure!(e.on(&b), "isomorphism {} and its inverse leave the curve", kind);
            ensure!(extra || b == q || b == Cv::neg(&q), "isomorphism {} and its inverse do not compose to +-1", kind);
            c.obs(&format!("{cn} {kind}"), &key2(&e, &q, &Some((m.a, F2::zero()))));
            c.sample(kind, || format!("A={} A'={}", show2(&e.a), show2(&m.a)));
        }
        Ok(())
    });
}

pub const ODD_PRIMES: [u32; 45] = [
    3, 5, 7, 11, 13, 17, 19, 29, 37, 41, 43, 59, 71, 83, 89, 127, 139, 167, 211, 251, 281, 419, 421, 503, 631, 701, 839, 1009, 1259, 2309,
    2521, 2647, 2729, 3023, 3061, 3359, 3779, 4409, 5039, 6299, 6719, 9181, 19531, 22679, 41161,
];

pub fn p15(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("prime_degree", ctx.n(120, 1200), |c| {
        let e = pick(ctx, &mut c.rng);
        let E = cv(&e);
        let nmax = if c.idx % 40 == 39 { 45 } else if c.idx % 4 == 3 { 41 } else { 24 };
        // also odd composite degrees
        let fo: Vec<(u32, u32)> = match c.idx % 8 {
            0 => vec![(3, 2)],
            1 => vec![(3, 1), (5, 1)],
            _ => vec![(ODD_PRIMES[if c.idx < 24 { c.idx } else { below(&mut c.rng, nmax) as usize }], 1)],
        };
        let l = prod_factored(&fo).to_u64_digits()[0];
        let k = e.rand_order(&mut c.rng, &fo);
        let (co, xs) = e.velu(&k, l);
        let phi = KummerLineIsogeny::new(&E, &point_z(&E, &k, &rand_z(&mut c.rng)), l as usize);
        let C = phi.get_codomain();
        ensure!(f2(&C.get_constant()) == co.a, "codomain of the {}-isogeny from A={} kernel {}: got {} want {}", l, show2(&e.a), showp(&k), show2(&f2(&C.get_constant())), show2(&co.a));
        // images
        let mut pts = special_points(&e);
        for _ in 0..3 {
            pts.push((e.rand_point(&mut c.rng), "random"));
        }
        let m = 1 + below(&mut c.rng, l - 1);
        pts.push((e.mulu(&k, m), "kernel"));
        pts.push((e.add(&e.mulu(&k, m), &Some((F2::zero(), F2::zero()))), "kernel+(0,0)"));
        for (q, n) in pts {
            let g = pt(&phi.evaluate_isogeny(&point_z(&E, &q, &rand_z(&mut c.rng))));
            let wx = match q {
                None => None,
                Some((x, _)) => Cv::velu_x(&xs, &x),
            };
            match (g, wx) {
                (None, None) => {}
                (Some((gx, gy)), Some(wx)) => {
                    ensure!(gx == wx && co.on(&Some((gx, gy))), "{}-isogeny image of {} {}: got x={} want x={}", l, n, showp(&q), show2(&gx), show2(&wx));
                }
                _ => return Err(format!("{}-isogeny image of {} point {}: got {} want x={:?}", l, n, showp(&q), showp(&g), wx.map(|x| show2(&x)))),
            }
            c.obs(&format!("degree {l} {n}"), &key2(&e, &k, &q));
        }
        c.sample("isogeny", || format!("degree {l} from A={} kernel {}", show2(&e.a), showp(&k)));
        Ok(())
    });
    ctx.cases("chain", ctx.n(64, 800), |c| {
        let e = pick(ctx, &mut c.rng);
        let E = cv(&e);
        let fo: Vec<(u32, u32)> = match c.idx % 8 {
            0 => vec![(3, 1)],
            1 => vec![(3, 6)],
            2 => vec![(3, 5), (5, 3)],
            3 => vec![(5, 4), (7, 3), (11, 2)],
            4 => vec![(7, 2), (3, 4)],
            5 => vec![(13, 2), (3, 2), (19, 1), (5, 1)],
            6 => vec![(3, 1 + below(&mut c.rng, 6) as u32), (17, 2), (29, 1)],
            _ => vec![(71, 3), (3, 1 + below(&mut c.rng, 6) as u32)],
        };
        let k = e.rand_order(&mut c.rng, &fo);
        let chain = factored_kummer_isogeny(&E, &point_z(&E, &k, &rand_z(&mut c.rng)), &fo);
        let deg = prod_factored(&fo);
        let steps: u32 = fo.iter().map(|(_, e)| *e).sum();
        ensure!(chain.len() == steps as usize, "a chain of {} prime steps has {} links", steps, chain.len());
        // oracle: whole cyclic isogeny as a sequence of prime Velu steps, in another order of the factors
        let mut cur = e;
        let mut kk = k;
        let mut ord = deg.clone();
        let q0 = e.rand_point(&mut c.rng);
        let kp = e.mul(&k, &rand_below(&mut c.rng, &deg));
        let mut imgs = vec![q0, kp];
        let mut rev = fo.clone();
        rev.reverse();
        for (l, ex) in &rev {
            for _ in 0..*ex {
                ord /= *l;
                let t = cur.mul(&kk, &ord);
                let (nc, xs) = cur.velu(&t, *l as u64);
                kk = kk.and_then(|v| Cv::velu_xy(&xs, &v));
                for im in imgs.iter_mut() {
                    *im = im.and_then(|v| Cv::velu_xy(&xs, &v));
                }
                cur = nc;
            }
        }
        ensure!(kk.is_none() && cur.on(&imgs[0]), "oracle: chain");
        for (q, w) in [(q0, imgs[0]), (kp, imgs[1]), (None, None)] {
            let (C, G) = evaluate_isogeny_chain(&E, &point_z(&E, &q, &rand_z(&mut c.rng)), &chain);
            ensure!(f2(&C.get_constant()) == cur.a, "codomain of the chain of degree {:?} from A={}: got {} want {}", fo, show2(&e.a), show2(&f2(&C.get_constant())), show2(&cur.a));
            let g = pt(&G);
            ensure!(g == w || g == Cv::neg(&w), "chain of degree {:?}: image of {} is {} want +-{}", fo, showp(&q), showp(&g), showp(&w));
        }
        c.obs(&format!("chain {:?}", fo), &key2(&e, &k, &q0));
        let (C, G) = evaluate_isogeny_chain(&E, &point(&q0), &vec![]);
        ensure!(f2(&C.get_constant()) == e.a && pt(&G) == q0, "the empty chain is not the identity");
        Ok(())
    });
}

/// Apply a cyclic isogeny (kernel k of order given by fo) to points with signs, by the oracle.
pub fn oracle_chain(e: &Cv, k: &Pt, fo: &[(u32, u32)], pts: &[Pt]) -> (Cv, Vec<Pt>) {
    let mut cur = *e;
    let mut kk = *k;
    let mut ord = prod_factored(fo);
    let mut imgs = pts.to_vec();
    for (l, ex) in fo {
        for _ in 0..*ex {
            ord /= *l;
            let t = cur.mul(&kk, &ord);
            let (nc, xs) = cur.velu(&t, *l as u64);
            kk = kk.and_then(|v| Cv::velu_xy(&xs, &v));
            for im in imgs.iter_mut() {
                *im = im.and_then(|v| Cv::velu_xy(&xs, &v));
            }
            cur = nc;
        }
    }
    (cur, imgs)
}

pub fn p16(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("basis", ctx.n(96, 1200), |c| {
        let e = pick(ctx, &mut c.rng);
        let E = cv(&e);
        // degrees of every word-length class
        let fo: Vec<(u32, u32)> = match (c.idx / 8) % 12 {
            0 => vec![(3, 1)],
            1 => vec![(3, 2), (5, 1)],
            2 => vec![(7, 1)],
            3 => vec![(13, 1), (3, 1)],
            4 => vec![(29, 1)],
            5 => vec![(5, 2), (7, 1)],
            6 => vec![(3, 6), (5, 1)],
            7 => vec![(3, 6), (5, 4), (7, 3)],                   // 28 bits
            8 => vec![(3, 6), (5, 4), (7, 3), (13, 2)],          // 35 bits
            9 => vec![(5, 4), (7, 3), (13, 2), (29, 2), (3, 6)], // 45 bits
            10 => vec![(71, 3), (3, 6), (5, 4), (7, 3), (13, 2), (29, 1)], // 59 bits
            _ => vec![(71, 3), (3, 6), (5, 4), (7, 3), (13, 2), (29, 2), (41, 1)], // 69 bits
        };
        let deg = prod_factored(&fo);
        // torsion order, coprime to the degree
        let to: Vec<(u32, u32)> = match c.idx % 8 {
            0 => vec![(2, 634)],
            1 => vec![(2, 3)],
            2 => vec![(2, 1 + below(&mut c.rng, 60) as u32)],
            3 => vec![(2, 20), (11, 2)],
            4 => vec![(11, 1)],
            5 => vec![(11, 2), (17, 1)],
            6 => vec![(2, 2)],
            _ => vec![(2, 634), (11, 2), (19, 1)],
        };
        let n = prod_factored(&to);
        let k = e.rand_order(&mut c.rng, &fo);
        // an independent pair
        let (P, Q) = loop {
            let (a, b) = (e.rand_order(&mut c.rng, &to), e.rand_order(&mut c.rng, &to));
            // independent at every prime
            let ok = to.iter().all(|(l, _)| {
                let m = &n / *l;
                let (x, y) = (e.mul(&a, &m), e.mul(&b, &m));
                if *l == 2 {
                    return x != y;
                }
                let w = e.weil(&mut c.rng, &x, &y, &bu(*l as u64));
                w != F2::one()
            });
            if ok {
                break (a, b);
            }
        };
        // the caller's basis may carry any sign pattern
        let P = if below(&mut c.rng, 2) == 0 { Cv::neg(&P) } else { P };
        let Q = if below(&mut c.rng, 2) == 0 { Cv::neg(&Q) } else { Q };
        let (co, im) = oracle_chain(&e, &k, &fo, &[P, Q]);
        let chain = factored_kummer_isogeny(&E, &point(&k), &fo);
        let (C, (ip, iq)) = evaluate_isogeny_chain_for_basis(&E, &(point_z(&E, &P, &rand_z(&mut c.rng)), point_z(&E, &Q, &rand_z(&mut c.rng))), &chain, &n, &deg);
        let (gp, gq) = (pt(&ip), pt(&iq));
        ensure!(f2(&C.get_constant()) == co.a, "codomain of the basis evaluation");
        let plus = gp == im[0] && gq == im[1];
        let minus = gp == Cv::neg(&im[0]) && gq == Cv::neg(&im[1]);
        ensure!(plus || minus, "image of the basis of E[{:?}] under a {:?}-isogeny from A={} is not +-(phi(P),phi(Q)): signs {} {}", to, fo, show2(&e.a),
            if gp == im[0] { "+" } else if gp == Cv::neg(&im[0]) { "-" } else { "wrong point" }, if gq == im[1] { "+" } else if gq == Cv::neg(&im[1]) { "-" } else { "wrong point" });
        // the answer is a function of its inputs
        let (_, (jp, jq)) = evaluate_isogeny_chain_for_basis(&E, &(point(&P), point(&Q)), &chain, &n, &deg);
        let (jp, jq) = (pt(&jp), pt(&jq));
        ensure!((jp == gp && jq == gq) || (jp == Cv::neg(&gp) && jq == Cv::neg(&gq)), "basis images for two representations of the inputs are not equal up to a common sign");
        c.obs(&format!("order {:?} degree of {} bits {}", to, deg.bits(), if plus { "+" } else { "-" }), &key2(&e, &P, &Q));
        c.sample("basis", || format!("A={} degree {:?} order {:?}", show2(&e.a), fo, to));
        Ok(())
    });
}
