//! P22: (2^n,2^n)-isogenies between products of elliptic curves, against Kani's lemma evaluated by the oracle.
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::p_curve::*;
use crate::p_trapdoor::two_basis;
use crate::rt::*;
use festa_rs::thetaFESTA::*;

use rand_chacha::ChaCha8Rng;
use std::sync::OnceLock;

const PR: [(u64, u32); 16] = [(3, 6), (5, 4), (7, 3), (11, 2), (13, 2), (17, 2), (19, 2), (29, 2), (37, 2), (41, 2), (43, 2), (59, 1), (71, 2), (83, 2), (89, 2), (127, 2)];

fn factor(mut x: u128) -> Option<Vec<(u32, u32)>> {
    let mut v = Vec::new();
    for (l, m) in PR {
        let mut e = 0;
        while x % l as u128 == 0 {
            x /= l as u128;
            e += 1;
            if e > m {
                return None;
            }
        }
        if e > 0 {
            v.push((l as u32, e));
        }
    }
    if x == 1 {
        Some(v)
    } else {
        None
    }
}
/// (n, a, b) with a + b = 2^n, both products of available primes, hence coprime.
pub struct Split {
    pub n: usize,
    pub a: Vec<(u32, u32)>,
    pub b: Vec<(u32, u32)>,
}
pub fn splits() -> &'static Vec<Split> {
    static S: OnceLock<Vec<Split>> = OnceLock::new();
    S.get_or_init(|| {
        let mut out = Vec::new();
        // n = 2 is outside the domain: the chain needs a gluing, a penultimate and a splitting step
        for n in 3..=26usize {
            // smooth numbers below 2^n
            let lim = 1u128 << n;
            let mut sm: Vec<u128> = vec![1];
            for (l, m) in PR {
                let cur = sm.clone();
                let mut pw = 1u128;
                for _ in 0..m {
                    pw *= l as u128;
                    for x in &cur {
                        if x * pw < lim {
                            sm.push(x * pw);
                        }
                    }
                }
            }
            sm.sort();
            let mut got: Vec<u128> = sm.iter().filter(|a| **a < lim - **a && factor(lim - **a).is_some()).cloned().collect();
            // keep a spread of them
            while got.len() > 24 {
                let k = got.len();
                got = got.into_iter().enumerate().filter(|(i, _)| i % 2 == 0 || k <= 24).map(|x| x.1).collect();
            }
            for a in got {
                out.push(Split { n, a: factor(a).unwrap(), b: factor(lim - a).unwrap() });
            }
        }
        out
    })
}
pub fn rand_strategy(rng: &mut ChaCha8Rng, n: usize, mode: u64) -> Vec<usize> {
    if n <= 1 {
        return vec![];
    }
    let b = match mode {
        0 => 1,
        1 => n - 1,
        2 => n / 2,
        _ => 1 + below(rng, n as u64 - 1) as usize,
    };
    let mut v = vec![b];
    v.extend(rand_strategy(rng, n - b, mode));
    v.extend(rand_strategy(rng, b, mode));
    v
}
/// x-coordinate maps of all isomorphisms between two Montgomery curves: x -> (x - r) * g
pub fn isos(a: &Cv, b: &Cv) -> Vec<(F2, F2)> {
    let mut out = Vec::new();
    let mut roots = vec![F2::zero()];
    if let Some(s) = a.a.sq().sub(&F2::u(4)).sqrt() {
        let h = F2::u(2).inv();
        roots.push(s.sub(&a.a).mul(&h));
        roots.push(s.neg().sub(&a.a).mul(&h));
    }
    for r in roots {
        let c2 = r.mul(&F2::u(3)).add(&a.a);
        let c1 = r.sq().mul(&F2::u(3)).add(&a.a.mul(&r).dbl()).add(&F2::one());
        if let Some(g) = c1.sqrt() {
            for g in [g, g.neg()] {
                if c2.div(&g) == b.a {
                    out.push((r, g.inv()));
                }
            }
        }
    }
    out
}
/// does the point g on codomain `got` correspond, up to sign, to w on `want` under one of the isomorphisms?
fn matches(iso: &(F2, F2), w: &Pt, g: &Pt) -> bool {
    match (w, g) {
        (None, None) => true,
        (Some((x, _)), Some((gx, _))) => x.sub(&iso.0).mul(&iso.1) == *gx,
        _ => false,
    }
}

pub struct Inst {
    pub e0: Cv,
    pub e1: Cv,
    pub e2: Cv,
    pub e3: Cv,
    pub ka: Pt,
    pub kb: Pt,
    pub tp: Pt,
    pub tq: Pt,
    pub k1: (Pt, Pt),
    pub k2: (Pt, Pt),
}
pub fn instance(rng: &mut ChaCha8Rng, e0: Cv, s: &Split) -> Inst {
    let ka = e0.rand_order(rng, &s.a);
    let kb = e0.rand_order(rng, &s.b);
    let (tp, tq) = two_basis(rng, &e0);
    let h = bu(1) << (634 - s.n - 2);
    let (tp, tq) = (e0.mul(&tp, &h), e0.mul(&tq, &h));
    let (e1, i1) = if s.a.is_empty() { (e0, vec![tp, tq]) } else { oracle_chain(&e0, &ka, &s.a, &[tp, tq]) };
    let (e2, i2) = oracle_chain(&e0, &kb, &s.b, &[tp, tq]);
    let mut ab = s.a.clone();
    ab.extend(s.b.iter());
    let (e3, _) = oracle_chain(&e0, &if s.a.is_empty() { kb } else { e0.add(&ka, &kb) }, &ab, &[]);
    Inst { e0, e1, e2, e3, ka, kb, tp, tq, k1: (i1[0], i2[0]), k2: (i1[1], i2[1]) }
}
/// F(phi_A(U), phi_B(V)) = ([a]U + [b]V, Psi(V - U)); returns (X, Y, image on E0, image on E3).
pub fn image(i: &Inst, s: &Split, u: &Pt, v: &Pt) -> (Pt, Pt, Pt, Pt) {
    let x = if s.a.is_empty() { *u } else { oracle_chain(&i.e0, &i.ka, &s.a, &[*u]).1[0] };
    let y = oracle_chain(&i.e0, &i.kb, &s.b, &[*v]).1[0];
    let (a, b) = (prod_factored(&s.a), prod_factored(&s.b));
    let w0 = i.e0.add(&i.e0.mul(u, &a), &i.e0.mul(v, &b));
    let mut ab = s.a.clone();
    ab.extend(s.b.iter());
    let d = i.e0.add(v, &Cv::neg(u));
    let w3 = oracle_chain(&i.e0, &if s.a.is_empty() { i.kb } else { i.e0.add(&i.ka, &i.kb) }, &ab, &[d]).1[0];
    (x, y, w0, w3)
}
pub fn couple(E1: &Curve, E2: &Curve, x: &Pt, y: &Pt, rng: &mut ChaCha8Rng) -> CouplePoint {
    CouplePoint::new(&point_z(E1, x, &rand_z(rng)), &point_z(E2, y, &rand_z(rng)))
}

pub fn p22(ctx: &Ctx) {
    pool(ctx);
    let sp = splits();
    let n_sp = sp.len();
    ctx.cases("kani", ctx.n(130, 4000), |c| {
        let s = &sp[(c.idx * 37 + 11) % n_sp];
        let e0 = pick(ctx, &mut c.rng);
        let i = instance(&mut c.rng, e0, s);
        let swap = c.idx % 3 == 1;
        let (E1, E2) = (cv(&i.e1), cv(&i.e2));
        let mut pts = Vec::new();
        let kinds = 8;
        for t in 0..kinds {
            let r = e0.rand_point(&mut c.rng);
            let q = e0.rand_point(&mut c.rng);
            let (u, v, k) = match t {
                0 | 1 => (r, q, "generic"),
                2 => (r, None, "(X,0)"),
                3 => (None, q, "(0,Y)"),
                5 | 6 | 7 => {
                    // points of small two-power order, in the kernel when equal, on one or both components
                    let mut small = || {
                        let j = 1 + below(&mut c.rng, 4.min(s.n as u64 + 2)) as usize;
                        let h = bu(1) << (s.n + 2 - j);
                        let (m1, m2) = (bu(below(&mut c.rng, 16)), bu(below(&mut c.rng, 16)));
                        i.e0.mul(&i.e0.add(&i.e0.mul(&i.tp, &m1), &i.e0.mul(&i.tq, &m2)), &h)
                    };
                    let (t1, t2) = (small(), small());
                    match below(&mut c.rng, 6) {
                        0 => (t1, t1, "kernel-like two-power"),
                        1 => (t1, None, "(two-power,0)"),
                        2 => (None, t2, "(0,two-power)"),
                        3 => (t1, q, "(two-power,Y)"),
                        4 => (r, t2, "(X,two-power)"),
                        _ => (t1, t2, "(two-power,two-power)"),
                    }
                }
                _ => {
                    // order dividing a power of two times odd: as the trapdoor uses
                    let h = bu(1) << 634usize;
                    (e0.add(&i.tp, &e0.mul(&r, &h)), e0.mul(&q, &h), "odd + 2-power")
                }
            };
            let (x, y, w0, w3) = image(&i, s, &u, &v);
            pts.push((x, y, w0, w3, k));
        }
        let mk = |c: &mut Case, x: &Pt, y: &Pt| if swap { couple(&E2, &E1, y, x, &mut c.rng) } else { couple(&E1, &E2, x, y, &mut c.rng) };
        let K1 = mk(c, &i.k1.0, &i.k1.1);
        let K2 = mk(c, &i.k2.0, &i.k2.1);
        let L: Vec<CouplePoint> = pts.iter().map(|q| mk(c, &q.0, &q.1)).collect();
        let dom = if swap { EllipticProduct::new(&E2, &E1) } else { EllipticProduct::new(&E1, &E2) };
        let nl = (c.idx % 9).min(L.len());
        let nl = if c.idx % 2 == 0 { L.len() } else { nl };
        let mode = below(&mut c.rng, 5);
        let strat = rand_strategy(&mut c.rng, s.n, mode);
        let mut results = vec![];
        results.push(("strategy", product_isogeny(&dom, &K1, &K2, &L[..nl], s.n, &strat)));
        if c.idx % 2 == 0 {
            results.push(("no strategy", product_isogeny_no_strategy(&dom, &K1, &K2, &L[..nl], s.n)));
        }
        for (w, (cod, im)) in &results {
            let desc = || format!("{w}, n={}, a={:?}, b={:?}, E0: A={}, swapped {swap}, strategy {:?}", s.n, s.a, s.b, show2(&e0.a), strat);
            ensure!(im.len() == nl, "{} images returned for {nl} points ({})", im.len(), desc());
            let (C1, C2) = cod.curves();
            let (c1, c2) = (ocv(&C1), ocv(&C2));
            let mut ok = None;
            let mut why = String::new();
            for (t0, t3, order) in [(&c1, &c2, "E0 x E3"), (&c2, &c1, "E3 x E0")] {
                let (s0, s3) = (isos(&i.e0, t0), isos(&i.e3, t3));
                for f0 in &s0 {
                    for f3 in &s3 {
                        let mut all = true;
                        for (q, g) in pts.iter().zip(im) {
                            let (g1, g2) = g.points();
                            let (g1, g2) = (pt(&g1), pt(&g2));
                            ensure!(c1.on(&g1) && c2.on(&g2), "image of a {} point is not on the codomain ({})", q.4, desc());
                            let (g0, g3) = if order == "E0 x E3" { (g1, g2) } else { (g2, g1) };
                            if !matches(f0, &q.2, &g0) || !matches(f3, &q.3, &g3) {
                                all = false;
                                why = format!("image of the {} point is wrong", q.4);
                            }
                        }
                        if all {
                            ok = Some(order);
                        }
                    }
                }
            }
            if ok.is_none() && why.is_empty() {
                why = "the codomain is not E0 x E3".into();
            }
            ensure!(ok.is_some(), "{why}: ({})", desc());
            c.obs(&format!("{w} n={} {}", s.n, if s.a.is_empty() { "a=1" } else { "general" }), &{
                let mut k = i.e1.a.enc();
                k.extend(i.e2.a.enc());
                k.extend(format!("{:?}", strat).bytes());
                k
            });
        }
        c.sample("kani", || format!("n={} a={:?} b={:?} A={} strategy {:?}", s.n, s.a, s.b, show2(&e0.a), strat));
        Ok(())
    });
}

/// One Kummer line in theta coordinates: null point (a:b), and the Montgomery line with the same four ramification points.
struct Line {
    a: F2,
    b: F2,
    m: F2,
}
impl Line {
    fn new(a: F2, b: F2) -> Option<Line> {
        let (a2, b2) = (a.sq(), b.sq());
        let (s, d) = (a2.add(&b2), a2.sub(&b2));
        if a.is_zero() || b.is_zero() || s.is_zero() || d.is_zero() {
            return None;
        }
        let r = s.div(&d);
        Some(Line { a, b, m: r.add(&r.inv()).neg() })
    }
    fn to_x(&self, t: &(F2, F2)) -> (F2, F2) {
        let (u, v) = (self.a.mul(&t.1), self.b.mul(&t.0));
        (u.add(&v), u.sub(&v))
    }
    fn to_theta(&self, x: &(F2, F2)) -> (F2, F2) {
        (self.a.mul(&x.0.sub(&x.1)), self.b.mul(&x.0.add(&x.1)))
    }
    /// x(2P) = (x^2 - z^2)^2 : 4xz(x^2 + m xz + z^2)
    fn dbl(&self, t: &(F2, F2)) -> (F2, F2) {
        let (x, z) = self.to_x(t);
        let (xx, zz, xz) = (x.sq(), z.sq(), x.mul(&z));
        let n = xx.sub(&zz).sq();
        let d = xz.mul(&F2::u(4)).mul(&xx.add(&self.m.mul(&xz)).add(&zz));
        self.to_theta(&(n, d))
    }
}
fn prod(s: &(F2, F2), t: &(F2, F2)) -> [F2; 4] {
    [s.0.mul(&t.0), s.1.mul(&t.0), s.0.mul(&t.1), s.1.mul(&t.1)]
}
fn had(v: &[F2; 4]) -> [F2; 4] {
    let sg = |i: usize, j: usize| (i & j).count_ones() % 2 == 1;
    let mut o = [F2::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            o[i] = if sg(i, j) { o[i].sub(&v[j]) } else { o[i].add(&v[j]) };
        }
    }
    o
}
fn proj_eq(u: &[F2; 4], v: &[F2; 4]) -> bool {
    if u.iter().all(|x| x.is_zero()) || v.iter().all(|x| x.is_zero()) {
        return false;
    }
    (0..4).all(|i| (0..i).all(|j| u[i].mul(&v[j]) == u[j].mul(&v[i])))
}
fn tp(v: &[F2; 4]) -> ThetaPoint {
    ThetaPoint::from_coords(&fq(&v[0]), &fq(&v[1]), &fq(&v[2]), &fq(&v[3]))
}
fn tl(v: &ThetaPoint) -> [F2; 4] {
    v.list().map(|x| f2(&x))
}
fn t4(v: (Fq, Fq, Fq, Fq)) -> [F2; 4] {
    [f2(&v.0), f2(&v.1), f2(&v.2), f2(&v.3)]
}
/// Translation by a two-torsion point: a sign character and a permutation.
fn act(v: &[F2; 4], k: usize) -> [F2; 4] {
    let (s, t) = (k & 3, k >> 2);
    let mut o = [F2::zero(); 4];
    for i in 0..4 {
        let x = v[i ^ t];
        o[i] = if (i & s).count_ones() % 2 == 1 { x.neg() } else { x };
    }
    o
}
pub fn p26(ctx: &Ctx) {
    let shows = |v: &[F2; 4]| v.iter().map(show2).collect::<Vec<_>>().join(" : ");
    // coordinates, transforms, constants
    ctx.cases("structure", ctx.n(400, 6000), |c| {
        let mut n = [F2::zero(); 4];
        let mode = below(&mut c.rng, 3);
        loop {
            for x in n.iter_mut() {
                *x = if mode == 0 { edge_f2(&mut c.rng).0 } else { F2::rand(&mut c.rng) };
            }
            if mode == 2 {
                n[3] = n[0];
            }
            let dual = had(&n.map(|x| x.sq()));
            if n.iter().chain(dual.iter()).all(|x| !x.is_zero()) {
                break;
            }
        }
        let dual = had(&n.map(|x| x.sq()));
        let P0 = tp(&n);
        ensure!(tl(&P0) == n && t4(P0.coords()) == n && tl(&ThetaPoint::new(&fq(&n[0]), &fq(&n[1]), &fq(&n[2]), &fq(&n[3]))) == n, "coordinates of a theta point changed");
        ensure!(t4(P0.hadamard()) == had(&n), "hadamard of {}", shows(&n));
        ensure!(t4(P0.squared_theta()) == dual, "squared theta of {}", shows(&n));
        let want = [n[0].div(&n[1]), n[0].div(&n[2]), n[0].div(&n[3]), dual[0].div(&dual[1]), dual[0].div(&dual[2]), dual[0].div(&dual[3])];
        let got = ThetaStructure::precomputation(&P0).map(|x| f2(&x));
        ensure!(got == want, "precomputed constants of the null point {}", shows(&n));
        let s1 = ThetaStructure::new_from_point(&P0);
        let s2 = ThetaStructure::new_from_coords(&fq(&n[0]), &fq(&n[1]), &fq(&n[2]), &fq(&n[3]));
        ensure!(tl(&s1.null_point()) == n && tl(&s2.null_point()) == n, "null point changed");
        // doubling: the formula over the oracle's field, on arbitrary coordinates, and its fixed points
        for j in 0..6 {
            let q = match j {
                0 => n,
                1 => act(&n, 1 + below(&mut c.rng, 15) as usize),
                2 => [edge_f2(&mut c.rng).0, edge_f2(&mut c.rng).0, edge_f2(&mut c.rng).0, F2::rand(&mut c.rng)],
                3 => {
                    let mut q = [F2::rand(&mut c.rng), F2::rand(&mut c.rng), F2::rand(&mut c.rng), F2::rand(&mut c.rng)];
                    q[below(&mut c.rng, 4) as usize] = F2::zero();
                    q
                }
                _ => [F2::rand(&mut c.rng), F2::rand(&mut c.rng), F2::rand(&mut c.rng), F2::rand(&mut c.rng)],
            };
            let h = had(&q.map(|x| x.sq()));
            let mut m = [F2::zero(); 4];
            for i in 0..4 {
                m[i] = h[i].sq().div(&dual[i]);
            }
            let m = had(&m);
            let mut w = [F2::zero(); 4];
            for i in 0..4 {
                w[i] = m[i].div(&n[i]);
            }
            for (s, nm) in [(&s1, "from point"), (&s2, "from coordinates")] {
                let g = tl(&s.double_point(&tp(&q)));
                let zero = w.iter().all(|x| x.is_zero());
                ensure!(if zero { g.iter().all(|x| x.is_zero()) } else { proj_eq(&g, &w) }, "doubling of {} on the structure {nm} with null point {}", shows(&q), shows(&n));
                if j < 2 {
                    ensure!(proj_eq(&g, &n), "twice a two-torsion translate of the null point is not the null point {}", shows(&n));
                }
            }
            let k = 1 + below(&mut c.rng, 15) as usize;
            let (g, g2) = (tl(&s1.double_point(&tp(&q))), tl(&s1.double_point(&tp(&act(&q, k)))));
            ensure!(g.iter().all(|x| x.is_zero()) || proj_eq(&g, &g2), "doubling changes under translation {k} by two-torsion, null point {}, point {}", shows(&n), shows(&q));
            let mut key = Vec::new();
            for x in n.iter().chain(q.iter()) {
                key.extend(x.enc());
            }
            c.obs(["null point", "two-torsion", "boundary coordinates", "zero coordinate", "random", "random"][j], &key);
        }
        Ok(())
    });
    // null points with coordinates or dual coordinates that vanish: the other ratios are still exact
    ctx.cases("degenerate", ctx.n(200, 3000), |c| {
        let mut n = [F2::zero(); 4];
        for x in n.iter_mut() {
            *x = F2::rand(&mut c.rng);
        }
        match below(&mut c.rng, 3) {
            0 => n[1 + below(&mut c.rng, 3) as usize] = F2::zero(),
            1 => {
                // two vanishing dual coordinates: a^2 + b^2 = c^2 + d^2 with equal halves
                let i = below(&mut c.rng, 2) as usize;
                n[2 + i] = n[0];
                n[3 - i] = n[1];
            }
            _ => {
                n[1] = F2::zero();
                n[2 + below(&mut c.rng, 2) as usize] = F2::zero();
            }
        }
        let dual = had(&n.map(|x| x.sq()));
        let got = ThetaStructure::precomputation(&tp(&n)).map(|x| f2(&x));
        for (k, (num, den)) in [(n[0], n[1]), (n[0], n[2]), (n[0], n[3]), (dual[0], dual[1]), (dual[0], dual[2]), (dual[0], dual[3])].iter().enumerate() {
            if !den.is_zero() {
                ensure!(got[k] == num.div(den), "ratio {k} of the null point {} with zero coordinates", shows(&n));
            }
        }
        let s = ThetaStructure::new_from_coords(&fq(&n[0]), &fq(&n[1]), &fq(&n[2]), &fq(&n[3]));
        ensure!(tl(&s.null_point()) == n, "null point changed");
        let mut key = Vec::new();
        for x in n.iter() {
            key.extend(x.enc());
        }
        c.obs("zero coordinate in the null point or its dual", &key);
        Ok(())
    });
    // product structures: doubling is doubling on both curves
    ctx.cases("product", ctx.n(400, 6000), |c| {
        let line = |c: &mut Case| loop {
            let (a, b) = if below(&mut c.rng, 4) == 0 { (edge_f2(&mut c.rng).0, F2::one()) } else { (F2::rand(&mut c.rng), F2::rand(&mut c.rng)) };
            if let Some(l) = Line::new(a, b) {
                break l;
            }
        };
        let (l1, l2) = (line(c), line(c));
        let null = prod(&(l1.a, l1.b), &(l2.a, l2.b));
        let s = ThetaStructure::new_from_point(&tp(&null));
        for _ in 0..4 {
            let mut coord = |l: &Line| -> ((F2, F2), &'static str) {
                match below(&mut c.rng, 6) {
                    0 => ((l.a, l.b), "neutral"),
                    1 => ([(l.a.neg(), l.b), (l.b, l.a), (l.b.neg(), l.a)][below(&mut c.rng, 3) as usize], "order 2"),
                    // x = 1, x = -1: order 4
                    2 => (l.to_theta(&(F2::one(), if below(&mut c.rng, 2) == 0 { F2::one() } else { F2::one().neg() })), "order 4"),
                    _ => ((F2::rand(&mut c.rng), F2::rand(&mut c.rng)), "generic"),
                }
            };
            let ((t1, n1), (t2, n2)) = (coord(&l1), coord(&l2));
            let z = rand_z(&mut c.rng);
            let P = tp(&prod(&t1, &t2).map(|x| x.mul(&z)));
            let w = prod(&l1.dbl(&t1), &l2.dbl(&t2));
            let g = tl(&s.double_point(&P));
            ensure!(proj_eq(&g, &w), "doubling of ({n1}, {n2}) on the product structure with null point {}: point {}", shows(&null), shows(&prod(&t1, &t2)));
            let k = below(&mut c.rng, 12) as usize;
            let (mut u, mut v) = (t1, t2);
            for _ in 0..k {
                u = l1.dbl(&u);
                v = l2.dbl(&v);
            }
            let g = tl(&s.double_iter(&P, k));
            ensure!(proj_eq(&g, &prod(&u, &v)), "{k} doublings of ({n1}, {n2}) on the product structure with null point {}: point {}", shows(&null), shows(&prod(&t1, &t2)));
            let mut R = P;
            s.set_double_self(&mut R);
            ensure!(proj_eq(&tl(&R), &w), "set_double_self differs from double_point");
            let mut key = Vec::new();
            for x in prod(&t1, &t2).iter().chain(null.iter()) {
                key.extend(x.enc());
            }
            c.obs(&format!("product: {n1} x {n2}"), &key);
        }
        c.sample("product", || format!("null point {}", shows(&null)));
        Ok(())
    });
}
