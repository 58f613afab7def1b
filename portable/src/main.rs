//! A deterministic workload small enough for an interpreter. Usage: portmon SECTION SEED N [hex...]
//! Prints one line per operation: its name and the bytes of its results. The same program is run as native code and under Miri
//! for several targets; the lines must agree, and Miri must not report anything.
#![allow(non_snake_case)]
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::*;
use festa_rs::{discrete_log::*, festa::*, pairing::*, supersingular::*, thetaFESTA};
use num_bigint::BigUint;
use rand_core::{CryptoRng, RngCore};

struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl CryptoRng for R {}

const HEX: &[u8] = b"0123456789abcdef";
struct L(String);
impl L {
    fn raw(&mut self, b: &[u8]) {
        for x in b {
            self.0.push(HEX[(x >> 4) as usize] as char);
            self.0.push(HEX[(x & 15) as usize] as char);
        }
        self.0.push(' ');
    }
    fn fp(&mut self, x: Fp) {
        self.raw(&x.encode());
    }
    fn fq(&mut self, x: Fq) {
        self.raw(&x.encode());
    }
    fn u(&mut self, x: u32) {
        self.raw(&x.to_be_bytes());
    }
    fn big(&mut self, x: &BigUint) {
        self.raw(&x.to_bytes_le());
    }
    /// projective triple as it is: the coordinates themselves are determined by the formulas
    fn pt(&mut self, p: &Point) {
        let (x, y, z) = p.to_xyz();
        self.fq(x);
        self.fq(y);
        self.fq(z);
    }
}
fn op(name: &str, f: impl FnOnce(&mut L)) {
    let mut l = L(String::new());
    f(&mut l);
    println!("{name} {}", l.0);
}
/// The bytes of a value below p with a boundary in it.
fn bytes(r: &mut R) -> Vec<u8> {
    let p = BigUint::from_slice(&BIGUINT_MODULUS);
    let one = BigUint::from(1u32);
    let k = r.next();
    let x = match k % 10 {
        0 => BigUint::from(0u32),
        1 => BigUint::from(k >> 32) % &p,
        2 => &p - one - BigUint::from(k >> 60),
        3 => (&p >> 1u32) + BigUint::from(k >> 62),
        4 => (one << ((k >> 8) % 1292)) - BigUint::from(1 - (k >> 4 & 1)),
        5 => &p - (BigUint::from(1u32) << ((k >> 8) % 1292)),
        6 => (0..21).fold(BigUint::from(0u32), |a, _| (a << 64u32) + BigUint::from(if r.next() & 1 == 0 { u64::MAX } else { 0 })) % &p,
        _ => (0..21).fold(BigUint::from(0u32), |a, _| (a << 64u32) + BigUint::from(r.next())) % &p,
    };
    let mut v = x.to_bytes_le();
    v.resize(Fp::ENCODED_LENGTH, 0);
    v
}
fn fp(r: &mut R) -> Fp {
    Fp::decode_reduce(&bytes(r))
}
fn fq(r: &mut R) -> Fq {
    let k = r.next();
    let (a, b) = (fp(r), fp(r));
    match k % 8 {
        0 => Fq::new(&a, &Fp::ZERO),
        1 => Fq::new(&Fp::ZERO, &b),
        _ => Fq::new(&a, &b),
    }
}
fn nat(r: &mut R, words: u64) -> BigUint {
    let w = 1 + r.next() % words;
    (0..w).fold(BigUint::from(0u32), |a, i| (a << 64u32) + BigUint::from(match r.next() % 5 { 0 => 0, 1 => u64::MAX, 2 if i == 0 => 1, _ => r.next() }))
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn el(s: &str) -> Fq {
    let (x, ok) = Fq::decode(&unhex(s));
    assert!(ok != 0, "bad argument");
    x
}

fn ring(r: &mut R, n: usize) {
    for _ in 0..n {
        let (a, b, c, d) = (fp(r), fp(r), fp(r), fp(r));
        op("fp.add", |l| l.fp(a + b));
        op("fp.sub", |l| l.fp(a - b));
        op("fp.neg", |l| l.fp(-a));
        op("fp.mul", |l| l.fp(a * b));
        op("fp.square", |l| l.fp(a.square()));
        op("fp.half", |l| l.fp(a.half()));
        op("fp.mul2348", |l| { l.fp(a.mul2()); l.fp(a.mul3()); l.fp(a.mul4()); l.fp(a.mul8()) });
        let k = [0, 1, -1, 2, i32::MAX, i32::MIN, i32::MIN + 1, r.next() as i32][(r.next() % 8) as usize];
        op("fp.mul_small", |l| l.fp(a.mul_small(k)));
        op("fp.sop", |l| { l.fp(Fp::sum_of_products(&a, &b, &c, &d)); l.fp(Fp::difference_of_products(&a, &b, &c, &d)) });
        op("fp.assign", |l| { let mut x = a; x += b; x -= &c; x *= d; l.fp(x) });
        op("fp.cmp", |l| { l.u(a.equals(&b)); l.u(a.equals(&{ a })); l.u(a.iszero()); l.u((a - a).iszero()) });
        op("fp.select", |l| {
            l.fp(Fp::select(&a, &b, 0));
            l.fp(Fp::select(&a, &b, u32::MAX));
            let (mut x, mut y) = (a, b);
            Fp::condswap(&mut x, &mut y, u32::MAX);
            x.set_condneg(u32::MAX);
            y.set_cond(&c, 0);
            l.fp(x);
            l.fp(y)
        });
        op("fp.from", |l| {
            let k = r.next();
            l.fp(Fp::from_u64(k));
            l.fp(Fp::from_i64(k as i64));
            l.fp(Fp::from_u32(k as u32));
            l.fp(Fp::from_i32(k as i32));
            l.fp(Fp::from_i64(i64::MIN));
            l.fp(Fp::from_i32(i32::MIN))
        });
    }
}
fn codec(r: &mut R, n: usize) {
    let p = BigUint::from_slice(&BIGUINT_MODULUS);
    for d in 0..3u32 {
        let mut v = (&p + BigUint::from(d) - BigUint::from(1u32)).to_bytes_le();
        v.resize(Fp::ENCODED_LENGTH, 0);
        op("fp.decode", |l| { let (x, ok) = Fp::decode(&v); l.fp(x); l.u(ok) });
    }
    op("fp.decode", |l| { let (x, ok) = Fp::decode(&[255; Fp::ENCODED_LENGTH]); l.fp(x); l.u(ok) });
    for _ in 0..n {
        let v = bytes(r);
        // slices that start anywhere
        let mut w = vec![7u8; 3];
        w.extend(&v);
        op("fp.decode", |l| { let (x, ok) = Fp::decode(&w[3..]); l.fp(x); l.u(ok) });
        let mut q = v.clone();
        q.extend(bytes(r));
        op("fq.decode", |l| { let (x, ok) = Fq::decode(&q); l.fq(x); l.u(ok) });
        for len in [0, 1, 7, v.len() - 1, v.len() + 1, 2 * v.len()] {
            let mut z = q.clone();
            z.resize(len, 0x5a);
            op("decode, wrong length", |l| { let (x, ok) = Fp::decode(&z); l.fp(x); l.u(ok); let (x, ok) = Fq::decode(&z[..len.min(v.len())]); l.fq(x); l.u(ok) });
        }
        let len = [0, 1, 7, 8, 9, 161, 162, 163, 323, 324, 325, 486, 487][(r.next() % 13) as usize];
        let z: Vec<u8> = (0..len + 1).map(|_| r.next() as u8).collect();
        op("fp.decode_reduce", |l| l.fp(Fp::decode_reduce(&z[1..])));
        op("fp.rand", |l| l.fp(Fp::rand(r)));
        let a = fq(r);
        op("hash", |l| l.raw(&a.hashcode().to_be_bytes()));
        op("show", |l| l.raw(format!("{a}").as_bytes()));
    }
}
fn div(r: &mut R, n: usize) {
    for _ in 0..n {
        let (a, b) = (fp(r), fp(r));
        op("fp.div", |l| l.fp(a / b));
        op("fp.invert", |l| l.fp(b.invert()));
        op("fp.legendre", |l| l.u(a.legendre() as u32));
    }
    op("fp.div0", |l| l.fp(Fp::ONE / Fp::ZERO));
}
fn root(r: &mut R, n: usize) {
    for i in 0..n {
        let a = fp(r).square();
        if i % 2 == 0 {
            op("fp.sqrt", |l| { let (x, ok) = a.sqrt(); l.fp(x); l.u(ok) });
        } else {
            op("fp.fourth_root", |l| { let (x, ok) = a.square().fourth_root(); l.fp(x); l.u(ok) });
        }
    }
}
fn ext(r: &mut R, n: usize) {
    for _ in 0..n {
        let (a, b) = (fq(r), fq(r));
        op("fq.add", |l| { l.fq(a + b); l.fq(a - b); l.fq(-a); l.fq(a.conj()) });
        op("fq.mul", |l| { l.fq(a * b); l.fq(a.mul_old(b)); l.fq(a.mul_new(b)) });
        op("fq.square", |l| l.fq(a.square()));
        op("fq.small", |l| { l.fq(a.half()); l.fq(a.mul2()); l.fq(a.mul3()); l.fq(a.mul4()); l.fq(a.mul8()); l.fq(a.mul_small(-5)) });
        op("fq.cmp", |l| { l.u(a.equals(&b)); l.u(a.iszero()); let (mut x, mut y) = (a, b); Fq::condswap(&mut x, &mut y, u32::MAX); x.set_condneg(u32::MAX); l.fq(x); l.fq(Fq::select(&x, &y, 0)) });
        let e = r.next();
        op("fq.pow", |l| { l.fq(a.pow_small(e as u32 & 15)); l.fq(a.pow_u64_vartime(e & 7)); l.fq(a.pow_u64(e & 15, 4)); l.fq(a.pow(&[e as u8], 5)); l.fq(a.pow_big(&BigUint::from(e & 31))) });
    }
}
fn extdiv(r: &mut R, n: usize) {
    for _ in 0..n {
        let (a, b) = (fq(r), fq(r));
        op("fq.div", |l| l.fq(a / b));
        op("fq.legendre", |l| l.u(a.legendre() as u32));
        let k = (r.next() % 5) as usize;
        let mut v: Vec<Fq> = (0..k).map(|i| if i == 1 { Fq::ZERO } else { fq(r) }).collect();
        op("fq.batch_invert", |l| { Fq::batch_invert(&mut v); for x in v { l.fq(x) } });
    }
}
fn extroot(r: &mut R, n: usize) {
    for _ in 0..n {
        let a = fq(r).square();
        op("fq.sqrt", |l| { let (x, ok) = a.sqrt(); l.fq(x); l.u(ok) });
    }
}
/// A point of a curve with a coefficient chosen to fit.
fn point(r: &mut R) -> (Curve, Point) {
    // y^2 = x^3 + A x^2 + x with x = 2: A = (y^2 - 10) / 4
    let y = fq(r);
    let A = (y.square() - Fq::TWO.mul4() - Fq::TWO).half().half();
    let z = fq(r);
    let E = Curve::new(&A);
    (E, if r.next() & 1 == 0 || z.iszero() != 0 { Point::new_xy(&Fq::TWO, &y) } else { E.point_xyz_nocheck(&(Fq::TWO * z), &(y * z), &z) })
}
fn points(r: &mut R, n: usize) {
    for i in 0..n {
        let (E, P) = point(r);
        let Q = E.double(&P);
        op("double", |l| l.pt(&Q));
        match i % 4 {
            0 => {
                op("add", |l| l.pt(&E.add(&P, &Q)));
                op("add", |l| l.pt(&E.add(&P, &Point::INFINITY)));
                op("sub", |l| l.pt(&E.sub(&P, &P)));
            }
            1 => {
                op("double_iter", |l| l.pt(&E.double_iter(&P, 2)));
                op("equals", |l| { l.u(P.equals(&Q)); l.u(P.isinfinity()); l.u(E.on_curve(&Q) as u32) });
                op("condneg", |l| { let mut x = P; x.set_condneg(u32::MAX); x.set_cond(&Q, 0); l.pt(&x) });
            }
            2 => {
                let k = r.next();
                op("mul_small", |l| l.pt(&E.mul_small(&P, k & 7)));
                op("constructors", |l| {
                    let (x, y, z) = P.to_xyz();
                    l.u(E.point_xyz_vartime(&x, &y, &z).is_some() as u32);
                    l.u(E.point_xy_vartime(&x, &(y + Fq::ONE)).is_some() as u32);
                    let mut t = Point::INFINITY;
                    l.u(E.set_xyz(&mut t, &x, &y, &z));
                    l.pt(&t)
                });
            }
            _ => {
                let C = thetaFESTA::CouplePoint::new(&P, &Q);
                op("couple", |l| { let D = thetaFESTA::EllipticProduct::new(&E, &E).double(&C); let (x, y) = D.points(); l.pt(&x); l.pt(&y) });
            }
        }
    }
}
fn mul(r: &mut R, n: usize) {
    for _ in 0..n {
        let (E, P) = point(r);
        let k = r.next();
        op("mul", |l| l.pt(&E.mul(&P, &[k as u8, 1], 3 + ((k >> 20) % 3) as usize)));
    }
}
fn affine(r: &mut R, n: usize) {
    for _ in 0..n {
        let (E, P) = point(r);
        op("to_xy", |l| { let (x, y) = E.double(&P).to_xy(); l.fq(x); l.fq(y) });
        op("to_xy_vartime", |l| l.u(Point::INFINITY.to_xy_vartime().is_none() as u32));
        op("j", |l| l.fq(E.j_invariant()));
    }
}
fn modular(r: &mut R, n: usize) {
    for i in 0..n {
        // the 2-power moduli and word-sized ones of the library, and others
        let m = match i % 4 {
            0 => BigUint::from(1u32) << (1 + r.next() % 700),
            1 => BigUint::from(2 + r.next() % 1000),
            2 => nat(r, 2) + 2u32,
            _ => nat(r, 12) + 2u32,
        };
        let a = nat(r, 12) | BigUint::from(1u32);
        let g = { let (mut x, mut y) = (a.clone() % &m, m.clone()); while x.bits() > 0 { let t = &y % &x; y = x; x = t; } y };
        if g.bits() == 1 {
            op("xgcd", |l| l.big(&xgcd_big(&(&a % &m), &m)));
        }
        let fs: Vec<(u32, u32)> = [(3u32, 5u32), (2, 40), (5, 3), (7, 2), (65521, 1), (3779, 2)].into_iter().skip((r.next() % 4) as usize).collect();
        let rem: Vec<BigUint> = fs.iter().map(|(l, e)| nat(r, 3) % BigUint::from(*l).pow(*e)).collect();
        op("crt", |l| l.big(&compute_crt(&rem, &fs)));
        let x = [r.next() as u32, u32::MAX, 0, 1, 65535 * 65535, 65536 * 65535][(r.next() % 6) as usize];
        op("sqrt_floor", |l| l.u(sqrt_floor(x)));
    }
}
fn theta(r: &mut R, n: usize) {
    use thetaFESTA::*;
    for _ in 0..n {
        let mut f = || { let x = fq(r); if x.iszero() != 0 { Fq::THREE } else { x } };
        let P = ThetaPoint::from_coords(&f(), &f(), &f(), &f());
        op("hadamard", |l| { let (a, b, c, d) = P.hadamard(); l.fq(a); l.fq(b); l.fq(c); l.fq(d); let (a, b, c, d) = P.squared_theta(); l.fq(a); l.fq(b); l.fq(c); l.fq(d) });
        op("theta double", |l| {
            let T = ThetaStructure::new_from_coords(&f(), &f(), &f(), &f());
            for x in ThetaStructure::precomputation(&T.null_point()) {
                l.fq(x)
            }
            for x in T.double_iter(&P, 2).list() {
                l.fq(x)
            }
        });
    }
}
/// Encodings of a key and an output with affine points.
fn keys(r: &mut R, n: usize) {
    for _ in 0..n {
        let ps: Vec<Point> = (0..4).map(|_| { let x = fq(r); Point::new_xy(&x, &Fq::ONE) }).collect();
        let E = Curve::new(&fq(r));
        let (a, b) = (nat(r, 9), nat(r, 9));
        let sk = SecretKey::new(&E, &(ps[0], ps[1]), &(ps[2], ps[3]), &(a, b));
        op("key", |l| { let v = sk.encode(); l.raw(&v); l.raw(&SecretKey::decode(&v).encode()) });
        let c = TrapdoorOutput::new(&E, &ps[0], &ps[1], &E, &ps[2], &ps[3]);
        op("output", |l| { let v = c.encode(); l.raw(&v); l.raw(&TrapdoorOutput::decode(&v).encode()) });
        let (u, v) = (nat(r, 9), nat(r, 9));
        let m = TrapdoorInput::new(&u, &v, &(v.clone(), u.clone()));
        op("input", |l| { l.raw(format!("{m}").as_bytes()); l.u((m == TrapdoorInput::new(&u, &u, &(v.clone(), u.clone()))) as u32) });
    }
}
/// Torsion: the arguments are A, l, and the coordinates of a basis of the l-torsion.
fn torsion(part: usize, a: &[String]) {
    let E = Curve::new(&el(&a[0]));
    let l: u32 = a[1].parse().unwrap();
    let P = Point::new_xy(&el(&a[2]), &el(&a[3]));
    let Q = Point::new_xy(&el(&a[4]), &el(&a[5]));
    let n = BigUint::from(l);
    match part {
        0 => op("isogeny", |o| {
            let ch = factored_kummer_isogeny(&E, &P, &[(l, 1)]);
            let (c, q) = evaluate_isogeny_chain(&E, &Q, &ch);
            o.fq(c.get_constant());
            let (x, z) = q.to_xz();
            o.fq(x / z)
        }),
        1 => op("order", |o| {
            o.u(point_has_factored_order(&E, &P, &[(l, 1)]) as u32);
            o.u(point_has_factored_order(&E, &P, &[(l, 2)]) as u32)
        }),
        2 => op("weil", |o| o.fq(weil_pairing(&E, &P, &Q, &n))),
        3 => op("dlp", |o| {
            let z = el(&a[6]);
            o.u(bsgs(&z.square(), &z, l));
            o.big(&ph_dlp(&z.square(), &z, &[(l, 1)]));
            o.u(has_factored_order(z, &[(l, 1)]) as u32)
        }),
        _ => op("logs", |o| {
            let (x, y) = bidlp(&E, &E.add(&P, &Q), &P, &Q, &[(l, 1)], Some(el(&a[6])));
            o.big(&x);
            o.big(&y)
        }),
    }
}
/// The library used from three threads at once.
fn threads(r: &mut R, n: usize) {
    let (a, b) = (fq(r), fq(r));
    let (E, P) = point(r);
    let v: Vec<String> = std::thread::scope(|s| {
        let h: Vec<_> = (0..3usize)
            .map(|t| s.spawn(move || {
                let mut l = L(String::new());
                for i in 0..n {
                    l.fq(a * b);
                    l.pt(&E.double(&P));
                    l.u(sqrt_floor(1000 + (t + i) as u32));
                    l.big(&xgcd_big(&BigUint::from(5u32 + 2 * t as u32), &BigUint::from(1u32 << 20)));
                    l.big(&compute_crt(&vec![BigUint::from(2u32), BigUint::from(t)], &[(3, 2), (5, 1)]));
                    let mut w = [a, Fq::ZERO];
                    if i == 0 {
                        Fq::batch_invert(&mut w);
                    }
                    l.fq(w[0]);
                    l.raw(&a.hashcode().to_be_bytes());
                }
                l.0
            }))
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for x in v {
        println!("thread {x}");
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let mut r = R(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ a[0].bytes().fold(7u64, |x, b| x.wrapping_mul(131) + b as u64));
    let r = &mut r;
    match a[0].as_str() {
        "ring" => ring(r, n),
        "codec" => codec(r, n),
        "div" => div(r, n),
        "root" => root(r, n),
        "ext" => ext(r, n),
        "extdiv" => extdiv(r, n),
        "extroot" => extroot(r, n),
        "points" => points(r, n),
        "mul" => mul(r, n),
        "affine" => affine(r, n),
        "modular" => modular(r, n),
        "theta" => theta(r, n),
        "keys" => keys(r, n),
        "threads" => threads(r, n),
        "torsion" => torsion(n, &a[3..]),
        x => panic!("unknown section {x}"),
    }
    println!("END");
}
