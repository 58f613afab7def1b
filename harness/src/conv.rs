//! Conversions between the library's types and the oracle's, through the public encode/decode interface, and
//! generators of boundary-heavy inputs.
#![allow(non_snake_case)]
use crate::oracle::*;
use festa_rs::ecFESTA::{Curve, Point};
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use num_bigint::BigUint;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;

pub fn fp(x: &F) -> Fp {
    let b = x.enc();
    let (v, ok) = Fp::decode(&b);
    if ok != u32::MAX {
        panic!("decode refused a canonical encoding: {}", hexs(&b));
    }
    v
}
pub fn f(x: &Fp) -> F {
    let b = x.encode();
    let v = BigUint::from_bytes_le(&b);
    if &v >= p() {
        panic!("encode produced a non-canonical value {}", v);
    }
    F::from_big(&v)
}
pub fn fq(x: &F2) -> Fp2 {
    Fp2::new(&fp(&x.0), &fp(&x.1))
}
pub fn f2(x: &Fp2) -> F2 {
    let (a, b) = x.get_coeff();
    F2(f(&a), f(&b))
}
pub fn cv(e: &Cv) -> Curve {
    Curve::new(&fq(&e.a))
}
pub fn ocv(e: &Curve) -> Cv {
    Cv { a: f2(&e.get_constant()) }
}
pub fn pt(q: &Point) -> Pt {
    let (x, y, z) = q.to_xyz();
    let z = f2(&z);
    if z.is_zero() {
        return None;
    }
    let zi = z.inv();
    Some((f2(&x).mul(&zi), f2(&y).mul(&zi)))
}
pub fn point(q: &Pt) -> Point {
    match q {
        None => Point::INFINITY,
        Some((x, y)) => Point::new_xy(&fq(x), &fq(y)),
    }
}
/// The same point in a random (or given) projective representation.
pub fn point_z(e: &Curve, q: &Pt, z: &F2) -> Point {
    match q {
        None => {
            // The neutral element is any triple with Z = 0: results of the library carry (0:Y:0) and (0:0:0), and a
            // rejected set_xy leaves (X:Y:0).
            let (x, y) = match z.0 .0[0] % 4 {
                0 => (F2::zero(), F2::zero()),
                1 => (z.clone(), z.sq()),
                _ => (F2::zero(), z.clone()),
            };
            e.point_xyz_nocheck(&fq(&x), &fq(&y), &Fp2::ZERO)
        }
        Some((x, y)) => e.point_xyz_nocheck(&fq(&x.mul(z)), &fq(&y.mul(z)), &fq(z)),
    }
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn show(x: &F) -> String {
    format!("{:x}", x.to_big())
}
pub fn show2(x: &F2) -> String {
    format!("({:x} + i*{:x})", x.0.to_big(), x.1.to_big())
}
pub fn showp(q: &Pt) -> String {
    match q {
        None => "inf".into(),
        Some((x, y)) => format!("[x={} y={}]", show2(x), show2(y)),
    }
}

pub fn below(rng: &mut ChaCha8Rng, n: u64) -> u64 {
    rng.next_u64() % n
}
pub fn rbytes(rng: &mut ChaCha8Rng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    rng.fill_bytes(&mut v);
    v
}

/// A field element drawn from boundary-heavy families; returns its family name too.
pub fn edge_f(rng: &mut ChaCha8Rng) -> (F, &'static str) {
    let pp = p();
    match below(rng, 12) {
        0 => (F::from_big(&BigUint::from(below(rng, 5))), "tiny"),
        1 => (F::from_big(&(pp - 1u32 - BigUint::from(below(rng, 4)))), "p-tiny"),
        2 => {
            let h = (pp - 1u32) >> 1;
            (F::from_big(&(h + BigUint::from(below(rng, 3)))), "half")
        }
        3 => {
            let k = below(rng, 1293);
            let v = BigUint::from(1u32) << k;
            (F::from_big(&(v + BigUint::from(below(rng, 3)) + pp - 1u32)), "pow2")
        }
        4 => {
            let k = below(rng, 1292);
            (F::from_big(&(pp - (BigUint::from(1u32) << k))), "p-pow2")
        }
        5 => (F::from_big(&BigUint::from(rng.next_u64())), "u64"),
        6 => {
            // raw Montgomery limb patterns
            let mut l = [0u64; N];
            for w in l.iter_mut() {
                *w = match below(rng, 7) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1,
                    3 => 1 << 63,
                    4 => 0xFFFF_FFFF,
                    5 => u64::MAX << 32,
                    _ => rng.next_u64(),
                };
            }
            l[N - 1] = match below(rng, 5) {
                0 => 0,
                1 => 0x176b,
                2 => 1,
                _ => below(rng, 0x176c),
            };
            (F(l), "mont-limbs")
        }
        7 => {
            // raw Montgomery value of small bit length
            let k = 1 + below(rng, 1292);
            let v = BigUint::from_bytes_le(&rbytes(rng, 162)) % (BigUint::from(1u32) << k);
            (F(big_to_limbs(&(v % pp))), "mont-short")
        }
        8 => {
            let v = pp - 1u32 - BigUint::from(below(rng, 1 << 20));
            (F(big_to_limbs(&v)), "mont-near-p")
        }
        9 => {
            // shares the top limbs of p in Montgomery form, differs below
            let mut l = c().pl;
            let k = below(rng, N as u64 - 1) as usize;
            for w in l.iter_mut().take(k) {
                *w = rng.next_u64();
            }
            l[k] = l[k].wrapping_sub(1 + below(rng, 3));
            let v = limbs_to_big(&l) % pp;
            (F(big_to_limbs(&v)), "mont-top-of-p")
        }
        10 => (F(big_to_limbs(&(BigUint::from(1u32) << below(rng, 1292)))), "mont-pow2"),
        _ => (F::rand(rng), "random"),
    }
}
pub fn edge_f2(rng: &mut ChaCha8Rng) -> (F2, &'static str) {
    match below(rng, 6) {
        0 => {
            let (a, n) = edge_f(rng);
            (F2(a, F::zero()), n)
        }
        1 => {
            let (a, n) = edge_f(rng);
            (F2(F::zero(), a), n)
        }
        2 => {
            let (a, n) = edge_f(rng);
            (F2(a, if below(rng, 2) == 0 { a } else { a.neg() }), n)
        }
        3 => (F2::rand(rng), "random2"),
        _ => {
            let (a, n) = edge_f(rng);
            let (b, _) = edge_f(rng);
            (F2(a, b), n)
        }
    }
}
