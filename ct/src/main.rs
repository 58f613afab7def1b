//! Runs one operation of the library on inputs marked undefined for valgrind's memcheck, which then reports every
//! conditional jump and every memory address that depends on them. Used by vmon P23.
#![allow(non_snake_case, unused_assignments)]
use festa_rs::ecFESTA::{CouplePoint, Curve, EllipticProduct, Point, PointX};
use festa_rs::fields::{FpFESTA::Fp, FpFESTAExt::Fp2};
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use std::hint::black_box;

fn request(code: u64, a: u64, b: u64) -> u64 {
    let args = [code, a, b, 0u64, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, in("rdi") 0u64);
    }
    r
}
fn undef<T>(x: &mut T) { request(0x4d430001, x as *mut T as u64, std::mem::size_of::<T>() as u64); }
fn undefs(x: &mut [u8]) { request(0x4d430001, x.as_mut_ptr() as u64, x.len() as u64); }
fn def<T>(x: &mut T) { request(0x4d430002, x as *mut T as u64, std::mem::size_of::<T>() as u64); }
fn errors() -> u64 { request(0x1201, 0, 0) }
fn on_valgrind() -> bool { request(0x1001, 0, 0) != 0 }

const CLASSES: [&str; 6] = ["random", "zero", "one", "minus one", "small", "top"];
struct In { r: ChaCha8Rng, class: usize }
impl In {
    fn plain(&mut self) -> Fp {
        let k = match self.class { 0 => 0, c => if self.r.next_u32() & 3 == 0 { 0 } else { c } };
        match k {
            0 => Fp::rand(&mut self.r),
            1 => Fp::ZERO,
            2 => Fp::ONE,
            3 => -Fp::ONE,
            4 => Fp::from_u64(self.r.next_u64() >> (self.r.next_u32() & 63)),
            _ => -Fp::from_u32(self.r.next_u32() & 255),
        }
    }
    fn f(&mut self) -> Fp { let mut x = self.plain(); undef(&mut x); x }
    fn plain2(&mut self) -> Fp2 { let (a, b) = (self.plain(), self.plain()); Fp2::new(&a, &b) }
    fn q(&mut self) -> Fp2 { let mut x = self.plain2(); undef(&mut x); x }
    fn curve(&mut self) -> Curve { Curve::new(&(Fp2::TWO + Fp2::FOUR)) }
    /// a public point in a random scaling, special points in the special classes; coordinates secret
    fn plainp(&mut self, E: &Curve) -> Point {
        let P = match self.class {
            1 => Point::INFINITY,
            2 => E.point_xy_nocheck(&Fp2::ZERO, &Fp2::ZERO),
            _ => E.rand_point(&mut self.r),
        };
        let (x, y, z) = P.to_xyz();
        let s = Fp2::rand(&mut self.r);
        E.point_xyz_nocheck(&(x * s), &(y * s), &(z * s))
    }
    fn p(&mut self, E: &Curve) -> Point { let mut x = self.plainp(E); undef(&mut x); x }
    fn mask(&mut self) -> u32 { let mut m = (self.r.next_u32() & 1).wrapping_neg(); undef(&mut m); m }
}
fn done<T>(mut x: T) { def(&mut x); black_box(&x); }

type Op = (&'static str, fn(&mut In));
macro_rules! ops { ($($n:literal => |$i:ident| $b:block)*) => { &[$(($n, { #[inline(never)] fn op($i: &mut In) { $b } op })),*] } }

#[rustfmt::skip]
static OPS: &[Op] = ops! {
    "control: branch on a secret" => |i| { let a = i.f(); if a.encode()[0] & 1 == 1 { black_box(1); eprint!(""); } else { black_box(2); } }
    "control: address from a secret" => |i| { let a = i.f(); let t: Vec<u8> = black_box((0..=255).collect()); done(t[a.encode()[0] as usize]); }
    "control: nothing" => |i| { let a = i.f(); done(a); }
    "fp add" => |i| { let (a, b) = (i.f(), i.f()); done(a + b); }
    "fp sub" => |i| { let (a, b) = (i.f(), i.f()); done(a - b); }
    "fp neg" => |i| { let a = i.f(); done(-a); }
    "fp mul" => |i| { let (a, b) = (i.f(), i.f()); done(a * b); }
    "fp square" => |i| { let a = i.f(); done(a.square()); }
    "fp half" => |i| { let a = i.f(); done(a.half()); }
    "fp mul2" => |i| { let a = i.f(); done(a.mul2()); }
    "fp mul3" => |i| { let a = i.f(); done(a.mul3()); }
    "fp mul4" => |i| { let a = i.f(); done(a.mul4()); }
    "fp mul8" => |i| { let a = i.f(); done(a.mul8()); }
    "fp mul_small" => |i| { let a = i.f(); let mut k = i.r.next_u32() as i32; undef(&mut k); done(a.mul_small(k)); }
    "fp div" => |i| { let (a, b) = (i.f(), i.f()); done(a / b); }
    "fp invert" => |i| { let a = i.f(); done(a.invert()); }
    "fp sqrt" => |i| { let a = i.f(); done(a.sqrt()); }
    "fp fourth_root" => |i| { let a = i.f(); done(a.fourth_root()); }
    "fp legendre" => |i| { let a = i.f(); done(a.legendre()); }
    "fp pow" => |i| { let a = i.f(); let mut e = [0u8; 12]; i.r.fill_bytes(&mut e); undefs(&mut e); done(a.pow(&e, 90)); }
    "fp pow_ext" => |i| { let a = i.f(); let mut e = [0u8; 12]; i.r.fill_bytes(&mut e); undefs(&mut e); done(a.pow_ext(&e, 11, 50)); }
    "fp iszero" => |i| { let a = i.f(); done(a.iszero()); }
    "fp equals" => |i| { let mut a = i.plain(); let mut b = if i.r.next_u32() & 1 == 0 { a } else { i.plain() }; undef(&mut a); undef(&mut b); done(a.equals(&b)); }
    "fp select" => |i| { let (a, b, m) = (i.f(), i.f(), i.mask()); done(Fp::select(&a, &b, m)); }
    "fp set_cond" => |i| { let (mut a, b, m) = (i.f(), i.f(), i.mask()); a.set_cond(&b, m); done(a); }
    "fp set_condneg" => |i| { let (mut a, m) = (i.f(), i.mask()); a.set_condneg(m); done(a); }
    "fp condswap" => |i| { let (mut a, mut b, m) = (i.f(), i.f(), i.mask()); Fp::condswap(&mut a, &mut b, m); done((a, b)); }
    "fp encode" => |i| { let a = i.f(); done(a.encode()); }
    "fp decode" => |i| { let mut e = i.plain().encode(); if i.class == 5 { e = [0xff; Fp::ENCODED_LENGTH]; } undefs(&mut e); done(Fp::decode(&e)); }
    "fp decode_reduce" => |i| { let mut e = [0u8; 400]; i.r.fill_bytes(&mut e); if i.class == 5 { e = [0xff; 400]; } undefs(&mut e); done(Fp::decode_reduce(&e)); }
    "fp from integers" => |i| { let mut n = i.r.next_u64(); if i.class == 1 { n = 0; } undef(&mut n); done((Fp::from_i32(n as i32), Fp::from_u32(n as u32), Fp::from_i64(n as i64), Fp::from_u64(n))); }
    "fp sum_of_products" => |i| { let (a, b, c, d) = (i.f(), i.f(), i.f(), i.f()); done(Fp::sum_of_products(&a, &b, &c, &d)); }
    "fp difference_of_products" => |i| { let (a, b, c, d) = (i.f(), i.f(), i.f(), i.f()); done(Fp::difference_of_products(&a, &b, &c, &d)); }
    "fp2 add" => |i| { let (a, b) = (i.q(), i.q()); done(a + b); }
    "fp2 sub" => |i| { let (a, b) = (i.q(), i.q()); done(a - b); }
    "fp2 neg conj" => |i| { let a = i.q(); done((-a, a.conj())); }
    "fp2 mul" => |i| { let (a, b) = (i.q(), i.q()); done((a * b, a.mul_new(b), a.mul_old(b))); }
    "fp2 square" => |i| { let a = i.q(); done(a.square()); }
    "fp2 small multiples" => |i| { let a = i.q(); done((a.half(), a.mul2(), a.mul3(), a.mul4(), a.mul8())); }
    "fp2 mul_small" => |i| { let a = i.q(); let mut k = i.r.next_u32() as i32; undef(&mut k); done(a.mul_small(k)); }
    "fp2 div" => |i| { let (a, b) = (i.q(), i.q()); done(a / b); }
    "fp2 invert" => |i| { let a = i.q(); done(a.invert()); }
    "fp2 sqrt" => |i| { let a = i.q(); done(a.sqrt()); }
    "fp2 fourth_root" => |i| { let a = i.q(); done(a.fourth_root()); }
    "fp2 legendre" => |i| { let a = i.q(); done(a.legendre()); }
    "fp2 pow" => |i| { let a = i.q(); let mut e = [0u8; 12]; i.r.fill_bytes(&mut e); undefs(&mut e); done(a.pow(&e, 90)); }
    "fp2 pow_ext" => |i| { let a = i.q(); let mut e = [0u8; 12]; i.r.fill_bytes(&mut e); undefs(&mut e); done(a.pow_ext(&e, 11, 50)); }
    "fp2 pow_u64" => |i| { let a = i.q(); let n = [0usize, 1, 2, 33, 64][i.r.next_u32() as usize % 5]; let mut e = if n == 0 { 0 } else { i.r.next_u64() >> (64 - n) }; undef(&mut e); done(a.pow_u64(e, n)); }
    "fp2 pow public exponent" => |i| { let a = i.q(); let e = i.r.next_u64(); done((a.pow_u64_vartime(e), a.pow_small(e as u32))); }
    "fp2 iszero" => |i| { let a = i.q(); done(a.iszero()); }
    "fp2 equals" => |i| { let mut a = i.plain2(); let mut b = if i.r.next_u32() & 1 == 0 { a } else { i.plain2() }; undef(&mut a); undef(&mut b); done(a.equals(&b)); }
    "fp2 select" => |i| { let (a, b, m) = (i.q(), i.q(), i.mask()); done(Fp2::select(&a, &b, m)); }
    "fp2 set_cond" => |i| { let (mut a, b, m) = (i.q(), i.q(), i.mask()); a.set_cond(&b, m); done(a); }
    "fp2 set_condneg" => |i| { let (mut a, m) = (i.q(), i.mask()); a.set_condneg(m); done(a); }
    "fp2 condswap" => |i| { let (mut a, mut b, m) = (i.q(), i.q(), i.mask()); Fp2::condswap(&mut a, &mut b, m); done((a, b)); }
    "fp2 encode" => |i| { let a = i.q(); done(a.encode()); }
    "fp2 decode" => |i| { let mut e = i.plain2().encode(); if i.class == 5 { e = [0xff; Fp2::ENCODED_LENGTH]; } undefs(&mut e); done(Fp2::decode(&e)); }
    "fp2 batch_invert" => |i| { let mut v: Vec<Fp2> = (0..203).map(|_| i.q()).collect(); Fp2::batch_invert(&mut v); for x in v.iter_mut() { def(x); } black_box(&v); }
    "point add" => |i| { let E = i.curve(); let (P, Q) = (i.p(&E), i.p(&E)); done(E.add(&P, &Q)); }
    "point add equal or opposite" => |i| { let E = i.curve(); let mut P = i.plainp(&E); let mut Q = if i.r.next_u32() & 1 == 0 { P } else { -P }; undef(&mut P); undef(&mut Q); done(E.add(&P, &Q)); }
    "point sub" => |i| { let E = i.curve(); let (P, Q) = (i.p(&E), i.p(&E)); done(E.sub(&P, &Q)); }
    "point double" => |i| { let E = i.curve(); let P = i.p(&E); done((E.double(&P), E.double_iter(&P, 5))); }
    "point x_dbl_coords" => |i| { let E = i.curve(); let P = i.p(&E); let (x, z) = P.to_xz(); done(E.x_dbl_coords(&x, &z)); }
    "point mul short" => |i| { let E = i.curve(); let P = i.p(&E); let mut e = [0u8; 3]; i.r.fill_bytes(&mut e); undefs(&mut e); done(E.mul(&P, &e, 18)); }
    "point mul long" => |i| { let E = i.curve(); let P = i.p(&E); let mut e = [0u8; 9]; i.r.fill_bytes(&mut e); undefs(&mut e); done(E.mul(&P, &e, 70)); }
    "point mul edge scalars" => |i| { let E = i.curve(); let P = i.p(&E); let mut e = [0u8; 9]; e[0] = i.class as u8; undefs(&mut e); done(E.mul(&P, &e, 70)); }
    "point mul_small public scalar" => |i| { let E = i.curve(); let P = i.p(&E); for n in [0u64, 1, 2, 3, 4, 77, 5000, 1 << 30] { done(E.mul_small(&P, n)); } }
    "point set_cond set_condneg" => |i| { let E = i.curve(); let (mut P, Q, m, k) = (i.p(&E), i.p(&E), i.mask(), i.mask()); P.set_cond(&Q, m); P.set_condneg(k); done(P); }
    "point equals isinfinity" => |i| { let E = i.curve(); let mut P = i.plainp(&E); let mut Q = if i.r.next_u32() & 1 == 0 { P } else { i.plainp(&E) }; undef(&mut P); undef(&mut Q); done((P.equals(&Q), P.isinfinity())); }
    "point to_xy" => |i| { let E = i.curve(); let P = i.p(&E); done(P.to_xy()); }
    "point set_xy set_xyz" => |i| { let E = i.curve(); let P = i.p(&E); let (x, y, z) = P.to_xyz(); let (mut R, mut S) = (Point::INFINITY, Point::INFINITY); let a = E.set_xyz(&mut R, &x, &y, &z); let b = E.set_xy(&mut S, &x, &y); done((R, S, a, b)); }
    "point complete_pointX" => |i| { let E = i.curve(); let (x, z) = (i.q(), i.q()); done(E.complete_pointX(&PointX::new_xz(&x, &z))); }
    "curve with secret coefficient" => |i| { let mut E = i.curve(); let (P, Q) = (i.p(&E), i.p(&E)); let mut e = [0u8; 2]; i.r.fill_bytes(&mut e); undefs(&mut e); undef(&mut E); done((E.get_constant(), E.j_invariant(), E.add(&P, &Q), E.double(&P), E.mul(&P, &e, 16))); }
    "product add double" => |i| { let E = i.curve(); let EE = EllipticProduct::new(&E, &E); let (a, b) = (CouplePoint::new(&i.p(&E), &i.p(&E)), CouplePoint::new(&i.p(&E), &i.p(&E))); done((EE.add(&a, &b), EE.double(&a), EE.double_iter(&a, 3))); }
};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in OPS { println!("{n}"); }
        return;
    }
    // operation, seed, runs per class, bit mask of classes
    let (k, seed, runs, classes): (usize, u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    assert!(on_valgrind(), "not under valgrind");
    let (name, op) = OPS[k];
    let mut i = In { r: ChaCha8Rng::seed_from_u64(seed), class: 0 };
    let mut tot = 0;
    for class in 0..CLASSES.len() {
        if classes >> class & 1 == 0 { continue; }
        for n in 0..runs {
            i.class = class;
            let b = errors();
            op(black_box(&mut i));
            let e = errors() - b;
            if e > 0 && tot == 0 { println!("LEAK {name} / {} run {n}: {e} reports", CLASSES[class]); }
            tot += e;
        }
    }
    println!("DONE {name}: {} runs, {tot} reports", runs * classes.count_ones() as u64);
}
