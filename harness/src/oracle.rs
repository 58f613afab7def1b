//! Independent reference arithmetic used as the oracle: GF(p), GF(p^2), Montgomery curves, Weil pairing, Velu.
//! Nothing here calls the code under test.  GF(p) uses its own u128 Montgomery multiplication; `selftest`
//! checks it against num-bigint at every start-up.
#![allow(non_snake_case)]
use num_bigint::{BigInt, BigUint, Sign};
use rand_core::RngCore;
use std::sync::OnceLock;

pub const N: usize = 21;
/// The FESTA-128 prime, from precompute/precompute.sage.
pub const P_HEX: &str = "176c11cf13e54b11406fcec87bd4c1480f2bf6b3cf47c54370febd1c756e54f72c1501712922baf5993402979d50dd13d09a841fed4773cfdb168f19a73e323f656921d7dcd797059b7b9ac3245c4d7be6b343ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff";

pub struct Consts {
    pub p: BigUint,
    pub pl: [u64; N],
    pub n0: u64,
    pub r: BigUint, // 2^1344 mod p
    pub one: [u64; N],
    pub r2: [u64; N],
    pub rinv: BigUint,
}

pub fn big_to_limbs(x: &BigUint) -> [u64; N] {
    let mut o = [0u64; N];
    for (i, d) in x.to_u64_digits().iter().enumerate() {
        o[i] = *d;
    }
    o
}
pub fn limbs_to_big(x: &[u64]) -> BigUint {
    let mut b = Vec::new();
    for w in x {
        b.extend_from_slice(&w.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
pub fn c() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = BigUint::parse_bytes(P_HEX.as_bytes(), 16).unwrap();
        let pl = big_to_limbs(&p);
        let mut inv: u64 = 1;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(pl[0].wrapping_mul(inv)));
        }
        let r = (BigUint::from(1u32) << (64 * N)) % &p;
        let r2 = (&r * &r) % &p;
        let rinv = big_inv(&r, &p).unwrap();
        Consts { n0: inv.wrapping_neg(), one: big_to_limbs(&r), r2: big_to_limbs(&r2), r, rinv, pl, p }
    })
}
pub fn p() -> &'static BigUint {
    &c().p
}

/// a^-1 mod m by the classical extended Euclid on BigInt.
pub fn big_inv(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    let (mut r0, mut r1) = (BigInt::from(m.clone()), BigInt::from(a % m));
    let (mut t0, mut t1) = (BigInt::from(0), BigInt::from(1));
    let zero = BigInt::from(0);
    while r1 != zero {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r2);
        let t2 = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t2);
    }
    if r0 != BigInt::from(1) {
        return None;
    }
    let mm = BigInt::from(m.clone());
    let mut t = t0 % &mm;
    if t.sign() == Sign::Minus {
        t += &mm;
    }
    t.to_biguint()
}
pub fn gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    let z = BigUint::from(0u32);
    while b != z {
        let t = &a % &b;
        a = std::mem::replace(&mut b, t);
    }
    a
}
pub fn bu(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn prod_factored(f: &[(u32, u32)]) -> BigUint {
    f.iter().fold(bu(1), |m, (l, e)| m * BigUint::from(*l).pow(*e))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct F(pub [u64; N]); // Montgomery form, fully reduced

fn geq(a: &[u64; N], b: &[u64; N]) -> bool {
    for i in (0..N).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_in(a: &mut [u64; N], b: &[u64; N]) -> bool {
    let mut br = false;
    for i in 0..N {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        a[i] = x;
        br = b1 | b2;
    }
    br
}
fn add_in(a: &mut [u64; N], b: &[u64; N]) {
    let mut cy = false;
    for i in 0..N {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(cy as u64);
        a[i] = x;
        cy = c1 | c2;
    }
}

impl F {
    pub fn zero() -> F {
        F([0; N])
    }
    pub fn one() -> F {
        F(c().one)
    }
    pub fn u(x: u64) -> F {
        F::from_big(&BigUint::from(x))
    }
    pub fn i(x: i64) -> F {
        if x < 0 {
            F::u(x.unsigned_abs()).neg()
        } else {
            F::u(x as u64)
        }
    }
    pub fn from_big(x: &BigUint) -> F {
        let v = x % p();
        F(big_to_limbs(&v)).mul(&F(c().r2))
    }
    pub fn to_big(&self) -> BigUint {
        let mut one = [0u64; N];
        one[0] = 1;
        limbs_to_big(&self.mul(&F(one)).0)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; N]
    }
    pub fn add(&self, o: &F) -> F {
        let mut r = self.0;
        add_in(&mut r, &o.0);
        if geq(&r, &c().pl) {
            sub_in(&mut r, &c().pl);
        }
        F(r)
    }
    pub fn sub(&self, o: &F) -> F {
        let mut r = self.0;
        if sub_in(&mut r, &o.0) {
            add_in(&mut r, &c().pl);
        }
        F(r)
    }
    pub fn neg(&self) -> F {
        F::zero().sub(self)
    }
    pub fn mul(&self, o: &F) -> F {
        let k = c();
        let (a, b, pl) = (&self.0, &o.0, &k.pl);
        let mut t = [0u64; N + 1];
        for i in 0..N {
            let mut cy = 0u64;
            for j in 0..N {
                let v = (a[j] as u128) * (b[i] as u128) + t[j] as u128 + cy as u128;
                t[j] = v as u64;
                cy = (v >> 64) as u64;
            }
            let v = t[N] as u128 + cy as u128;
            t[N] = v as u64;
            let top = (v >> 64) as u64;
            let m = t[0].wrapping_mul(k.n0);
            let mut cy = (((m as u128) * (pl[0] as u128) + t[0] as u128) >> 64) as u64;
            for j in 1..N {
                let v = (m as u128) * (pl[j] as u128) + t[j] as u128 + cy as u128;
                t[j - 1] = v as u64;
                cy = (v >> 64) as u64;
            }
            let v = t[N] as u128 + cy as u128;
            t[N - 1] = v as u64;
            t[N] = top + (v >> 64) as u64;
        }
        let mut r = [0u64; N];
        r.copy_from_slice(&t[..N]);
        if t[N] != 0 || geq(&r, &k.pl) {
            sub_in(&mut r, &k.pl);
        }
        F(r)
    }
    pub fn sq(&self) -> F {
        self.mul(self)
    }
    pub fn pow(&self, e: &BigUint) -> F {
        let mut r = F::one();
        for i in (0..e.bits()).rev() {
            r = r.sq();
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    /// Inverse; 0 -> 0.
    pub fn inv(&self) -> F {
        if self.is_zero() {
            return *self;
        }
        // (aR)^-1 -> a^-1 R : multiply by R^3 = via two Montgomery mults by R2
        let i = big_inv(&limbs_to_big(&self.0), p()).unwrap();
        F(big_to_limbs(&i)).mul(&F(c().r2)).mul(&F(c().r2))
    }
    pub fn legendre(&self) -> i32 {
        if self.is_zero() {
            return 0;
        }
        let e = (p() - 1u32) >> 1;
        if self.pow(&e) == F::one() {
            1
        } else {
            -1
        }
    }
    /// Any square root, or None.
    pub fn sqrt(&self) -> Option<F> {
        let e = (p() + 1u32) >> 2;
        let r = self.pow(&e);
        if r.sq() == *self {
            Some(r)
        } else {
            None
        }
    }
    pub fn rand<R: RngCore>(rng: &mut R) -> F {
        let mut b = [0u8; 176];
        rng.fill_bytes(&mut b);
        F::from_big(&BigUint::from_bytes_le(&b))
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = self.to_big().to_bytes_le();
        v.resize(162, 0);
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct F2(pub F, pub F);
impl F2 {
    pub fn zero() -> F2 {
        F2(F::zero(), F::zero())
    }
    pub fn one() -> F2 {
        F2(F::one(), F::zero())
    }
    pub fn i() -> F2 {
        F2(F::zero(), F::one())
    }
    pub fn u(x: u64) -> F2 {
        F2(F::u(x), F::zero())
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
    pub fn add(&self, o: &F2) -> F2 {
        F2(self.0.add(&o.0), self.1.add(&o.1))
    }
    pub fn sub(&self, o: &F2) -> F2 {
        F2(self.0.sub(&o.0), self.1.sub(&o.1))
    }
    pub fn neg(&self) -> F2 {
        F2(self.0.neg(), self.1.neg())
    }
    pub fn conj(&self) -> F2 {
        F2(self.0, self.1.neg())
    }
    pub fn mul(&self, o: &F2) -> F2 {
        F2(
            self.0.mul(&o.0).sub(&self.1.mul(&o.1)),
            self.0.mul(&o.1).add(&self.1.mul(&o.0)),
        )
    }
    pub fn sq(&self) -> F2 {
        self.mul(self)
    }
    pub fn dbl(&self) -> F2 {
        self.add(self)
    }
    pub fn norm(&self) -> F {
        self.0.sq().add(&self.1.sq())
    }
    pub fn inv(&self) -> F2 {
        let n = self.norm().inv();
        F2(self.0.mul(&n), self.1.neg().mul(&n))
    }
    pub fn div(&self, o: &F2) -> F2 {
        self.mul(&o.inv())
    }
    pub fn pow(&self, e: &BigUint) -> F2 {
        let mut r = F2::one();
        for i in (0..e.bits()).rev() {
            r = r.sq();
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn legendre(&self) -> i32 {
        // x is a square in GF(p^2) iff its norm is a square in GF(p)
        self.norm().legendre()
    }
    /// Any square root, or None.
    pub fn sqrt(&self) -> Option<F2> {
        if self.is_zero() {
            return Some(*self);
        }
        if self.1.is_zero() {
            // real: either sqrt(a) or i*sqrt(-a)
            if let Some(r) = self.0.sqrt() {
                return Some(F2(r, F::zero()));
            }
            return self.0.neg().sqrt().map(|r| F2(F::zero(), r));
        }
        let s = self.norm().sqrt()?;
        let half = F::u(2).inv();
        for t in [s, s.neg()] {
            let z = self.0.add(&t).mul(&half);
            if let Some(x) = z.sqrt() {
                if !x.is_zero() {
                    let y = self.1.mul(&x.add(&x).inv());
                    let r = F2(x, y);
                    if r.sq() == *self {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
    pub fn rand<R: RngCore>(rng: &mut R) -> F2 {
        F2(F::rand(rng), F::rand(rng))
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = self.0.enc();
        v.extend(self.1.enc());
        v
    }
}

/// Affine point; None = infinity.
pub type Pt = Option<(F2, F2)>;

/// y^2 = x^3 + A x^2 + x
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cv {
    pub a: F2,
}

/// Jacobian (X/Z^2, Y/Z^3); Z = 0 is infinity.
#[derive(Clone, Copy)]
pub struct Jac(F2, F2, F2);

impl Cv {
    pub fn rhs(&self, x: &F2) -> F2 {
        x.mul(&x.sq().add(&self.a.mul(x)).add(&F2::one()))
    }
    pub fn on(&self, q: &Pt) -> bool {
        match q {
            None => true,
            Some((x, y)) => y.sq() == self.rhs(x),
        }
    }
    pub fn j(&self) -> F2 {
        let a2 = self.a.sq();
        let n = a2.sub(&F2::u(3));
        F2::u(256).mul(&n.sq().mul(&n)).div(&a2.sub(&F2::u(4)))
    }
    pub fn neg(q: &Pt) -> Pt {
        q.map(|(x, y)| (x, y.neg()))
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let (x1, y1) = match p {
            None => return *q,
            Some(v) => *v,
        };
        let (x2, y2) = match q {
            None => return *p,
            Some(v) => *v,
        };
        let l = if x1 == x2 {
            if y1 == y2.neg() {
                return None;
            }
            let n = x1.sq().mul(&F2::u(3)).add(&self.a.mul(&x1).dbl()).add(&F2::one());
            n.div(&y1.dbl())
        } else {
            y2.sub(&y1).div(&x2.sub(&x1))
        };
        let x3 = l.sq().sub(&self.a).sub(&x1).sub(&x2);
        Some((x3, l.mul(&x1.sub(&x3)).sub(&y1)))
    }
    fn jdbl(&self, p: &Jac) -> Jac {
        let Jac(x, y, z) = p;
        if z.is_zero() || y.is_zero() {
            return Jac(F2::one(), F2::one(), F2::zero());
        }
        let z2 = z.sq();
        let y2 = y.sq();
        let m = x.sq().mul(&F2::u(3)).add(&self.a.mul(&x.mul(&z2)).dbl()).add(&z2.sq());
        let s = x.mul(&y2).dbl().dbl();
        let z3 = y.mul(z).dbl();
        let x3 = m.sq().sub(&self.a.mul(&z3.sq())).sub(&s.dbl());
        let y4 = y2.sq();
        let y3 = m.mul(&s.sub(&x3)).sub(&y4.dbl().dbl().dbl());
        Jac(x3, y3, z3)
    }
    fn jadd_aff(&self, p: &Jac, q: &(F2, F2)) -> Jac {
        let Jac(x1, y1, z1) = p;
        if z1.is_zero() {
            return Jac(q.0, q.1, F2::one());
        }
        let zz = z1.sq();
        let u2 = q.0.mul(&zz);
        let s2 = q.1.mul(&zz.mul(z1));
        let h = u2.sub(x1);
        let r = s2.sub(y1);
        if h.is_zero() {
            if r.is_zero() {
                return self.jdbl(p);
            }
            return Jac(F2::one(), F2::one(), F2::zero());
        }
        let hh = h.sq();
        let hhh = hh.mul(&h);
        let v = x1.mul(&hh);
        let z3 = z1.mul(&h);
        let x3 = r.sq().sub(&hhh).sub(&v.dbl()).sub(&self.a.mul(&z3.sq()));
        let y3 = r.mul(&v.sub(&x3)).sub(&y1.mul(&hhh));
        Jac(x3, y3, z3)
    }
    fn jaff(p: &Jac) -> Pt {
        if p.2.is_zero() {
            return None;
        }
        let zi = p.2.inv();
        let zi2 = zi.sq();
        Some((p.0.mul(&zi2), p.1.mul(&zi2).mul(&zi)))
    }
    pub fn mul(&self, p: &Pt, n: &BigUint) -> Pt {
        let q = match p {
            None => return None,
            Some(v) => *v,
        };
        let mut r = Jac(F2::one(), F2::one(), F2::zero());
        for i in (0..n.bits()).rev() {
            r = self.jdbl(&r);
            if n.bit(i) {
                r = self.jadd_aff(&r, &q);
            }
        }
        Self::jaff(&r)
    }
    pub fn mulu(&self, p: &Pt, n: u64) -> Pt {
        self.mul(p, &bu(n))
    }
    pub fn rand_point<R: RngCore>(&self, rng: &mut R) -> Pt {
        loop {
            let x = F2::rand(rng);
            if let Some(y) = self.rhs(&x).sqrt() {
                let y = if rng.next_u32() & 1 == 1 { y.neg() } else { y };
                return Some((x, y));
            }
        }
    }
    /// A random point of exact order D (with factorisation f), D | p+1; the curve must have E(Fp2) = (Z/(p+1))^2.
    pub fn rand_order<R: RngCore>(&self, rng: &mut R, f: &[(u32, u32)]) -> Pt {
        let d = prod_factored(f);
        let cof = (p() + 1u32) / &d;
        loop {
            let q = self.mul(&self.rand_point(rng), &cof);
            if self.has_order(&q, f) {
                return q;
            }
        }
    }
    /// exact order test
    pub fn has_order(&self, q: &Pt, f: &[(u32, u32)]) -> bool {
        let d = prod_factored(f);
        if self.mul(q, &d).is_some() {
            return false;
        }
        f.iter().all(|(l, _)| self.mul(q, &(&d / *l)).is_some())
    }
    /// Weil pairing e_n(P,Q) with the usual definition f_P(Q+S)/f_P(S) * f_Q(-S)/f_Q(P-S), S random.
    pub fn weil<R: RngCore>(&self, rng: &mut R, pp: &Pt, qq: &Pt, n: &BigUint) -> F2 {
        if pp.is_none() || qq.is_none() || pp == qq || *pp == Self::neg(qq) {
            return F2::one();
        }
        for _ in 0..50 {
            let s = self.rand_point(rng);
            let (qs, ps) = (self.add(qq, &s), self.add(pp, &Self::neg(&s)));
            let ms = Self::neg(&s);
            let a = self.miller2(pp, &qs, &s, n);
            let b = self.miller2(qq, &ps, &ms, n);
            if let (Some(a), Some(b)) = (a, b) {
                return a.div(&b);
            }
        }
        panic!("oracle: weil pairing did not find a good auxiliary point");
    }
    /// f_{n,P}(X)/f_{n,P}(Y), None on a degenerate line value.
    fn miller2(&self, pp: &Pt, x: &Pt, y: &Pt, n: &BigUint) -> Option<F2> {
        let (x, y) = ((*x)?, (*y)?);
        let p0 = (*pp)?;
        let mut num = F2::one();
        let mut den = F2::one();
        let mut v: Pt = Some(p0);
        let line = |a: &Pt, b: &Pt, t: &(F2, F2)| -> F2 {
            // line through a and b at t (vertical when a = -b); 1 when either is infinity handled by the caller
            match (a, b) {
                (Some((x1, y1)), Some((x2, y2))) => {
                    if x1 == x2 && *y1 == y2.neg() {
                        return t.0.sub(x1);
                    }
                    unreachable!("vertical only")
                }
                (Some((x1, _)), None) | (None, Some((x1, _))) => t.0.sub(x1),
                _ => F2::one(),
            }
        };
        let step = |a: &Pt, b: &Pt, num: &mut F2, den: &mut F2| -> Pt {
            match (a, b) {
                (Some((x1, y1)), Some((x2, y2))) if !(x1 == x2 && *y1 == y2.neg()) => {
                    let l = if x1 == x2 {
                        x1.sq().mul(&F2::u(3)).add(&self.a.mul(x1).dbl()).add(&F2::one()).div(&y1.dbl())
                    } else {
                        y2.sub(y1).div(&x2.sub(x1))
                    };
                    let x3 = l.sq().sub(&self.a).sub(x1).sub(x2);
                    let y3 = l.mul(&x1.sub(&x3)).sub(y1);
                    let f = |t: &(F2, F2)| t.1.sub(y1).sub(&l.mul(&t.0.sub(x1)));
                    *num = num.mul(&f(&x)).mul(&y.0.sub(&x3));
                    *den = den.mul(&f(&y)).mul(&x.0.sub(&x3));
                    Some((x3, y3))
                }
                (None, _) | (_, None) => {
                    // adding infinity: function is constant
                    if a.is_none() {
                        *b
                    } else {
                        *a
                    }
                }
                _ => {
                    *num = num.mul(&line(a, b, &x));
                    *den = den.mul(&line(a, b, &y));
                    None
                }
            }
        };
        for i in (0..n.bits() - 1).rev() {
            num = num.sq();
            den = den.sq();
            v = step(&v.clone(), &v.clone(), &mut num, &mut den);
            if n.bit(i) {
                v = step(&v.clone(), &Some(p0), &mut num, &mut den);
            }
        }
        if v.is_some() || num.is_zero() || den.is_zero() {
            return None;
        }
        Some(num.div(&den))
    }
    /// Velu-type odd prime degree isogeny with kernel <k>, normalised to Montgomery form with the x-map
    /// x * prod_{T in <k>\0} (x x_T - 1)/(x - x_T).  Returns (codomain, xs of half the kernel).
    pub fn velu(&self, k: &Pt, l: u64) -> (Cv, Vec<F2>) {
        // x-coordinates of [1]K .. [(l-1)/2]K, by projective differential additions
        let h = ((l - 1) / 2) as usize;
        let x1 = k.expect("oracle: velu: kernel is infinity").0;
        let mut ps: Vec<(F2, F2)> = vec![(x1, F2::one())];
        if h >= 2 {
            let d = self.add(k, k).expect("oracle: velu: kernel of order 2");
            ps.push((d.0, F2::one()));
        }
        while ps.len() < h {
            let n = ps.len();
            let ((xp, zp), (xm, zm)) = (ps[n - 1], ps[n - 2]);
            // x(T+K) with T = [n]K, difference [n-1]K, K = (x1 : 1)
            let u = xp.sub(&zp).mul(&x1.add(&F2::one()));
            let v = xp.add(&zp).mul(&x1.sub(&F2::one()));
            ps.push((zm.mul(&u.add(&v).sq()), xm.mul(&u.sub(&v).sq())));
        }
        ps.truncate(h);
        // one inversion for all 1/X and 1/Z
        let mut acc = vec![F2::one()];
        for (x, z) in &ps {
            let t = acc.last().unwrap().mul(&x.mul(z));
            acc.push(t);
        }
        let mut inv = acc.last().unwrap().inv();
        if inv.is_zero() {
            panic!("oracle: velu: degenerate kernel point");
        }
        let mut xs = vec![F2::zero(); h];
        let mut xi = vec![F2::zero(); h];
        for i in (0..h).rev() {
            let t = inv.mul(&acc[i]); // 1/(x z)
            xs[i] = t.mul(&ps[i].0.sq());
            xi[i] = t.mul(&ps[i].1.sq());
            inv = inv.mul(&ps[i].0.mul(&ps[i].1));
        }
        let mut prod = F2::one();
        let (mut s, mut si) = (F2::zero(), F2::zero());
        for (x, y) in xs.iter().zip(&xi) {
            prod = prod.mul(x);
            s = s.add(x);
            si = si.add(y);
        }
        // A' = (A - 3 * sum_{T in K\0} (x_T - 1/x_T)) * prod_{T in K\0} x_T  (sum & product over the full kernel)
        let sum = s.sub(&si).mul(&F2::u(6));
        let a = self.a.sub(&sum).mul(&prod.sq());
        (Cv { a }, xs)
    }
    pub fn velu_x(xs: &[F2], x: &F2) -> Option<F2> {
        let (mut n, mut d) = (F2::one(), F2::one());
        for t in xs {
            n = n.mul(&x.mul(t).sub(&F2::one()));
            d = d.mul(&x.sub(t));
        }
        if d.is_zero() {
            return None;
        }
        let r = n.div(&d);
        Some(x.mul(&r.sq()))
    }
    /// Full affine Velu map, y included: (x, y) -> (phi(x), c * y * phi'(x)) with c chosen so that the image is
    /// on the codomain of `velu`: y' = y * phi'(x) / (leading scale) ; sign convention: phi normalised so that
    /// phi'(x) has coefficient prod x_T.
    pub fn velu_xy(xs: &[F2], pt: &(F2, F2)) -> Pt {
        let x = pt.0;
        if x.is_zero() {
            return Some((F2::zero(), F2::zero()));
        }
        let one = F2::one();
        // n = prod (x t - 1), d = prod (x - t); num/(n d) = sum( t/(x t - 1) - 1/(x - t) )
        let (mut n, mut d) = (one, one);
        let mut num = F2::zero();
        let mut pi = one;
        for t in xs {
            let a = x.mul(t).sub(&one);
            let b = x.sub(t);
            num = num.mul(&a.mul(&b)).add(&n.mul(&d).mul(&one.sub(&t.sq())));
            n = n.mul(&a);
            d = d.mul(&b);
            pi = pi.mul(t);
        }
        if d.is_zero() {
            return None;
        }
        if n.is_zero() {
            return Some((F2::zero(), F2::zero()));
        }
        // f = x (n/d)^2, f' = f (1/x + 2 num/(n d)) = (n d + 2 x num) n / d^3
        let di = d.inv();
        let di2 = di.sq();
        let f = x.mul(&n.sq()).mul(&di2);
        let fp = n.mul(&d).add(&x.mul(&num).dbl()).mul(&n).mul(&di2).mul(&di);
        Some((f, pt.1.mul(&fp).mul(&pi)))
    }
    /// exact 2-dim logs etc. are done elsewhere
    pub fn pt_key(q: &Pt) -> Vec<u8> {
        match q {
            None => vec![0],
            Some((x, y)) => {
                let mut v = x.enc();
                v.extend(y.enc());
                v
            }
        }
    }
}

pub fn rand_below<R: RngCore>(rng: &mut R, m: &BigUint) -> BigUint {
    let nb = (m.bits() as usize + 7) / 8 + 16;
    let mut b = vec![0u8; nb];
    rng.fill_bytes(&mut b);
    BigUint::from_bytes_le(&b) % m
}

/// Oracle self-check: its Montgomery arithmetic against num-bigint, and curve laws on random points.
pub fn selftest<R: RngCore>(rng: &mut R) -> Result<u64, String> {
    let mut n = 0;
    let pp = p().clone();
    for i in 0..40 {
        let a = if i < 4 { &pp - (i as u32 + 1) } else { rand_below(rng, &pp) };
        let b = if i % 5 == 0 { &pp - 1u32 } else { rand_below(rng, &pp) };
        let (fa, fb) = (F::from_big(&a), F::from_big(&b));
        if fa.to_big() != a || fa.mul(&fb).to_big() != (&a * &b) % &pp || fa.add(&fb).to_big() != (&a + &b) % &pp
            || fa.sub(&fb).to_big() != (&a + &pp - &b) % &pp
        {
            return Err("oracle field arithmetic disagrees with num-bigint".into());
        }
        if !fa.is_zero() && fa.mul(&fa.inv()) != F::one() {
            return Err("oracle inverse".into());
        }
        n += 1;
    }
    let e = Cv { a: F2::u(6) };
    let (a, b, d) = (e.rand_point(rng), e.rand_point(rng), e.rand_point(rng));
    if e.add(&e.add(&a, &b), &d) != e.add(&a, &e.add(&b, &d)) || !e.on(&e.add(&a, &b)) {
        return Err("oracle group law".into());
    }
    if e.mul(&a, &(p() + 1u32)).is_some() || e.mulu(&a, 5) != e.add(&a, &e.add(&e.add(&a, &a), &e.add(&a, &a))) {
        return Err("oracle scalar multiplication".into());
    }
    Ok(n)
}
