//! Field-level properties: GF(p) and GF(p^2) against the oracle.
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::rt::*;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use num_bigint::BigUint;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;

fn eqf(what: &str, got: Fp, want: &F, ins: &[&F]) -> Res {
    // reject also non-canonical internal values, through equality and the zero test
    let g = f(&got);
    if g != *want {
        return Err(format!("{}: inputs {:?}: got {} want {}", what, ins.iter().map(|x| show(x)).collect::<Vec<_>>(), show(&g), show(want)));
    }
    if got.equals(&fp(want)) != u32::MAX {
        return Err(format!("{}: result encodes as the expected value but does not compare equal to it; inputs {:?}", what, ins.iter().map(|x| show(x)).collect::<Vec<_>>()));
    }
    if (got.iszero() == u32::MAX) != want.is_zero() || (got.iszero() != 0 && got.iszero() != u32::MAX) {
        return Err(format!("{}: zero test of the result is wrong; inputs {:?}", what, ins.iter().map(|x| show(x)).collect::<Vec<_>>()));
    }
    Ok(())
}
fn eqf2(what: &str, got: Fp2, want: &F2, ins: &[&F2]) -> Res {
    let g = f2(&got);
    if g != *want || got.equals(&fq(want)) != u32::MAX || (got.iszero() == u32::MAX) != want.is_zero() {
        return Err(format!("{}: inputs {:?}: got {} want {}", what, ins.iter().map(|x| show2(x)).collect::<Vec<_>>(), show2(&g), show2(want)));
    }
    Ok(())
}

fn small_i32(rng: &mut ChaCha8Rng) -> i32 {
    match below(rng, 10) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i32::MIN,
        4 => i32::MAX,
        5 => i32::MIN + 1,
        6 => 1 << below(rng, 31),
        7 => -(1 << below(rng, 31)),
        8 => below(rng, 100) as i32 - 50,
        _ => rng.next_u32() as i32,
    }
}

/// One pair with a chosen relation, so that results fall on boundary values too.
fn pair(rng: &mut ChaCha8Rng) -> (F, F, String) {
    let (a, n1) = edge_f(rng);
    match below(rng, 9) {
        0 => {
            let (t, n) = edge_f(rng);
            (a, t.sub(&a), format!("sum={n}"))
        }
        1 => {
            let (t, n) = edge_f(rng);
            (a, a.sub(&t), format!("diff={n}"))
        }
        2 => {
            let (t, n) = edge_f(rng);
            if a.is_zero() {
                (a, t, "zero".into())
            } else {
                (a, t.mul(&a.inv()), format!("prod={n}"))
            }
        }
        3 => (a, a, format!("same-{n1}")),
        4 => (a, a.neg(), format!("opposite-{n1}")),
        _ => {
            let (b, n2) = edge_f(rng);
            (a, b, format!("{n1}/{n2}"))
        }
    }
}

pub fn p05(ctx: &Ctx) {
    ctx.cases("ring", ctx.n(400, 4000), |c| {
        for _ in 0..150 {
            let (a, b, name) = pair(&mut c.rng);
            let (x, y) = (fp(&a), fp(&b));
            let sum = a.add(&b);
            let dif = a.sub(&b);
            let pro = a.mul(&b);
            match below(&mut c.rng, 4) {
                0 => {
                    eqf("a+b", x + y, &sum, &[&a, &b])?;
                    eqf("a-b", x - y, &dif, &[&a, &b])?;
                    eqf("a*b", x * y, &pro, &[&a, &b])?;
                    eqf("-a", -x, &a.neg(), &[&a])?;
                }
                1 => {
                    eqf("a+&b", x + &y, &sum, &[&a, &b])?;
                    eqf("a-&b", x - &y, &dif, &[&a, &b])?;
                    eqf("a*&b", x * &y, &pro, &[&a, &b])?;
                    eqf("-&a", -&x, &a.neg(), &[&a])?;
                }
                2 => {
                    eqf("&a+b", &x + y, &sum, &[&a, &b])?;
                    eqf("&a-b", &x - y, &dif, &[&a, &b])?;
                    eqf("&a*b", &x * y, &pro, &[&a, &b])?;
                    eqf("&a+&b", &x + &y, &sum, &[&a, &b])?;
                    eqf("&a-&b", &x - &y, &dif, &[&a, &b])?;
                    eqf("&a*&b", &x * &y, &pro, &[&a, &b])?;
                }
                _ => {
                    let mut t = x;
                    t += y;
                    eqf("a+=b", t, &sum, &[&a, &b])?;
                    t -= y;
                    eqf("a+=b,-=b", t, &a, &[&a, &b])?;
                    t *= y;
                    eqf("a*=b", t, &pro, &[&a, &b])?;
                    let mut t = x;
                    t += &y;
                    eqf("a+=&b", t, &sum, &[&a, &b])?;
                    let mut t = x;
                    t -= &y;
                    eqf("a-=&b", t, &dif, &[&a, &b])?;
                    t = x;
                    t *= &y;
                    eqf("a*=&b", t, &pro, &[&a, &b])?;
                    t = x;
                    t.set_neg();
                    eqf("set_neg", t, &a.neg(), &[&a])?;
                }
            }
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("ring {}", name.split('/').next().unwrap()), &key);
            c.sample("ring", || format!("{name}: a={} b={}", show(&a), show(&b)));
            // unary
            eqf("square", x.square(), &a.sq(), &[&a])?;
            let mut t = x;
            t.set_square();
            eqf("set_square", t, &a.sq(), &[&a])?;
            let h = F::u(2).inv();
            eqf("half", x.half(), &a.mul(&h), &[&a])?;
            eqf("mul2", x.mul2(), &a.add(&a), &[&a])?;
            eqf("mul3", x.mul3(), &a.mul(&F::u(3)), &[&a])?;
            eqf("mul4", x.mul4(), &a.mul(&F::u(4)), &[&a])?;
            eqf("mul8", x.mul8(), &a.mul(&F::u(8)), &[&a])?;
            let k = small_i32(&mut c.rng);
            let w = a.mul(&F::i(k as i64));
            let g = x.mul_small(k);
            if f(&g) != w || g.equals(&fp(&w)) == 0 {
                return Err(format!("mul_small({k}) of {}: got {}", show(&a), show(&f(&g))));
            }
            // in-place forms
            let ip: [(&str, fn(&mut Fp), u64); 5] = [("set_half", Fp::set_half, 0), ("set_mul2", Fp::set_mul2, 2), ("set_mul3", Fp::set_mul3, 3), ("set_mul4", Fp::set_mul4, 4), ("set_mul8", Fp::set_mul8, 8)];
            for (n, g, w) in ip {
                let mut t = x;
                g(&mut t);
                eqf(n, t, &if w == 0 { a.mul(&h) } else { a.mul(&F::u(w)) }, &[&a])?;
            }
            let mut t = x;
            t.set_mul_small(k);
            eqf(&format!("set_mul_small({k})"), t, &a.mul(&F::i(k as i64)), &[&a])?;
            let mut t = x;
            t.set_neg();
            eqf("set_neg", t, &a.neg(), &[&a])?;
            c.obs("unary", &a.enc());
        }
        Ok(())
    });
    // mul_small around multiples of p: choose a so that a*k is just above/below a multiple of p in the working form
    ctx.cases("mul_small_boundary", ctx.n(200, 2000), |c| {
        for _ in 0..150 {
            let k = loop {
                let k = small_i32(&mut c.rng);
                if k != 0 {
                    break k;
                }
            };
            let ak = BigUint::from((k as i64).unsigned_abs());
            // want raw limbs m with m*|k| = q*p + d, d small or p-small
            let q = if ak == bu(1) { bu(0) } else { rand_below(&mut c.rng, &ak) };
            let mut m = (&q * p()) / &ak + bu(below(&mut c.rng, 3));
            if m >= *p() {
                m = p() - 1u32;
            }
            let a = F(big_to_limbs(&m));
            let w = a.mul(&F::i(k as i64));
            eqf(&format!("mul_small({k})"), fp(&a).mul_small(k), &w, &[&a])?;
            let mut key = a.enc();
            key.extend(k.to_le_bytes());
            c.obs("mul_small boundary", &key);
        }
        Ok(())
    });
    ctx.cases("sum_of_products", ctx.n(200, 2000), |c| {
        for _ in 0..150 {
            let mut v = Vec::new();
            for _ in 0..4 {
                v.push(edge_f(&mut c.rng).0);
            }
            let mode = below(&mut c.rng, 6);
            match mode {
                0 => v[2] = v[0].neg(),
                1 => v[3] = v[1],
                2 => {
                    for t in v.iter_mut() {
                        *t = F(big_to_limbs(&(p() - 1u32 - bu(below(&mut c.rng, 3)))));
                    }
                }
                3 if !v[3].is_zero() => {
                    // force the sum to a boundary value
                    let (t, _) = edge_f(&mut c.rng);
                    v[2] = t.sub(&v[0].mul(&v[1])).mul(&v[3].inv());
                }
                4 if !v[3].is_zero() => {
                    let (t, _) = edge_f(&mut c.rng);
                    v[2] = v[0].mul(&v[1]).sub(&t).mul(&v[3].inv());
                }
                _ => {}
            }
            let w: Vec<Fp> = v.iter().map(fp).collect();
            let s = v[0].mul(&v[1]).add(&v[2].mul(&v[3]));
            let d = v[0].mul(&v[1]).sub(&v[2].mul(&v[3]));
            eqf("sum_of_products", Fp::sum_of_products(&w[0], &w[1], &w[2], &w[3]), &s, &[&v[0], &v[1], &v[2], &v[3]])?;
            eqf("difference_of_products", Fp::difference_of_products(&w[0], &w[1], &w[2], &w[3]), &d, &[&v[0], &v[1], &v[2], &v[3]])?;
            let mut key = Vec::new();
            v.iter().for_each(|x| key.extend(x.enc()));
            c.obs(&format!("products mode {mode}"), &key);
        }
        Ok(())
    });
    ctx.cases("integers", ctx.n(40, 200), |c| {
        for _ in 0..100 {
            let i = small_i32(&mut c.rng);
            let l = match below(&mut c.rng, 6) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => -(1i64 << below(&mut c.rng, 63)),
                3 => 1i64 << below(&mut c.rng, 63),
                _ => c.rng.next_u64() as i64,
            };
            eqf(&format!("from_i32({i})"), Fp::from_i32(i), &F::i(i as i64), &[])?;
            eqf(&format!("from_u32({})", i as u32), Fp::from_u32(i as u32), &F::u(i as u32 as u64), &[])?;
            eqf(&format!("from_i64({l})"), Fp::from_i64(l), &F::i(l), &[])?;
            eqf(&format!("from_u64({})", l as u64), Fp::from_u64(l as u64), &F::u(l as u64), &[])?;
            c.obs("integers", &l.to_le_bytes());
        }
        for (n, g, w) in [("ZERO", Fp::ZERO, 0i64), ("ONE", Fp::ONE, 1), ("TWO", Fp::TWO, 2), ("THREE", Fp::THREE, 3), ("FOUR", Fp::FOUR, 4), ("MINUS_ONE", Fp::MINUS_ONE, -1)] {
            eqf(n, g, &F::i(w), &[])?;
        }
        Ok(())
    });
    ctx.cases("pow", ctx.n(40, 400), |c| {
        for _ in 0..6 {
            let (a, n) = edge_f(&mut c.rng);
            let e = gen_exp(&mut c.rng);
            let x = fp(&a);
            let w = a.pow(&e);
            eqf(&format!("pow_big({e})"), x.pow_big(&e), &w, &[&a])?;
            let mut eb = e.to_bytes_le();
            let nb = e.bits() as usize;
            eb.extend(rbytes(&mut c.rng, 3));
            // exact bit length: bits beyond it are ignored
            eqf("pow", x.pow(&eb, nb), &w, &[&a])?;
            let mut t = x;
            t.set_pow(&eb, nb);
            eqf("set_pow", t, &w, &[&a])?;
            // offset window
            let off = below(&mut c.rng, 20) as usize;
            let len = below(&mut c.rng, (nb as u64 + 12).min(200)) as usize;
            let off = off.min(eb.len() * 8 - len.min(eb.len() * 8));
            let len = len.min(eb.len() * 8 - off);
            let full = BigUint::from_bytes_le(&eb);
            let win = (&full >> off) & ((bu(1) << len) - 1u32);
            let mut t = x;
            t.set_pow_ext(&eb, off, len);
            eqf(&format!("set_pow_ext(off={off},len={len})"), t, &a.pow(&win), &[&a])?;
            eqf(&format!("pow_ext(off={off},len={len})"), x.pow_ext(&eb, off, len), &a.pow(&win), &[&a])?;
            let mut key = a.enc();
            key.extend(e.to_bytes_le());
            c.obs(&format!("pow {n}"), &key);
        }
        Ok(())
    });
}

/// An integer whose bit length is at, just below or just above a boundary an implementation could care about
/// (machine words, powers of two, the sizes of p, p^2 and their limb counts).
pub fn gen_len(rng: &mut ChaCha8Rng) -> BigUint {
    const B: [u64; 24] = [8, 16, 24, 32, 48, 64, 96, 128, 160, 192, 256, 384, 512, 634, 768, 1024, 1280, 1293, 1344, 1536, 2048, 2586, 3072, 4096];
    let k = B[below(rng, 24) as usize] + below(rng, 5) - 2;
    let mut n = BigUint::from_bytes_le(&rbytes(rng, (k / 8 + 1) as usize)) >> (8 - k % 8);
    match below(rng, 4) {
        0 => n = bu(0),
        1 => n = (bu(1) << k) - 1u32,
        _ => {}
    }
    n.set_bit(k - 1, true);
    n
}

pub fn gen_exp(rng: &mut ChaCha8Rng) -> BigUint {
    match below(rng, 10) {
        8 | 9 => gen_len(rng),
        0 => bu(below(rng, 4)),
        1 => bu(1) << below(rng, 700),
        2 => (bu(1) << below(rng, 700)) - 1u32,
        3 => p() - 1u32,
        4 => p() + 1u32,
        5 => bu(rng.next_u64()),
        6 => BigUint::from_bytes_le(&rbytes(rng, 170)),
        _ => rand_below(rng, p()),
    }
}

pub fn p06(ctx: &Ctx) {
    ctx.cases("division", ctx.n(400, 5000), |c| {
        for _ in 0..40 {
            let (a, b, name) = {
                let (b, n1) = edge_f(&mut c.rng);
                let (a, n2) = edge_f(&mut c.rng);
                match below(&mut c.rng, 4) {
                    0 => (a.mul(&b), b, format!("quotient={n2}")),
                    1 => (b, b, format!("same-{n1}")),
                    _ => (a, b, format!("by-{n1}")),
                }
            };
            let (x, y) = (fp(&a), fp(&b));
            let w = a.mul(&b.inv());
            let g = match below(&mut c.rng, 6) {
                0 => x / y,
                1 => x / &y,
                2 => &x / y,
                3 => &x / &y,
                4 => {
                    let mut t = x;
                    t /= y;
                    t
                }
                _ => {
                    let mut t = x;
                    t /= &y;
                    t
                }
            };
            eqf("a/b", g, &w, &[&a, &b])?;
            eqf("invert", y.invert(), &b.inv(), &[&b])?;
            let mut t = y;
            t.set_invert();
            eqf("set_invert", t, &b.inv(), &[&b])?;
            let mut key = a.enc();
            key.extend(b.enc());
            if b.is_zero() {
                c.obs("division by zero gives 0", &key);
            } else {
                c.obs(&format!("division {name}"), &key);
            }
        }
        Ok(())
    });
    ctx.cases("legendre", ctx.n(300, 4000), |c| {
        for _ in 0..20 {
            let (a, name) = edge_f(&mut c.rng);
            let mut v = a;
            match below(&mut c.rng, 3) {
                0 => v = a.sq(),
                1 => v = a.sq().neg(), // -1 is a non-residue
                _ => {}
            }
            let w = v.legendre();
            let g = fp(&v).legendre();
            ensure!(g == w, "legendre({}) = {} want {}", show(&v), g, w);
            c.obs(&format!("legendre {w} {name}"), &v.enc());
        }
        Ok(())
    });
    ctx.cases("roots", ctx.n(100, 1500), |c| {
        for _ in 0..12 {
            let (a, name) = edge_f(&mut c.rng);
            let v = match below(&mut c.rng, 3) {
                0 => a.sq(),
                1 => a.sq().sq(),
                _ => a,
            };
            let x = fp(&v);
            let (r, ok) = x.sqrt();
            let mut t = x;
            let ok2 = t.set_sqrt();
            match v.sqrt() {
                Some(_) => {
                    ensure!(ok == u32::MAX && ok2 == ok, "sqrt({}) reported failure on a square", show(&v));
                    let rr = f(&r);
                    ensure!(rr.sq() == v, "sqrt({}) = {} is not a root", show(&v), show(&rr));
                    ensure!(!rr.to_big().bit(0), "sqrt({}) = {} is not the even root", show(&v), show(&rr));
                    c.obs(&format!("sqrt square {name}"), &v.enc());
                }
                None => {
                    ensure!(ok == 0 && ok2 == 0, "sqrt({}) reported success on a non-square", show(&v));
                    ensure!(r.iszero() == u32::MAX, "sqrt({}) of a non-square is not zero", show(&v));
                    c.obs(&format!("sqrt nonsquare {name}"), &v.enc());
                }
            }
            ensure!(t.equals(&r) == u32::MAX, "set_sqrt and sqrt differ on {}", show(&v));
            let (r, ok) = x.fourth_root();
            let mut t = x;
            let ok2 = t.set_fourth_root();
            ensure!(ok == ok2 && t.equals(&r) == u32::MAX, "set_fourth_root and fourth_root differ on {}", show(&v));
            // p = 3 mod 4: every square is a fourth power
            if v.legendre() >= 0 {
                let rr = f(&r);
                ensure!(ok == u32::MAX && rr.sq().sq() == v, "fourth_root({}) = {} status {}", show(&v), show(&rr), ok);
                ensure!(!rr.to_big().bit(0), "fourth_root({}) = {} is not the even root", show(&v), show(&rr));
                c.obs("fourth root of power", &v.enc());
            } else {
                ensure!(ok == 0 && r.iszero() == u32::MAX, "fourth_root({}) accepted a non-residue", show(&v));
                c.obs("fourth root of non-power", &v.enc());
            }
        }
        Ok(())
    });
}

fn pair2(rng: &mut ChaCha8Rng) -> (F2, F2, String) {
    let (a, n1) = edge_f2(rng);
    match below(rng, 8) {
        0 => (a, edge_f2(rng).0.sub(&a), "sum=edge".into()),
        1 => (a, a.sub(&edge_f2(rng).0), "diff=edge".into()),
        2 if !a.is_zero() => (a, edge_f2(rng).0.mul(&a.inv()), "prod=edge".into()),
        3 => (a, a, "same".into()),
        4 => (a, a.conj(), "conj".into()),
        _ => {
            let (b, n2) = edge_f2(rng);
            (a, b, format!("{n1}/{n2}"))
        }
    }
}

pub fn p07(ctx: &Ctx) {
    ctx.cases("ring", ctx.n(300, 4000), |c| {
        for _ in 0..60 {
            let (a, b, name) = pair2(&mut c.rng);
            let (x, y) = (fq(&a), fq(&b));
            let (s, d, m) = (a.add(&b), a.sub(&b), a.mul(&b));
            match below(&mut c.rng, 4) {
                0 => {
                    eqf2("a+b", x + y, &s, &[&a, &b])?;
                    eqf2("a-b", x - y, &d, &[&a, &b])?;
                    eqf2("a*b", x * y, &m, &[&a, &b])?;
                    eqf2("-a", -x, &a.neg(), &[&a])?;
                }
                1 => {
                    eqf2("a+&b", x + &y, &s, &[&a, &b])?;
                    eqf2("a-&b", x - &y, &d, &[&a, &b])?;
                    eqf2("a*&b", x * &y, &m, &[&a, &b])?;
                    eqf2("-&a", -&x, &a.neg(), &[&a])?;
                }
                2 => {
                    eqf2("&a+b", &x + y, &s, &[&a, &b])?;
                    eqf2("&a-b", &x - y, &d, &[&a, &b])?;
                    eqf2("&a*b", &x * y, &m, &[&a, &b])?;
                    eqf2("&a+&b", &x + &y, &s, &[&a, &b])?;
                    eqf2("&a-&b", &x - &y, &d, &[&a, &b])?;
                    eqf2("&a*&b", &x * &y, &m, &[&a, &b])?;
                }
                _ => {
                    let mut t = x;
                    t += y;
                    eqf2("+=", t, &s, &[&a, &b])?;
                    t = x;
                    t += &y;
                    eqf2("+=&", t, &s, &[&a, &b])?;
                    t = x;
                    t -= y;
                    eqf2("-=", t, &d, &[&a, &b])?;
                    t = x;
                    t -= &y;
                    eqf2("-=&", t, &d, &[&a, &b])?;
                    t = x;
                    t *= y;
                    eqf2("*=", t, &m, &[&a, &b])?;
                    t = x;
                    t *= &y;
                    eqf2("*=&", t, &m, &[&a, &b])?;
                }
            }
            eqf2("mul_old", x.mul_old(y), &m, &[&a, &b])?;
            eqf2("mul_new", x.mul_new(y), &m, &[&a, &b])?;
            eqf2("square", x.square(), &a.sq(), &[&a])?;
            eqf2("conj", x.conj(), &a.conj(), &[&a])?;
            let h = F2::u(2).inv();
            eqf2("half", x.half(), &a.mul(&h), &[&a])?;
            eqf2("mul2", x.mul2(), &a.dbl(), &[&a])?;
            eqf2("mul3", x.mul3(), &a.mul(&F2::u(3)), &[&a])?;
            eqf2("mul4", x.mul4(), &a.mul(&F2::u(4)), &[&a])?;
            eqf2("mul8", x.mul8(), &a.mul(&F2::u(8)), &[&a])?;
            let k = small_i32(&mut c.rng);
            eqf2(&format!("mul_small({k})"), x.mul_small(k), &a.mul(&F2(F::i(k as i64), F::zero())), &[&a])?;
            // in-place forms
            let ip: [(&str, fn(&mut Fp2), u64); 5] = [("set_half", Fp2::set_half, 0), ("set_mul2", Fp2::set_mul2, 2), ("set_mul3", Fp2::set_mul3, 3), ("set_mul4", Fp2::set_mul4, 4), ("set_mul8", Fp2::set_mul8, 8)];
            for (n, g, w) in ip {
                let mut t = x;
                g(&mut t);
                eqf2(n, t, &if w == 0 { a.mul(&h) } else { a.mul(&F2::u(w)) }, &[&a])?;
            }
            let mut t = x;
            t.set_mul_small(k);
            eqf2(&format!("set_mul_small({k})"), t, &a.mul(&F2(F::i(k as i64), F::zero())), &[&a])?;
            let mut t = x;
            t.set_neg();
            eqf2("set_neg", t, &a.neg(), &[&a])?;
            let mut t = x;
            t.set_conj();
            eqf2("set_conj", t, &a.conj(), &[&a])?;
            let mut t = x;
            t.set_square();
            eqf2("set_square", t, &a.sq(), &[&a])?;
            let mut t = x;
            t.set_mul(&y);
            eqf2("set_mul", t, &m, &[&a, &b])?;
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("ring {}", name.split('/').next().unwrap()), &key);
            c.sample("ring", || format!("{name} a={} b={}", show2(&a), show2(&b)));
        }
        for (n, g, w) in [("ZERO", Fp2::ZERO, F2::zero()), ("ONE", Fp2::ONE, F2::one()), ("TWO", Fp2::TWO, F2::u(2)), ("THREE", Fp2::THREE, F2::u(3)), ("FOUR", Fp2::FOUR, F2::u(4)),
            ("MINUS_ONE", Fp2::MINUS_ONE, F2::one().neg()), ("ZETA", Fp2::ZETA, F2::i()), ("MINUS_ZETA", Fp2::MINUS_ZETA, F2::i().neg())]
        {
            eqf2(n, g, &w, &[])?;
        }
        Ok(())
    });
    ctx.cases("division", ctx.n(200, 3000), |c| {
        for _ in 0..20 {
            let (a, b, name) = pair2(&mut c.rng);
            let (x, y) = (fq(&a), fq(&b));
            let w = a.div(&b);
            let g = match below(&mut c.rng, 6) {
                0 => x / y,
                1 => x / &y,
                2 => &x / y,
                3 => &x / &y,
                4 => {
                    let mut t = x;
                    t /= y;
                    t
                }
                _ => {
                    let mut t = x;
                    t /= &y;
                    t
                }
            };
            eqf2("a/b", g, &w, &[&a, &b])?;
            eqf2("invert", y.invert(), &b.inv(), &[&b])?;
            let mut t = y;
            t.set_invert();
            eqf2("set_invert", t, &b.inv(), &[&b])?;
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("division {}", if b.is_zero() { "by zero" } else { name.split('/').next().unwrap() }), &key);
        }
        Ok(())
    });
    ctx.cases("batch_invert", ctx.n(64, 500), |c| {
        let n = match c.idx % 12 {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 199,
            4 => 200,
            5 => 201,
            6 => 399 + below(&mut c.rng, 4) as usize,
            7 => 400 + below(&mut c.rng, 300) as usize,
            _ => below(&mut c.rng, 260) as usize,
        };
        let mut v: Vec<F2> = Vec::new();
        for _ in 0..n {
            v.push(if below(&mut c.rng, 6) == 0 { F2::zero() } else { edge_f2(&mut c.rng).0 });
        }
        if n > 0 && below(&mut c.rng, 3) == 0 {
            v[0] = F2::zero();
            v[n - 1] = F2::zero();
        }
        let mut w: Vec<Fp2> = v.iter().map(fq).collect();
        Fp2::batch_invert(&mut w);
        let mut key = vec![];
        for i in 0..n {
            eqf2(&format!("batch_invert n={n} i={i}"), w[i], &v[i].inv(), &[&v[i]])?;
            key.extend(v[i].enc());
        }
        c.obs(&format!("batch {}", if n > 200 { ">200" } else { "<=200" }), &key);
        Ok(())
    });
    ctx.cases("pow", ctx.n(60, 600), |c| {
        for _ in 0..4 {
            let (a, n) = edge_f2(&mut c.rng);
            let x = fq(&a);
            let e = gen_exp(&mut c.rng);
            eqf2(&format!("pow_big({e})"), x.pow_big(&e), &a.pow(&e), &[&a])?;
            let eb = {
                let mut t = e.to_bytes_le();
                t.push(c.rng.next_u32() as u8);
                t
            };
            eqf2("pow", x.pow(&eb, e.bits() as usize), &a.pow(&e), &[&a])?;
            let off = below(&mut c.rng, (eb.len() * 8) as u64) as usize;
            let len = below(&mut c.rng, (eb.len() * 8 - off) as u64 + 1).min(150) as usize;
            let win = (BigUint::from_bytes_le(&eb) >> off) & ((bu(1) << len) - 1u32);
            let mut t = x;
            t.set_pow_ext(&eb, off, len);
            eqf2(&format!("set_pow_ext({off},{len})"), t, &a.pow(&win), &[&a])?;
            let mut t = x;
            t.set_pow(&eb, e.bits() as usize);
            eqf2("set_pow", t, &a.pow(&e), &[&a])?;
            eqf2(&format!("pow_ext({off},{len})"), x.pow_ext(&eb, off, len), &a.pow(&win), &[&a])?;
            let s = match below(&mut c.rng, 4) {
                0 => below(&mut c.rng, 5) as u32,
                1 => u32::MAX,
                2 => 1 << below(&mut c.rng, 32),
                _ => c.rng.next_u32(),
            };
            eqf2(&format!("pow_small({s})"), x.pow_small(s), &a.pow(&BigUint::from(s)), &[&a])?;
            let u = match below(&mut c.rng, 5) {
                0 => below(&mut c.rng, 4),
                1 => u64::MAX,
                2 => 1 << below(&mut c.rng, 64),
                _ => c.rng.next_u64() >> below(&mut c.rng, 64),
            };
            eqf2(&format!("pow_u64_vartime({u})"), x.pow_u64_vartime(u), &a.pow(&bu(u)), &[&a])?;
            let nb = below(&mut c.rng, 65) as usize;
            let m = if nb == 64 { u } else { u & ((1u64 << nb) - 1) };
            let mut t = x;
            t.set_pow_u64(m, nb);
            eqf2(&format!("set_pow_u64({m},{nb})"), t, &a.pow(&bu(m)), &[&a])?;
            let mut t = x;
            t.set_pow_u64_vartime(u);
            eqf2(&format!("set_pow_u64_vartime({u})"), t, &a.pow(&bu(u)), &[&a])?;
            eqf2(&format!("pow_u64({m},{nb})"), x.pow_u64(m, nb), &a.pow(&bu(m)), &[&a])?;
            let mut key = a.enc();
            key.extend(e.to_bytes_le());
            key.extend(u.to_le_bytes());
            c.obs(&format!("pow {n}"), &key);
        }
        Ok(())
    });
}

pub fn p08(ctx: &Ctx) {
    ctx.cases("roots2", ctx.n(260, 4000), |c| {
        for _ in 0..10 {
            let (a, name) = edge_f2(&mut c.rng);
            let v = match below(&mut c.rng, 5) {
                0 | 1 => a.sq(),
                2 => a.sq().sq(),
                _ => a,
            };
            let kind = if v.1.is_zero() { "real" } else if v.0.is_zero() { "imaginary" } else { "general" };
            let x = fq(&v);
            let l = v.legendre();
            let g = x.legendre();
            ensure!(g == l, "legendre({}) = {} want {}", show2(&v), g, l);
            let (r, ok) = x.sqrt();
            let mut t = x;
            let ok2 = t.set_sqrt();
            ensure!(ok == ok2 && t.equals(&r) == u32::MAX, "set_sqrt and sqrt differ on {}", show2(&v));
            if l >= 0 {
                let rr = f2(&r);
                ensure!(ok == u32::MAX, "sqrt({}) reported failure on a square", show2(&v));
                ensure!(rr.sq() == v, "sqrt({}) = {} is not a root", show2(&v), show2(&rr));
                let canon = if rr.0.is_zero() { !rr.1.to_big().bit(0) } else { !rr.0.to_big().bit(0) };
                ensure!(canon, "sqrt({}) = {} does not have the documented parity", show2(&v), show2(&rr));
                c.obs(&format!("sqrt square {kind} {name}"), &v.enc());
            } else {
                ensure!(ok == 0 && r.iszero() == u32::MAX, "sqrt({}) of a non-square: status {} value {}", show2(&v), ok, show2(&f2(&r)));
                c.obs(&format!("sqrt nonsquare {kind} {name}"), &v.enc());
            }
            // fourth root: v is a fourth power iff one of +-sqrt(v) is a square; -1 = i^2 is a square, so iff sqrt(v) is
            let (r, ok) = x.fourth_root();
            let mut t = x;
            let ok2 = t.set_fourth_root();
            ensure!(ok == ok2 && t.equals(&r) == u32::MAX, "set_fourth_root and fourth_root differ on {}", show2(&v));
            let fourth = match v.sqrt() {
                Some(s) => s.legendre() >= 0,
                None => false,
            };
            if fourth {
                let rr = f2(&r);
                ensure!(ok == u32::MAX && rr.sq().sq() == v, "fourth_root({}) = {} status {}", show2(&v), show2(&rr), ok);
                c.obs(&format!("fourth root of power {kind}"), &v.enc());
            } else {
                ensure!(ok == 0 && r.iszero() == u32::MAX, "fourth_root({}) accepted a non-power: {}", show2(&v), show2(&f2(&r)));
                c.obs(&format!("fourth root of non-power {kind}"), &v.enc());
            }
        }
        Ok(())
    });
    ctx.cases("nonsquares", ctx.n(16, 200), |c| {
        let n = f2(&Fp2::NQR);
        ensure!(n.legendre() == -1, "NQR is a square");
        for _ in 0..6 {
            let mut r = Fp2::ZERO;
            r.set_rand_nonsquare(&mut c.rng);
            let v = f2(&r);
            ensure!(v.legendre() == -1, "set_rand_nonsquare returned {}", show2(&v));
            let w = f2(&Fp2::ONE.rand_nonsquare(&mut c.rng));
            ensure!(w.legendre() == -1, "rand_nonsquare returned {}", show2(&w));
            c.obs("random nonsquare", &v.enc());
        }
        Ok(())
    });
}

pub fn p09(ctx: &Ctx) {
    let el = Fp::ENCODED_LENGTH;
    ctx.cases("fp_codec", ctx.n(300, 4000), |c| {
        ensure!(el == 162 && Fp2::ENCODED_LENGTH == 324, "encoded lengths changed: {} {}", el, Fp2::ENCODED_LENGTH);
        for _ in 0..60 {
            let (a, n) = edge_f(&mut c.rng);
            let b = a.enc();
            let (x, ok) = Fp::decode(&b);
            ensure!(ok == u32::MAX, "decode refused the canonical encoding of {}", show(&a));
            ensure!(x.encode().to_vec() == b, "encode(decode(b)) != b for {}", show(&a));
            // same value reached through arithmetic encodes identically
            let (d, _) = edge_f(&mut c.rng);
            let y = (x + fp(&d)) - fp(&d);
            ensure!(y.encode().to_vec() == b && y.equals(&x) == u32::MAX, "a value reached by (a+d)-d encodes differently: a={} d={}", show(&a), show(&d));
            c.obs(&format!("canonical {n}"), &b);
        }
        // non-canonical integers: p .. 2^1296-1
        for k in 0..40 {
            let top = bu(1) << (8 * el);
            let v = match k % 8 {
                0 => p() + bu(below(&mut c.rng, 4)),
                1 => &top - 1u32 - bu(below(&mut c.rng, 4)),
                2 => p() + (bu(1) << below(&mut c.rng, 1293)),
                3 => p() + rand_below(&mut c.rng, p()),
                4 => p() * 2u32 + bu(below(&mut c.rng, 3)) - 1u32,
                5 => {
                    // a small value with a stray high bit
                    rand_below(&mut c.rng, p()) + (bu(1) << (1293 + below(&mut c.rng, 3)))
                }
                6 => {
                    // equal to p in the top limbs
                    let k = below(&mut c.rng, 1280);
                    p() + (bu(1) << k)
                }
                _ => p() + rand_below(&mut c.rng, &(&top - p())),
            };
            if v >= top {
                continue;
            }
            let mut b = v.to_bytes_le();
            b.resize(el, 0);
            let (x, ok) = Fp::decode(&b);
            ensure!(ok == 0, "decode accepted the non-canonical integer {:x}", v);
            ensure!(x.iszero() == u32::MAX, "decode of a non-canonical integer returned a non-zero element: {:x}", v);
            c.obs("non-canonical rejected", &b);
            // in GF(p^2), in either half
            let good = edge_f(&mut c.rng).0.enc();
            for (h0, h1) in [(&b, &good), (&good, &b), (&b, &b)] {
                let mut w = h0.clone();
                w.extend_from_slice(h1);
                let (x, ok) = Fp2::decode(&w);
                ensure!(ok == 0 && x.iszero() == u32::MAX, "GF(p^2) decode accepted a non-canonical half: status {}", ok);
                c.obs("non-canonical half rejected", &w);
            }
        }
        // p-1 and below are accepted
        for k in 0..6u32 {
            let v = p() - 1u32 - k;
            let mut b = v.to_bytes_le();
            b.resize(el, 0);
            let (x, ok) = Fp::decode(&b);
            ensure!(ok == u32::MAX && f(&x).to_big() == v, "decode of p-{} failed", k + 1);
        }
        // wrong lengths
        for _ in 0..12 {
            let n = match below(&mut c.rng, 6) {
                0 => 0,
                1 => el - 1,
                2 => el + 1,
                3 => 2 * el,
                4 => 168,
                _ => below(&mut c.rng, 400) as usize,
            };
            if n != el {
                let mut b = rbytes(&mut c.rng, n);
                if below(&mut c.rng, 2) == 0 {
                    b.iter_mut().for_each(|x| *x = 0);
                }
                let (x, ok) = Fp::decode(&b);
                ensure!(ok == 0 && x.iszero() == u32::MAX, "decode accepted {} bytes", n);
                c.obs("wrong length rejected", &b);
            }
            if n != 2 * el {
                let b = vec![0u8; n];
                let (x, ok) = Fp2::decode(&b);
                ensure!(ok == 0 && x.iszero() == u32::MAX, "GF(p^2) decode accepted {} bytes", n);
                c.obs("wrong length rejected2", &(n as u64).to_le_bytes());
            }
        }
        Ok(())
    });
    ctx.cases("fp2_codec", ctx.n(100, 1000), |c| {
        for _ in 0..60 {
            let (a, n) = edge_f2(&mut c.rng);
            let b = a.enc();
            let (x, ok) = Fp2::decode(&b);
            ensure!(ok == u32::MAX, "GF(p^2) decode refused {}", show2(&a));
            ensure!(f2(&x) == a, "GF(p^2) decode of {} gives {}", show2(&a), show2(&f2(&x)));
            ensure!(x.encode().to_vec() == b, "GF(p^2) encode(decode(b)) != b for {}", show2(&a));
            c.obs(&format!("canonical2 {n}"), &b);
        }
        Ok(())
    });
    ctx.cases("decode_reduce", ctx.n(200, 2000), |c| {
        for _ in 0..30 {
            let n = match below(&mut c.rng, 10) {
                0 => 0,
                1 => 160,
                2 => 159,
                3 => 161,
                4 => 320,
                5 => 321 + below(&mut c.rng, 3) as usize,
                6 => 162 + below(&mut c.rng, 20) as usize,
                7 => 640,
                _ => below(&mut c.rng, 800) as usize,
            };
            let mut b = rbytes(&mut c.rng, n);
            match below(&mut c.rng, 5) {
                0 => b.iter_mut().for_each(|x| *x = 0xff),
                1 => {
                    let k = below(&mut c.rng, n as u64 + 1) as usize;
                    b[k..].iter_mut().for_each(|x| *x = 0xff);
                }
                2 => {
                    // multiples of p plus a small offset
                    let m = BigUint::from_bytes_le(&b) / p() * p() + bu(below(&mut c.rng, 3));
                    let v = m.to_bytes_le();
                    if v.len() <= n {
                        b = v;
                        b.resize(n, 0);
                    }
                }
                _ => {}
            }
            let w = F::from_big(&BigUint::from_bytes_le(&b));
            let x = Fp::decode_reduce(&b);
            let mut y = Fp::ONE;
            y.set_decode_reduce(&b);
            ensure!(f(&x) == w && x.equals(&fp(&w)) == u32::MAX, "decode_reduce of {} bytes {}: got {} want {}", n, hexs(&b), show(&f(&x)), show(&w));
            ensure!(y.equals(&x) == u32::MAX, "set_decode_reduce differs from decode_reduce on {}", hexs(&b));
            c.obs(&format!("decode_reduce len class {}", if n == 0 { "0" } else if n <= 160 { "<=160" } else if n <= 320 { "<=320" } else { ">320" }), &b);
        }
        Ok(())
    });
    ctx.cases("sampling", ctx.n(8, 64), |c| {
        // random sampling: in range, uses the supplied generator only, deterministic in it, and spreads over the range
        use rand_chacha::rand_core::SeedableRng;
        let mut hi = 0usize;
        let n = 400;
        let seed = c.rng.next_u64();
        let mut r1 = ChaCha8Rng::seed_from_u64(seed);
        let mut r2 = ChaCha8Rng::seed_from_u64(seed);
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            let x = Fp::rand(&mut r1);
            let y = Fp::rand(&mut r2);
            ensure!(x.equals(&y) == u32::MAX, "random sampling is not a function of the supplied generator");
            let v = f(&x).to_big();
            if v > (p() >> 1) {
                hi += 1;
            }
            ensure!(seen.insert(v.to_bytes_le()), "random sampling repeated a value");
            c.obs("sample", &x.encode());
        }
        ensure!(hi > 120 && hi < 280, "random sampling is visibly biased: {}/{} above p/2", hi, n);
        let z = f2(&Fp2::rand(&mut r1));
        ensure!(z.0 != z.1 && !z.0.is_zero() && !z.1.is_zero(), "GF(p^2) sampling is degenerate");
        Ok(())
    });
}

pub fn p10(ctx: &Ctx) {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    fn h<T: Hash>(x: &T) -> u64 {
        let mut s = DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    }
    ctx.cases("select", ctx.n(200, 2000), |c| {
        for _ in 0..60 {
            let (a, n) = edge_f(&mut c.rng);
            let (b, _) = if below(&mut c.rng, 4) == 0 { (a, "") } else { edge_f(&mut c.rng) };
            let (x, y) = (fp(&a), fp(&b));
            for (ctl, pick) in [(0u32, &a), (u32::MAX, &b)] {
                eqf("select", Fp::select(&x, &y, ctl), pick, &[&a, &b])?;
                let mut t = Fp::ONE;
                t.set_select(&x, &y, ctl);
                eqf("set_select", t, pick, &[&a, &b])?;
                let mut t = x;
                t.set_cond(&y, ctl);
                eqf("set_cond", t, pick, &[&a, &b])?;
                let mut t = x;
                t.set_condneg(ctl);
                eqf("set_condneg", t, &if ctl == 0 { a } else { a.neg() }, &[&a])?;
                let (mut u, mut v) = (x, y);
                Fp::condswap(&mut u, &mut v, ctl);
                let (wu, wv) = if ctl == 0 { (a, b) } else { (b, a) };
                eqf("condswap.0", u, &wu, &[&a, &b])?;
                eqf("condswap.1", v, &wv, &[&a, &b])?;
            }
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("select {n}"), &key);
        }
        Ok(())
    });
    ctx.cases("select2", ctx.n(150, 1500), |c| {
        for _ in 0..40 {
            let (a, n) = edge_f2(&mut c.rng);
            let (b, _) = edge_f2(&mut c.rng);
            let (x, y) = (fq(&a), fq(&b));
            for (ctl, pick) in [(0u32, &a), (u32::MAX, &b)] {
                eqf2("select", Fp2::select(&x, &y, ctl), pick, &[&a, &b])?;
                let mut t = Fp2::ONE;
                t.set_select(&x, &y, ctl);
                eqf2("set_select", t, pick, &[&a, &b])?;
                let mut t = x;
                t.set_cond(&y, ctl);
                eqf2("set_cond", t, pick, &[&a, &b])?;
                let mut t = x;
                t.set_condneg(ctl);
                eqf2("set_condneg", t, &if ctl == 0 { a } else { a.neg() }, &[&a])?;
                let (mut u, mut v) = (x, y);
                Fp2::condswap(&mut u, &mut v, ctl);
                let (wu, wv) = if ctl == 0 { (a, b) } else { (b, a) };
                eqf2("condswap.0", u, &wu, &[&a, &b])?;
                eqf2("condswap.1", v, &wv, &[&a, &b])?;
            }
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("select2 {n}"), &key);
        }
        Ok(())
    });
    ctx.cases("equality", ctx.n(200, 2000), |c| {
        for k in 0..60 {
            let (a, n) = edge_f(&mut c.rng);
            // b differs from a in exactly one bit of the internal value, or is unrelated, or equal by another route
            let b = match k % 4 {
                0 => {
                    let mut l = a.0;
                    let bit = below(&mut c.rng, 1293);
                    l[(bit / 64) as usize] ^= 1 << (bit % 64);
                    let v = limbs_to_big(&l);
                    if v >= *p() { a } else { F(l) }
                }
                1 => edge_f(&mut c.rng).0,
                2 => a.neg(),
                _ => a,
            };
            let d = edge_f(&mut c.rng).0;
            let x = fp(&a);
            let y = fp(&b.sub(&d)) + fp(&d);
            let want = if a == b { u32::MAX } else { 0 };
            ensure!(x.equals(&y) == want && y.equals(&x) == want, "equals({}, {}) != {:x}", show(&a), show(&b), want);
            ensure!(x.iszero() == if a.is_zero() { u32::MAX } else { 0 }, "iszero({})", show(&a));
            ensure!((x - y).iszero() == want, "(a-b).iszero() for {} {}", show(&a), show(&b));
            if a == b {
                ensure!(x.hashcode() == y.hashcode() && h(&x) == h(&y), "equal elements hash differently: {}", show(&a));
                ensure!(format!("{}", x) == format!("{}", y), "equal elements print differently: {}", show(&a));
            }
            ensure!(format!("{}", x).contains(&a.to_big().to_string()), "Display of {} does not show its value", show(&a));
            // GF(p^2)
            let (e, g) = (edge_f(&mut c.rng).0, edge_f(&mut c.rng).0);
            let (p1, p2) = match k % 3 {
                0 => (F2(a, e), F2(b, e)),
                1 => (F2(e, a), F2(e, b)),
                _ => (F2(a, e), F2(b, g)),
            };
            let (u, v) = (fq(&p1), fq(&p2));
            let want = p1 == p2;
            ensure!((u.equals(&v) == u32::MAX) == want && (u == v) == want && (u != v) != want, "GF(p^2) equality of {} and {}", show2(&p1), show2(&p2));
            ensure!(u.equals(&v) == 0 || u.equals(&v) == u32::MAX, "equals returned a partial mask");
            if want {
                ensure!(h(&u) == h(&v) && u.hashcode() == v.hashcode(), "equal GF(p^2) elements hash differently");
            }
            ensure!((u.iszero() == u32::MAX) == p1.is_zero(), "GF(p^2) iszero({})", show2(&p1));
            let mut key = a.enc();
            key.extend(b.enc());
            c.obs(&format!("equality {} {n}", if a == b { "equal" } else { "different" }), &key);
        }
        Ok(())
    });
    crate::p_curve::p10_points(ctx);
}
