//! P01-P04: end-to-end properties of the trapdoor function.
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::p_curve::*;
use crate::rt::*;
use festa_rs::ecFESTA::*;
use festa_rs::festa::*;
use festa_rs::fields::FpFESTAExt::*;
use festa_rs::supersingular::*;
use num_bigint::BigUint;
use rand_chacha::ChaCha8Rng;
use std::sync::OnceLock;

pub fn festa() -> &'static FESTACrypto {
    static F: OnceLock<FESTACrypto> = OnceLock::new();
    F.get_or_init(FESTACrypto::new)
}
pub fn two_l() -> BigUint {
    bu(1) << 634
}
pub fn b_from(b11: BigUint) -> (BigUint, BigUint) {
    let m = two_l();
    let b22 = big_inv(&b11, &m).unwrap();
    (b11, b22)
}
/// Domain element number `k`: boundary values first, then random.
pub fn gen_input(rng: &mut ChaCha8Rng, k: usize) -> (TrapdoorInput, (BigUint, BigUint, (BigUint, BigUint)), String) {
    let d1 = BigUint::from_slice(&D1);
    let d2 = BigUint::from_slice(&D2);
    fn any_len(rng: &mut ChaCha8Rng, d: &BigUint) -> BigUint {
        let k = below(rng, d.bits());
        rand_below(rng, &(bu(1) << (k + 1) as usize)) % d
    }
    let (s1, n1) = match k % 6 {
        5 => (any_len(rng, &d1), "s1 any length"),
        1 => (bu(0), "s1=0"),
        2 => (&d1 - 1u32, "s1=d1-1"),
        3 => (&d1 / 3u32 * below(rng, 3), "s1=k*d1/3"),
        4 => {
            let l = D1_FACTORED[below(rng, 16) as usize].0;
            (rand_below(rng, &(&d1 / l)) * l, "s1=mult of prime")
        }
        _ => (rand_below(rng, &d1), "s1 random"),
    };
    let (s2, n2) = match k % 7 {
        1 => (any_len(rng, &d2), "s2 any length"),
        2 => (bu(0), "s2=0"),
        3 => (&d2 - 1u32, "s2=d2-1"),
        4 => (bu(1), "s2=1"),
        5 => {
            let l = D2_FACTORED[below(rng, 18) as usize].0;
            (rand_below(rng, &(&d2 / l)) * l, "s2=mult of prime")
        }
        _ => (rand_below(rng, &d2), "s2 random"),
    };
    let (b11, n3) = match k % 8 {
        3 => (bu(1), "b=1"),
        4 => ((bu(1) << 633) - 1u32, "b=2^633-1"),
        5 => (bu(3 + 2 * below(rng, 1000)), "b small"),
        6 => match below(rng, 3) {
            0 => ((bu(1) << 632) + 1u32, "b=2^632+1"),
            _ => {
                // the inverse is the short one
                let s = any_len(rng, &(bu(1) << 600)) | bu(1);
                let (b, s) = b_from(s);
                let _ = b;
                if s.bit(633) {
                    ((bu(1) << 634) - s, "b22 = -short")
                } else {
                    (s, "b22 short")
                }
            }
        },
        0 | 2 => {
            // any length; every other one fills its leading 32- or 64-bit digit
            let mut n = 2 + below(rng, 631) as usize;
            if below(rng, 2) == 0 {
                n = (n / 32 + 1).min(19) * 32;
            }
            let mut b = rand_below(rng, &(bu(1) << n));
            b.set_bit(0, true);
            b.set_bit(n as u64 - 1, true);
            if below(rng, 2) == 0 {
                b.set_bit(n as u64 - 2, true);
            }
            (b, "b any length")
        }
        _ => {
            let mut b = rand_below(rng, &(bu(1) << 633));
            b.set_bit(0, true);
            (b, "b random")
        }
    };
    let b = b_from(b11);
    (TrapdoorInput::new(&s1, &s2, &b), (s1, s2, b), format!("{n1},{n2},{n3}"))
}
/// Library key pair number `i`, generated in a thread of its own with its own entropy stream.
pub fn key(ctx: &Ctx, i: usize) -> Result<&'static (PublicKey, SecretKey), String> {
    static K: [OnceLock<Result<(PublicKey, SecretKey), String>>; 16] = [const { OnceLock::new() }; 16];
    let seed = ctx.case_seed("key", i);
    K[i].get_or_init(move || {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                getrandom::stub_set_thread_seed(u64::from_le_bytes(seed[..8].try_into().unwrap()) ^ u64::from_le_bytes(seed[8..16].try_into().unwrap()) ^ (i as u64) << 40);
                guarded(|| festa().keygen())
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("keygen thread died".into()))
    })
    .as_ref()
    .map_err(|e| format!("keygen {}: {}", i, e))
}

pub fn p01(ctx: &Ctx) {
    let _ = festa();
    pool(ctx);
    diag_b(ctx);
    let nk = ctx.n(4, 16);
    ctx.cases("roundtrip", ctx.n(40, 240), |c| {
        let fe = festa();
        let (pk, sk) = key(c.ctx, c.idx % nk)?;
        let (m, parts, name) = gen_input(&mut c.rng, c.idx);
        let mut out = fe.trapdoor_eval(pk, &m);
        // every other case goes through the serialised ciphertext / key, as a user would
        let mut tag = "direct";
        let sk2;
        let mut skr = sk;
        if c.idx % 4 >= 2 {
            tag = "serialised";
            out = TrapdoorOutput::decode(&out.encode());
            sk2 = SecretKey::decode(&sk.encode());
            skr = &sk2;
        }
        let back = fe.trapdoor_inverse(&out, skr);
        c.obs(&format!("{tag}: {name}"), format!("{m} {}", c.idx % nk).as_bytes());
        ensure!(back.extract() == parts, "trapdoor_inverse(trapdoor_eval(m)) != m for ({name}, {tag}, key {}) m={:?} got {:?}", c.idx % nk, parts, back.extract());
        ensure!(back == m, "recovered input does not compare equal");
        let ki = c.idx % nk;
        c.sample("roundtrip", || format!("{name} key {ki} m={m}"));
        Ok(())
    });
}

/// The last step of inversion alone, on many more masks than whole round trips allow: from a point [u]P + [v]Q the mask
/// entry is +-u divided by the scale m1 d1^2 d2, taken below 2^633, and the second entry is its inverse.
fn diag_b(ctx: &Ctx) {
    let l = two_l();
    let of = |w: &[u32]| BigUint::from_slice(w);
    let scale = (of(&D1) * of(&D1) * of(&D2) * of(&M1)) % &l;
    ctx.cases("recover_mask", ctx.n(24, 320), |c| {
        let fe = festa();
        let e = pick(c.ctx, &mut c.rng);
        let (P, Q) = two_basis(&mut c.rng, &e);
        for _ in 0..2 {
            let (k, neg) = (below(&mut c.rng, 400) as usize, below(&mut c.rng, 2) == 0);
            let (_, parts, name) = gen_input(&mut c.rng, k);
            let (b11, b22) = parts.2;
            let u = (&b11 * &scale) % &l;
            let u = if neg { &l - u } else { u };
            let v = match below(&mut c.rng, 3) {
                0 => bu(0),
                1 => u.clone(),
                _ => rand_below(&mut c.rng, &l),
            };
            let R = e.add(&e.mul(&P, &u), &e.mul(&Q, &v));
            let E = cv(&e);
            let g = fe.recover_diagB(&E, &point_z(&E, &R, &rand_z(&mut c.rng)), &point(&P), &point(&Q));
            c.obs("mask", b11.to_string().as_bytes());
            ensure!(g.0 == b11 && (&g.1 * &b11) % &l == bu(1) && g.1 < l, "recover_diagB of [u]P+[v]Q on A={}: u={u}, v={v} ({name}) gives {:?}, expected {b11} and its inverse {b22}", show2(&e.a), g);
        }
        Ok(())
    });
}
/// Exact order and independence of (P, Q) as a basis of E[prod fo], decided by the oracle.
pub fn check_basis(rng: &mut ChaCha8Rng, e: &Cv, P: &Pt, Q: &Pt, fo: &[(u32, u32)], what: &str) -> Res {
    for (n, x) in [("first", P), ("second", Q)] {
        ensure!(x.is_some() && e.on(x), "{what}: {n} point is not on the curve (or is infinity): {}", showp(x));
        ensure!(e.has_order(x, fo), "{what}: {n} point does not have exact order {:?}: {}", fo, showp(x));
    }
    let d = prod_factored(fo);
    for (l, _) in fo {
        let m = &d / *l;
        let (x, y) = (e.mul(P, &m), e.mul(Q, &m));
        let dep = if *l == 2 { x == y } else { e.weil(rng, &x, &y, &bu(*l as u64)) == F2::one() };
        ensure!(!dep, "{what}: the two points are dependent modulo {l} (A={}, P={}, Q={})", show2(&e.a), showp(P), showp(Q));
    }
    Ok(())
}
/// A basis of E[2^634], by the oracle.
pub fn two_basis(rng: &mut ChaCha8Rng, e: &Cv) -> (Pt, Pt) {
    let fo = [(2u32, 634u32)];
    loop {
        let (p, q) = (e.rand_order(rng, &fo), e.rand_order(rng, &fo));
        let m = bu(1) << 633;
        if e.mul(&p, &m) != e.mul(&q, &m) {
            return (p, q);
        }
    }
}

pub fn p02(ctx: &Ctx) {
    pool(ctx);
    let fe = festa();
    let e0 = Cv { a: F2::u(6) };
    let E0 = cv(&e0);
    let (pb, qb) = entangled_torsion_basis(&E0, &((p() + 1u32) >> 634));
    let (pd, qd) = torsion_basis(&E0, &D1_FACTORED, 634);
    let (pb, qb, pd, qd) = (pt(&pb), pt(&qb), pt(&pd), pt(&qd));
    ctx.cases("base", 1, |c| {
        check_basis(&mut c.rng, &e0, &pb, &qb, &[(2, 634)], "2^634-torsion basis of the starting curve")?;
        check_basis(&mut c.rng, &e0, &pd, &qd, &D1_FACTORED, "d1-torsion basis of the starting curve")?;
        c.obs("base", b"base");
        Ok(())
    });
    if !ctx.viol.lock().unwrap().is_empty() {
        return;
    }
    ctx.cases("eval", ctx.n(16, 160), |c| {
        let e = if c.idx == 0 { e0 } else { pick(ctx, &mut c.rng) };
        let E = cv(&e);
        let (r, s) = two_basis(&mut c.rng, &e);
        let (m, (s1, s2, (b11, b22)), name) = gen_input(&mut c.rng, c.idx);
        let pk = PublicKey::new(&E, &point_z(&E, &r, &rand_z(&mut c.rng)), &point_z(&E, &s, &rand_z(&mut c.rng)));
        let before = getrandom::stub_thread_bytes();
        let out = fe.trapdoor_eval(&pk, &m);
        ensure!(getrandom::stub_thread_bytes() == before, "trapdoor evaluation drew entropy");
        let (E1, R1, S1, E2, R2, S2) = out.extract();
        // independent evaluation: quotient by <P + [s]Q>, images of the 2-power bases scaled by B
        let (pd2, qd2) = torsion_basis(&E, &D2_FACTORED, 634);
        let (pd2, qd2) = (pt(&pd2), pt(&qd2));
        check_basis(&mut c.rng, &e, &pd2, &qd2, &D2_FACTORED, "d2-torsion basis of the public curve")?;
        let sides = [
            ("first", e0, e0.add(&pd, &e0.mul(&qd, &s1)), &D1_FACTORED[..], pb, qb, E1, R1, S1),
            ("second", e, e.add(&pd2, &e.mul(&qd2, &s2)), &D2_FACTORED[..], r, s, E2, R2, S2),
        ];
        for (w, dom, k, fo, x, y, C, GX, GY) in sides {
            let (co, im) = oracle_chain(&dom, &k, fo, &[x, y]);
            ensure!(f2(&C.get_constant()) == co.a, "{w} output curve for ({name}), public A={}: A={} want {}", show2(&e.a), show2(&f2(&C.get_constant())), show2(&co.a));
            let (wx, wy) = (co.mul(&im[0], &b11), co.mul(&im[1], &b22));
            let (gx, gy) = (pt(&GX), pt(&GY));
            ensure!((gx == wx && gy == wy) || (gx == Cv::neg(&wx) && gy == Cv::neg(&wy)),
                "{w} output points for ({name}), public A={}, m={m} are not +-(b11*phi(P), b22*phi(Q)): {} {}", show2(&e.a),
                if gx == wx { "+" } else if gx == Cv::neg(&wx) { "-" } else { "wrong" }, if gy == wy { "+" } else if gy == Cv::neg(&wy) { "-" } else { "wrong" });
        }
        if c.idx % 4 == 1 {
            let again = FESTACrypto::new().trapdoor_eval(&pk, &m);
            ensure!(again.encode() == out.encode(), "two evaluations of the same input differ ({name})");
        }
        c.obs(&name, &{
            let mut k = e.a.enc();
            k.extend(format!("{m}").bytes());
            k
        });
        c.sample("eval", || format!("{name} on A={}", show2(&e.a)));
        Ok(())
    });
}

pub fn p03(ctx: &Ctx) {
    let fe = festa();
    let e0 = Cv { a: F2::u(6) };
    let E0 = cv(&e0);
    let (pb, qb) = entangled_torsion_basis(&E0, &((p() + 1u32) >> 634));
    let (pd, qd) = torsion_basis(&E0, &D1_FACTORED, 634);
    let (pb, qb, pd, qd) = (pt(&pb), pt(&qb), pt(&pd), pt(&qd));
    type K = (usize, F2, F2, BigUint, BigUint, Vec<u8>);
    let seen: std::sync::Mutex<Vec<K>> = Default::default();
    let lfo = [(2u32, 634u32)];
    let lim = two_l();
    ctx.cases("keygen", ctx.n(8, 48), |c| {
        // some threads produce two keys from the same generator state
        for t in 0..(if c.idx % 4 == 3 { 2 } else { 1 }) {
            let before = getrandom::stub_thread_bytes();
            let (pk, sk) = fe.keygen();
            if t == 0 {
                ensure!(getrandom::stub_thread_bytes() >= before + 32, "key generation drew only {} bytes of entropy", getrandom::stub_thread_bytes() - before);
            }
            let (EA, R, S) = pk.extract();
            let (EAp, (i1, i2), (j1, j2), (a11, a22)) = sk.extract();
            let (ea, eap) = (ocv(&EA), ocv(&EAp));
            for (n, e) in [("public", &ea), ("secret", &eap)] {
                ensure!(!e.a.sq().sub(&F2::u(4)).is_zero(), "the {n} curve is singular");
                for _ in 0..2 {
                    let q = e.rand_point(&mut c.rng);
                    ensure!(e.mul(&q, &(p() + 1u32)).is_none(), "the {n} curve A={} is not supersingular with group (Z/(p+1))^2", show2(&e.a));
                }
            }
            ensure!(a11.bit(0) && a22.bit(0) && a11 < lim && a22 < lim && a11 > bu(0), "masking scalars out of range: {a11} {a22}");
            let (r, s) = (pt(&R), pt(&S));
            check_basis(&mut c.rng, &ea, &r, &s, &lfo, "public 2^634-basis")?;
            let mut bd1 = vec![(2u32, 634u32)];
            bd1.extend(D1_FACTORED.iter());
            let (x1, x2) = (pt(&i1), pt(&i2));
            check_basis(&mut c.rng, &eap, &x1, &x2, &bd1, "secret 2^634*d1-basis")?;
            let (y1, y2) = (pt(&j1), pt(&j2));
            check_basis(&mut c.rng, &eap, &y1, &y2, &D2_FACTORED, "secret d2-basis")?;
            // pairings fix the degrees of the two halves of the secret isogeny
            let (da1, da2) = (prod_factored(&DA1_FACTORED).pow(2), prod_factored(&DA2_FACTORED).pow(2));
            let n1 = prod_factored(&bd1);
            let w0 = e0.weil(&mut c.rng, &e0.add(&pb, &pd), &e0.add(&qb, &qd), &n1);
            let w1 = eap.weil(&mut c.rng, &x1, &x2, &n1);
            ensure!(w1 == w0.pow(&da1), "the secret images of the 2^634*d1 basis are not the image under an isogeny of degree dA1");
            let wb = e0.weil(&mut c.rng, &pb, &qb, &lim);
            let wr = ea.weil(&mut c.rng, &r, &s, &lim);
            let exp = (&a11 * &a22 * &da1 * &da2) % &lim;
            ensure!(wr == wb.pow(&exp), "e(R,S) is not e(Pb,Qb)^(a11*a22*dA)");
            // canonical d2-basis of EA pulled back through the second half
            let (cp, cq) = torsion_basis(&EA, &D2_FACTORED, 634);
            let (cp, cq) = (pt(&cp), pt(&cq));
            check_basis(&mut c.rng, &ea, &cp, &cq, &D2_FACTORED, "canonical d2-basis of the public curve")?;
            let d2 = prod_factored(&D2_FACTORED);
            let wc = ea.weil(&mut c.rng, &cp, &cq, &d2);
            let wy = eap.weil(&mut c.rng, &y1, &y2, &d2);
            // the stored basis is a common multiple [k] of that preimage: e(y1,y2)^dA2 = e(cp,cq)^(k^2)
            let wy = wy.pow(&da2);
            for (l, _) in D2_FACTORED.iter() {
                let m = &d2 / *l;
                let (g, h) = (wc.pow(&m), wy.pow(&m));
                let (mut x, mut t) = (0u64, F2::one());
                while t != h && x < *l as u64 {
                    t = t.mul(&g);
                    x += 1;
                }
                let square = x > 0 && bu(x).modpow(&bu((*l as u64 - 1) / 2), &bu(*l as u64)) == bu(1);
                ensure!(square, "the secret d2-basis is not a multiple of the preimage of the canonical one under an isogeny of degree dA2 (modulo {l}: {x})");
            }
            c.obs("key", &sk.encode());
            c.sample("key", || format!("EA={} a11={a11:x} a22={a22:x}", show2(&ea.a)));
            seen.lock().unwrap().push((c.idx * 2 + t, ea.a, eap.a, a11, a22, sk.encode()));
        }
        Ok(())
    });
    if ctx.replay.is_some() || !ctx.viol.lock().unwrap().is_empty() {
        return;
    }
    let ks = seen.into_inner().unwrap();
    ctx.cases("freshness", 1, |c| {
        for i in 0..ks.len() {
            for j in 0..i {
                let (a, b) = (&ks[i], &ks[j]);
                ensure!(a.1 != b.1, "two keys share the public curve (keys {} and {})", a.0, b.0);
                ensure!(a.2 != b.2, "two keys share the secret curve (keys {} and {})", a.0, b.0);
                ensure!(a.3 != b.3 && a.4 != b.4 && a.3 != b.4, "two keys share a masking scalar (keys {} and {})", a.0, b.0);
                c.trivial("pairs of keys compared");
            }
            ensure!(ks[i].3 != ks[i].4, "both masking scalars of a key are equal");
        }
        // the free bits (1..633) of the scalars: every window of 16 positions must show both values somewhere
        let vals: Vec<&BigUint> = ks.iter().flat_map(|k| [&k.3, &k.4]).collect();
        for which in 0..2 {
            let v: Vec<&&BigUint> = vals.iter().skip(which).step_by(2).collect();
            for w in 0..39 {
                let (mut ones, mut zeros) = (0, 0);
                for b in 1 + w * 16..1 + w * 16 + 16 {
                    for x in &v {
                        if x.bit(b) {
                            ones += 1
                        } else {
                            zeros += 1
                        }
                    }
                }
                ensure!(ones > 0 && zeros > 0, "bits {}..{} of masking scalar {} never vary over {} keys", 1 + w * 16, 17 + w * 16, which + 1, v.len());
            }
        }
        // independent draws: no two scalars share (or complement) a window of 64 bits, nor are inverse to each other
        // (2^-64 per comparison for independent ones)
        let lim = two_l();
        let all: Vec<(String, &BigUint)> = ks.iter().flat_map(|k| [(format!("first of key {}", k.0), &k.3), (format!("second of key {}", k.0), &k.4)]).collect();
        for i in 0..all.len() {
            for j in 0..i {
                let (x, y) = (all[i].1, all[j].1);
                let prod = (x * y) % &lim;
                ensure!(prod != bu(1) && prod != &lim - 1u32, "masking scalars are inverse to each other ({}, {})", all[i].0, all[j].0);
                let d = x ^ y;
                for w in 0..9u64 {
                    let v = (&d >> (1 + w * 64)) & BigUint::from(u64::MAX);
                    ensure!(v != bu(0) && v != BigUint::from(u64::MAX), "masking scalars are not drawn independently: bits {}..{} of the {} determine those of the {}", 1 + w * 64, 65 + w * 64, all[i].0, all[j].0);
                }
                let d = x + y;
                let v = (&d >> 32) & BigUint::from(u64::MAX);
                ensure!(v != bu(0) && v != BigUint::from(u64::MAX), "masking scalars have a fixed sum ({}, {})", all[i].0, all[j].0);
                c.trivial("pairs of masking scalars compared");
            }
        }
        c.obs("freshness", b"f");
        Ok(())
    });
}

fn enc_le82(x: &BigUint) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    v.resize(82, 0);
    v
}
pub fn p04(ctx: &Ctx) {
    pool(ctx);
    // any affine points: the codecs must not depend on what the points are
    fn some_point(c: &mut Case, e: &Cv, k: usize) -> (F2, F2) {
        match k % 4 {
            0 => (edge_f2(&mut c.rng).0, edge_f2(&mut c.rng).0),
            1 => (F2::rand(&mut c.rng), edge_f2(&mut c.rng).0),
            _ => e.rand_point(&mut c.rng).unwrap(),
        }
    }
    fn rep(rng: &mut ChaCha8Rng, q: &(F2, F2)) -> Point {
        let z = rand_z(rng);
        point_z(&cv(&Cv { a: F2::u(6) }), &Some(*q), &z)
    }
    fn scalar(rng: &mut ChaCha8Rng) -> (BigUint, &'static str) {
        match below(rng, 9) {
            0 => (bu(0), "0"),
            1 => (bu(1), "1"),
            2 => ((bu(1) << 634) - 1u32, "2^634-1"),
            3 => ((bu(1) << 633) + 1u32, "2^633+1"),
            4 => (bu(below(rng, 1 << 20)), "small"),
            5 => ((bu(1) << 656) - 1u32, "82 bytes"),
            6 => {
                let n = 8 * (1 + below(rng, 79)) as usize;
                (rand_below(rng, &(bu(1) << n)), "short")
            }
            7 => (rand_below(rng, &(bu(1) << 300usize)) << 320usize, "low zero bytes"),
            _ => (rand_below(rng, &two_l()), "random"),
        }
    }
    ctx.cases("secret_key", ctx.n(150, 2000), |c| {
        for _ in 0..4 {
            let e = if c.idx % 3 == 0 { Cv { a: edge_f2(&mut c.rng).0 } } else { pick(ctx, &mut c.rng) };
            if e.a.sq().sub(&F2::u(4)).is_zero() {
                continue;
            }
            let k = c.idx;
            let q: Vec<(F2, F2)> = (0..4).map(|i| some_point(c, &e, if k % 3 == 0 { i } else { 2 })).collect();
            let ((a11, n1), (a22, n2)) = (scalar(&mut c.rng), scalar(&mut c.rng));
            let P: Vec<Point> = q.iter().map(|x| rep(&mut c.rng, x)).collect();
            let sk = SecretKey::new(&cv(&e), &(P[0], P[1]), &(P[2], P[3]), &(a11.clone(), a22.clone()));
            let b = sk.encode();
            // fixed layout: A, then the four points' x,y, then both scalars on 82 bytes, all little-endian
            let mut want = e.a.enc();
            for x in &q {
                want.extend(x.0.enc());
                want.extend(x.1.enc());
            }
            want.extend(enc_le82(&a11));
            want.extend(enc_le82(&a22));
            ensure!(b == want, "secret key encoding differs from the documented fixed layout (scalars {n1},{n2}; lengths {} {})", b.len(), want.len());
            for (w, s) in [("original", &sk), ("decoded", &SecretKey::decode(&b))] {
                let (E, (p1, p2), (p3, p4), (x, y)) = s.extract();
                ensure!(f2(&E.get_constant()) == e.a, "{w} secret key: curve changed");
                for (i, pp) in [p1, p2, p3, p4].iter().enumerate() {
                    ensure!(pt(pp) == Some(q[i]), "{w} secret key: point {i} changed: {} want {}", showp(&pt(pp)), showp(&Some(q[i])));
                }
                ensure!(x == a11 && y == a22, "{w} secret key: scalars changed ({n1},{n2}): {x} {y} want {a11} {a22}");
                ensure!(s.encode() == b, "{w} secret key: encoding is not stable");
            }
            c.obs(&format!("sk {n1},{n2}"), &b);
        }
        Ok(())
    });
    ctx.cases("output", ctx.n(150, 2000), |c| {
        for _ in 0..4 {
            let es: Vec<Cv> = (0..2).map(|_| pick(ctx, &mut c.rng)).collect();
            let k = c.idx;
            let q: Vec<(F2, F2)> = (0..4).map(|i| some_point(c, &es[i / 2], if k % 2 == 0 { i } else { 2 })).collect();
            let P: Vec<Point> = q.iter().map(|x| rep(&mut c.rng, x)).collect();
            let o = TrapdoorOutput::new(&cv(&es[0]), &P[0], &P[1], &cv(&es[1]), &P[2], &P[3]);
            let b = o.encode();
            let mut want = es[0].a.enc();
            for (i, x) in q.iter().enumerate() {
                if i == 2 {
                    want.extend(es[1].a.enc());
                }
                want.extend(x.0.enc());
                want.extend(x.1.enc());
            }
            ensure!(b == want, "output encoding differs from the fixed layout (lengths {} {})", b.len(), want.len());
            for (w, s) in [("original", &o), ("decoded", &TrapdoorOutput::decode(&b))] {
                let (E1, p1, p2, E2, p3, p4) = s.extract();
                ensure!(f2(&E1.get_constant()) == es[0].a && f2(&E2.get_constant()) == es[1].a, "{w} output: curve changed");
                for (i, pp) in [p1, p2, p3, p4].iter().enumerate() {
                    ensure!(pt(pp) == Some(q[i]), "{w} output: point {i} changed: {} want {}", showp(&pt(pp)), showp(&Some(q[i])));
                }
                ensure!(s.encode() == b, "{w} output: encoding is not stable");
            }
            c.obs("output", &b);
        }
        Ok(())
    });
    ctx.cases("containers", ctx.n(60, 600), |c| {
        for _ in 0..6 {
            let e = pick(ctx, &mut c.rng);
            let (q, r) = (e.rand_point(&mut c.rng).unwrap(), e.rand_point(&mut c.rng).unwrap());
            let pk = PublicKey::new(&cv(&e), &rep(&mut c.rng, &q), &rep(&mut c.rng, &r));
            let (E, a, b) = pk.extract();
            ensure!(f2(&E.get_constant()) == e.a && pt(&a) == Some(q) && pt(&b) == Some(r), "public key components changed");
            let (m, parts, n) = { let k = below(&mut c.rng, 400) as usize; gen_input(&mut c.rng, k) };
            ensure!(m.extract() == parts, "trapdoor input components changed ({n})");
            // equality of inputs is equality of all four components
            let mut o = parts.clone();
            let which = below(&mut c.rng, 5);
            match which {
                0 => o.0 += 1u32,
                1 => o.1 += 1u32,
                2 => o.2 .0 += 2u32,
                3 => o.2 .1 += 2u32,
                _ => {}
            }
            ensure!((m == TrapdoorInput::new(&o.0, &o.1, &o.2)) == (which == 4), "equality of trapdoor inputs ignores component {which}");
            c.obs(&format!("container variant {which}"), format!("{m}").as_bytes());
        }
        Ok(())
    });
}
