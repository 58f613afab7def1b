//! P24 (public parameters) and P25 (history- and schedule-independence).
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::p_curve::*;
use crate::p_theta::*;
use crate::p_trapdoor::*;
use crate::rt::*;
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::*;
use festa_rs::festa::*;
use festa_rs::supersingular::*;
use festa_rs::thetaFESTA::*;
use num_bigint::BigUint;
use rand_chacha::rand_core::RngCore;
use std::sync::Mutex;

fn is_prime_small(x: u32) -> bool {
    x >= 2 && (2..).take_while(|d: &u64| d * d <= x as u64).all(|d| x as u64 % d != 0)
}
fn miller_rabin(n: &BigUint, base: &BigUint) -> bool {
    let one = bu(1);
    let nm = n - 1u32;
    let s = nm.trailing_zeros().unwrap();
    let d = &nm >> s;
    let mut x = base.modpow(&d, n);
    if x == one || x == nm {
        return true;
    }
    for _ in 1..s {
        x = &x * &x % n;
        if x == nm {
            return true;
        }
    }
    false
}
/// Does a strategy list drive a chain of n steps: replay the bookkeeping on kernel multiples.
/// The recursive shape: split n leaves into (n-b, b).
fn strategy_len(s: &[usize], n: usize) -> Result<usize, String> {
    if n == 1 {
        return Ok(0);
    }
    if s.is_empty() {
        return Err("the strategy ends too early".into());
    }
    let b = s[0];
    if b == 0 || b >= n {
        return Err(format!("step {b} inside a subtree of {n} leaves"));
    }
    let l = strategy_len(&s[1..], n - b)?;
    let r = strategy_len(&s[1 + l..], b)?;
    Ok(1 + l + r)
}

pub fn p24(ctx: &Ctx) {
    let g = |x: &[u32]| BigUint::from_slice(x);
    ctx.cases("integers", 1, |c| {
        let p1 = g(&BASIS_ORDER);
        ensure!(g(&BIGUINT_MODULUS) + 1u32 == p1, "BASIS_ORDER is not the modulus plus one");
        ensure!(limbs_to_big(&Fp::MODULUS) == g(&BIGUINT_MODULUS), "the two published moduli differ");
        ensure!(&g(&BIGUINT_MODULUS) == p(), "the field modulus changed");
        ensure!(Fp::BIT_LENGTH as u64 == p().bits() && Fp::N == 21 && Fp::ENCODED_LENGTH == (p().bits() as usize + 7) / 8 && Fq::ENCODED_LENGTH == 2 * Fp::ENCODED_LENGTH, "field size constants are inconsistent");
        c.obs("modulus", b"modulus");
        ensure!((&p1 % (bu(1) << L_POWER)) == bu(0), "2^{L_POWER} does not divide p+1");
        ensure!(L_POWER == THETA_ISOGENY_LENGTH + 2, "the chain length is not the 2-power minus two");
        c.obs("powers", b"powers");
        let lists: [(&str, &[(u32, u32)], BigUint, u32); 5] = [
            ("D1", &D1_FACTORED, g(&D1), 1),
            ("D2", &D2_FACTORED, g(&D2), 1),
            ("DA", &DA_FACTORED, g(&DA), 1),
            ("DA1", &DA1_FACTORED, g(&DA1), 2),
            ("DA2", &DA2_FACTORED, g(&DA2), 2),
        ];
        for (n, f, v, e) in &lists {
            ensure!(&prod_factored(f).pow(*e) == v, "{n} is not the product of its factors (power {e})");
            for (i, (l, m)) in f.iter().enumerate() {
                ensure!(*m > 0 && *l % 2 == 1 && is_prime_small(*l), "{n} lists {l}^{m}");
                ensure!(f[..i].iter().all(|x| x.0 != *l), "{n} lists {l} twice");
                c.obs("factor", format!("{n} {l}").as_bytes());
            }
            let f1 = prod_factored(f);
            // DA only ever occurs as a degree, through its two square roots DA1, DA2
            ensure!(*n == "DA" || (&p1 % &f1) == bu(0), "the {n} torsion is not rational");
        }
        let (d1, d2, da1, da2) = (&lists[0].2, &lists[1].2, &lists[3].2, &lists[4].2);
        ensure!(lists[2].2 == da1 * da2, "DA is not DA1*DA2");
        for (i, a) in [d1, d2, da1, da2].iter().enumerate() {
            for b in [d1, d2, da1, da2].iter().skip(i + 1) {
                ensure!(gcd(a, b) == bu(1), "two of the isogeny degrees share a factor");
            }
        }
        let (m1, m2) = (g(&M1), g(&M2));
        ensure!(&m1 * &m1 * d1 * da1 + &m2 * &m2 * d2 * da2 == bu(1) << THETA_ISOGENY_LENGTH, "m1^2 d1 dA1 + m2^2 d2 dA2 != 2^{THETA_ISOGENY_LENGTH}");
        c.obs("equation", b"eq");
        Ok(())
    });
    ctx.cases("primality", 40, |c| {
        let b = if c.idx < 12 { bu([2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37][c.idx]) } else { rand_below(&mut c.rng, p()) };
        if b > bu(1) {
            ensure!(miller_rabin(&g(&BIGUINT_MODULUS), &b), "the modulus is composite: base {b}");
            c.obs("strong pseudoprime base", &b.to_bytes_le());
        }
        Ok(())
    });
    ctx.cases("strategy", 1, |c| {
        let n = THETA_ISOGENY_LENGTH as usize;
        let used = strategy_len(&THETA_STRATEGY, n)?;
        ensure!(used == THETA_STRATEGY.len() && used == n - 1, "the strategy has {} entries, {used} are used", THETA_STRATEGY.len());
        // replay the level bookkeeping of a chain run
        let (mut level, mut k) = (vec![0usize], 0);
        for step in 0..n {
            let mut s: usize = level.iter().sum();
            while s != n - 1 - step {
                ensure!(k < THETA_STRATEGY.len() && s < n, "the strategy does not reach step {step}");
                level.push(THETA_STRATEGY[k]);
                s += THETA_STRATEGY[k];
                k += 1;
            }
            level.pop();
            c.obs("chain step", &step.to_le_bytes());
        }
        ensure!(k == THETA_STRATEGY.len(), "unused strategy entries");
        Ok(())
    });
    ctx.cases("curve", 8, |c| {
        // E0: y^2 = x^3+6x^2+x is supersingular with group (Z/(p+1))^2, and the basis orders divide it
        let e0 = Cv { a: F2::u(6) };
        let q = e0.rand_point(&mut c.rng);
        ensure!(e0.mul(&q, &g(&BASIS_ORDER)).is_none(), "a point of the starting curve is not killed by the basis order");
        c.obs("point of E0", &Cv::pt_key(&q));
        Ok(())
    });
}

type Job = Box<dyn Fn(&FESTACrypto) -> Vec<u8> + Send + Sync>;

pub fn p25(ctx: &Ctx) {
    pool(ctx);
    crate::p_hist::histories(ctx);
    crate::p_hist::siblings(ctx);
    crate::p_hist::trapdoor(ctx);
    crate::p_hist::races(ctx);
    crate::p_hist::spins(ctx);
    let shared = festa();
    let rounds = ctx.n(1, 6);
    ctx.cases_t("schedules", rounds, 1, |c| {
        std::thread::scope(|s| {
            for t in 0..2 {
                let i = (c.idx + t) % 4;
                s.spawn(move || {
                    let _ = key(ctx, i);
                });
            }
        });
        let (pk, sk) = key(ctx, c.idx % 4)?;
        let (pk2, sk2) = key(ctx, (c.idx + 1) % 4)?;
        // jobs over the whole public surface
        let mut jobs: Vec<(String, Job)> = Vec::new();
        {
            let (m, _, n) = gen_input(&mut c.rng, 7 * c.idx);
            let out = shared.trapdoor_eval(pk, &m);
            let b = out.encode();
            jobs.push((format!("evaluation {n}"), Box::new(move |f| f.trapdoor_eval(pk, &m).encode())));
            jobs.push((format!("inversion {n}"), Box::new(move |f| format!("{}", f.trapdoor_inverse(&TrapdoorOutput::decode(&b), sk)).into_bytes())));
        }
        {
            // evaluation under another key, interleaved with the first
            let (m, _, n) = gen_input(&mut c.rng, 3 + c.idx);
            let out = shared.trapdoor_eval(pk2, &m);
            jobs.push((format!("evaluation, other key {n}"), Box::new(move |f| f.trapdoor_eval(pk2, &m).encode())));
            jobs.push(("inversion, other key".into(), Box::new(move |f| format!("{}", f.trapdoor_inverse(&out, sk2)).into_bytes())));
        }
        // a ciphertext for another key: whatever happens (including a panic) must not affect later calls
        {
            let (m, _, _) = gen_input(&mut c.rng, 5);
            let out = shared.trapdoor_eval(pk2, &m);
            jobs.push(("inversion under the wrong key".into(), Box::new(move |f| match guarded(|| f.trapdoor_inverse(&out, sk)) {
                Ok(x) => format!("{x}").into_bytes(),
                Err(_) => b"panicked".to_vec(),
            })));
        }
        for t in 0..1u64 {
            let seed = c.rng.next_u64() | 1;
            jobs.push((format!("key generation {t}"), Box::new(move |f| {
                std::thread::scope(|s| s.spawn(|| {
                    getrandom::stub_set_thread_seed(seed);
                    let (pk, sk) = f.keygen();
                    let (E, R, S) = pk.extract();
                    let mut v = E.get_constant().encode().to_vec();
                    for q in [R, S] {
                        let (x, y) = q.to_xy();
                        v.extend(x.encode());
                        v.extend(y.encode());
                    }
                    v.extend(sk.encode());
                    v
                }).join().unwrap_or_else(|_| b"key generation panicked".to_vec()))
            })));
        }
        for _ in 0..2 {
            let e = pick(c.ctx, &mut c.rng);
            let E = cv(&e);
            jobs.push(("torsion bases".into(), Box::new(move |_| {
                let mut v = vec![];
                for (a, b) in [torsion_basis(&E, &D1_FACTORED, 634), torsion_basis(&E, &DA1_FACTORED, 634)] {
                    for q in [a, b] {
                        let (x, y) = q.to_xy();
                        v.extend(x.encode());
                        v.extend(y.encode());
                    }
                }
                v
            })));
            let sp = &splits()[below(&mut c.rng, splits().len() as u64) as usize];
            let i = instance(&mut c.rng, e, sp);
            let (E1, E2) = (cv(&i.e1), cv(&i.e2));
            let (K1, K2) = (couple(&E1, &E2, &i.k1.0, &i.k1.1, &mut c.rng), couple(&E1, &E2, &i.k2.0, &i.k2.1, &mut c.rng));
            let st = rand_strategy(&mut c.rng, sp.n, 3);
            let n = sp.n;
            jobs.push(("product isogeny".into(), Box::new(move |_| {
                let (cod, im) = product_isogeny(&EllipticProduct::new(&E1, &E2), &K1, &K2, &[K1, K2], n, &st);
                let (a, b) = cod.curves();
                let mut v = a.get_constant().encode().to_vec();
                v.extend(b.get_constant().encode());
                for q in im {
                    let (x, y) = q.points();
                    for z in [x, y] {
                        let (x, y) = z.to_xy();
                        v.extend(x.encode());
                        v.extend(y.encode());
                    }
                }
                v
            })));
        }
        let nj = jobs.len();
        let run = |f: &FESTACrypto, j: usize| guarded(|| jobs[j].1(f)).unwrap_or_else(|e| e.into_bytes());
        // reference: every job alone, on its own new instance and its own new thread
        let reference: Vec<Mutex<Vec<u8>>> = (0..nj).map(|_| Mutex::new(vec![])).collect();
        // (a) concurrent, all on the shared instance, several threads walking the jobs in different orders
        let orders: Vec<Vec<usize>> = (0..8)
            .map(|t| {
                let mut o: Vec<usize> = (0..nj).collect();
                for i in (1..nj).rev() {
                    o.swap(i, below(&mut c.rng, i as u64 + 1) as usize);
                }
                // every job is some thread's second one, after something else
                let k = o.iter().position(|x| *x == (t + 1) % nj).unwrap();
                o.swap(1, k);
                o.truncate(3);
                o
            })
            .collect();
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let seen: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(vec![]);
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            let next = &next;
            let reference = &reference;
            let run = &run;
            let hs: Vec<_> = (0..8).map(|_| s.spawn(move || loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if j >= nj { break; }
                let r = std::thread::scope(|s2| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s2, || run(&FESTACrypto::new(), j)).unwrap().join().unwrap());
                *reference[j].lock().unwrap() = r;
            })).collect();
            for h in hs { let _ = h.join(); }
        });
        let refs: Vec<Vec<u8>> = reference.iter().map(|r| r.lock().unwrap().clone()).collect();
        std::thread::scope(|s| {
            for (t, o) in orders.iter().enumerate() {
                let (bad, seen, refs, run, jobs) = (&bad, &seen, &refs, &run, &jobs);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut hist = String::new();
                    for &j in o {
                        let v = run(shared, j);
                        if v != refs[j] {
                            let mut b = bad.lock().unwrap();
                            if b.is_none() {
                                *b = Some(format!("'{}' on the shared instance in thread {t} after [{hist}] gives a different result than alone on a new instance ({} vs {} bytes: {} / {})", jobs[j].0, v.len(), refs[j].len(),
                                    String::from_utf8_lossy(&v).chars().take(200).collect::<String>().replace('\u{0}', ""), String::from_utf8_lossy(&refs[j]).chars().take(200).collect::<String>().replace('\u{0}', "")));
                            }
                            return;
                        }
                        hist.push_str(&jobs[j].0);
                        hist.push_str("; ");
                        seen.lock().unwrap().push((jobs[j].0.split(' ').next().unwrap().to_string(), format!("{t} {hist}").into_bytes()));
                    }
                }).unwrap();
            }
        });
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        for (n, k) in seen.into_inner().unwrap() {
            c.obs(&n, &k);
        }
        c.sample("order", || orders.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "));
        Ok(())
    });
}
