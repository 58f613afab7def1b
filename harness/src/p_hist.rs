//! Histories over the curve, torsion, isogeny, pairing and logarithm functions: every operation of a random sequence
//! (run in one thread, next to other sequences) must give what it gives in a process of its own.
#![allow(non_snake_case)]
use crate::ensure;
use crate::conv::*;
use crate::oracle::*;
use crate::p_curve::*;
use crate::rt::*;
use festa_rs::discrete_log::*;
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTAExt::*;
use festa_rs::pairing::*;
use festa_rs::supersingular::*;
use num_bigint::BigUint;
use rand_chacha::ChaCha8Rng;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

type Fo = Vec<(u32, u32)>;
fn fo_str(f: &Fo) -> String {
    f.iter().map(|(l, e)| format!("{l}^{e}")).collect::<Vec<_>>().join(".")
}
fn fo_parse(s: &str) -> Fo {
    s.split('.').map(|x| x.split_once('^').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn put(v: &mut String, q: &Point) {
    if q.isinfinity() != 0 {
        v.push_str(" O");
        return;
    }
    let (x, y) = q.to_xy();
    v.push_str(&format!(" {} {}", hexs(&x.encode()), hexs(&y.encode())));
}
/// kind, curve coefficient, order, two numbers
pub fn exec(line: &str) -> String {
    if line.starts_with('@') {
        return exec2(line);
    }
    let t: Vec<&str> = line.split(' ').collect();
    let (a, ok) = Fp2::decode(&unhex(t[1]));
    assert!(ok == u32::MAX, "harness: bad curve in a history line");
    let E = Curve::new(&a);
    let fo = fo_parse(t[2]);
    let d = prod_factored(&fo);
    let n = |i: usize| -> BigUint { t[i].parse().unwrap() };
    let us = |i: usize| -> usize { t[i].parse().unwrap() };
    let v2 = 634 - fo.iter().filter(|x| x.0 == 2).map(|x| x.1).sum::<u32>() as usize;
    let mut v = String::new();
    match t[0] {
        "basis" => {
            let (P, Q) = torsion_basis(&E, &fo, us(3) % (v2 + 1));
            put(&mut v, &P);
            put(&mut v, &Q);
        }
        "point" => put(&mut v, &generate_point_order_factored_D(&E, &fo, us(3) % (v2 + 1))),
        "entangled" => {
            let (P, Q) = entangled_torsion_basis(&E, &((p() + 1u32) >> us(3)));
            put(&mut v, &P);
            put(&mut v, &Q);
        }
        "order" => {
            let P = generate_point_order_factored_D(&E, &fo, v2);
            let Q = E.mul_big(&P, &n(3));
            v = format!("{} {}", point_has_factored_order(&E, &P, &fo), point_has_factored_order(&E, &Q, &fo));
        }
        "chain" => {
            let (ch, c) = isogeny_from_scalar_x_only(&E, &fo, &(n(3) % &d), None);
            let (c2, im) = evaluate_isogeny_chain(&E, &E.iter().next().unwrap(), &ch);
            let (x, z) = im.to_xz();
            v = format!("{} {} {}", hexs(&c.get_constant().encode()), hexs(&c2.get_constant().encode()), hexs(&(x / z).encode()));
        }
        "kernel" => {
            let (P, Q) = torsion_basis(&E, &fo, 634);
            let K = E.add(&P, &E.mul_big(&Q, &(n(3) % &d)));
            v = format!("{}", compute_canonical_kernel(&E, &K, &E.mul_big(&K, &n(4)), &fo, None));
        }
        "pairing" => {
            let (P, Q) = torsion_basis(&E, &fo, v2);
            let (R, S) = (E.add(&P, &E.mul_big(&Q, &n(3))), E.mul_big(&Q, &n(4)));
            v = format!("{} {}", hexs(&weil_pairing(&E, &R, &S, &d).encode()), hexs(&weil_pairing(&E, &S, &P, &d).encode()));
        }
        "log" => {
            let (P, Q) = torsion_basis(&E, &fo, v2);
            let R = E.add(&E.mul_big(&P, &n(3)), &E.mul_big(&Q, &n(4)));
            let e = weil_pairing(&E, &P, &Q, &d);
            v = format!("{:?} {:?} {}", bidlp(&E, &R, &P, &Q, &fo, None), bidlp(&E, &R, &P, &Q, &fo, Some(e)), ph_dlp(&e.pow(&[3], 2), &e, &fo));
        }
        "iter" => {
            for q in E.iter().take(us(3) % 4 + 1) {
                put(&mut v, &q);
            }
        }
        "mul" => {
            let P = E.iter().next().unwrap();
            put(&mut v, &E.mul_big(&P, &n(3)));
            put(&mut v, &E.mul_small(&P, us(4) as u64));
        }
        "crt" => {
            let rem: Vec<BigUint> = fo.iter().map(|(l, e)| n(3) % BigUint::from(*l).pow(*e)).collect();
            v = format!("{} {}", compute_crt(&rem, &fo), xgcd_big(&(n(4) % &d), &d));
        }
        // calls outside their contract: whatever they do, later calls must not notice
        "bad" => {
            let P = E.iter().next().unwrap();
            match us(3) % BAD.len() {
                0 => drop(bsgs(&Fq::THREE, &-Fq::ONE, 2)),
                1 => drop(ph_dlp(&Fq::THREE, &-Fq::ONE, &[(2, 1)])),
                2 => drop(entangled_torsion_basis(&Curve::new(&Fq::ZERO), &(p() >> 634u32))),
                3 => drop(KummerLineIsogeny::new(&E, &Point::INFINITY, 3)),
                4 => drop(CurveIsomorphism::new(&E, &Curve::new(&(E.get_constant() + Fq::ONE))).eval(&P)),
                5 => drop(weil_pairing(&E, &P, &E.mul_small(&P, 3), &BigUint::from(11u32))),
                6 => drop(compute_crt(&vec![BigUint::from(1u32)], &[(3, 1), (5, 1)])),
                7 => drop(isogeny_from_scalar_x_only(&E, &[], &n(4), Some((P, P)))),
                8 => drop(bidlp(&E, &P, &P, &P, &[(3, 1)], None)),
                9 => drop(compute_canonical_kernel(&E, &Point::INFINITY, &Point::INFINITY, &fo, Some((Point::INFINITY, Point::INFINITY)))),
                10 => drop(factored_kummer_isogeny(&E, &P, &[(3, 1), (5, 2)])),
                _ => drop(festa_rs::festa::SecretKey::decode(&vec![1u8; 40])),
            }
        }
        x => panic!("harness: unknown operation {x}"),
    }
    v
}
/// For each call outside its contract, an operation over the same code.
const BAD: [&str; 12] = ["log", "log", "entangled", "chain", "mul", "pairing", "crt", "chain", "log", "kernel", "chain", "basis"];
pub fn child() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    install_panic_hook();
    if let Some(l) = s.strip_prefix("!trapdoor\n") {
        return forked(l.lines().map(|x| x.to_string()).collect());
    }
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || guarded(|| exec(s.trim_end())).unwrap_or_else(|e| e)).unwrap();
    println!("{}", h.join().unwrap());
}
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn pthread_self() -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
    fn usleep(us: u32) -> i32;
    fn __errno_location() -> *mut i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
extern "C" fn nap(_: i32) {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    unsafe {
        let e = __errno_location();
        let v = *e;
        usleep(60 + (n.wrapping_mul(2654435761) >> 7) as u32 % 2900);
        *e = v;
    }
}
/// Each line in a process of its own; the parameters are set up once, before the first of them starts.
fn forked(lines: Vec<String>) {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        if guarded(|| crate::p_trapdoor::festa()).is_err() {
            std::process::exit(9);
        }
        for l in lines {
            unsafe {
                let pid = fork();
                if pid == 0 {
                    let g = guarded(|| exec(&l)).unwrap_or_else(|e| e).replace('\n', " ");
                    println!("{g}");
                    std::io::stdout().flush().ok();
                    _exit(0);
                }
                let mut st = 0;
                if pid < 0 || waitpid(pid, &mut st, 0) != pid || st != 0 {
                    std::process::exit(9);
                }
            }
        }
    }).unwrap();
    h.join().unwrap();
}
fn alone_all(lines: &[String]) -> Result<Vec<String>, String> {
    let o = alone(&format!("!trapdoor\n{}", lines.join("\n")))?;
    let v: Vec<String> = o.lines().map(|x| x.to_string()).collect();
    if v.len() != lines.len() {
        return Err(format!("harness: the child gave {} lines for {}", v.len(), lines.len()));
    }
    Ok(v)
}
fn alone(line: &str) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new(exe).arg("hist").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("harness: cannot start a child: {e}"))?;
    c.stdin.take().unwrap().write_all(line.as_bytes()).map_err(|e| format!("harness: {e}"))?;
    let o = c.wait_with_output().map_err(|e| format!("harness: {e}"))?;
    let s = String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string();
    if !o.status.success() || s.contains("harness: ") {
        return Err(format!("harness: the child failed on '{line}': {s}"));
    }
    Ok(s)
}
/// Orders that agree in length, in primes or in bits, so that anything remembered under too short a key shows.
fn orders(rng: &mut ChaCha8Rng) -> Vec<Fo> {
    let small: [(u32, u32); 9] = [(3, 6), (19, 2), (29, 2), (5, 4), (7, 3), (11, 2), (3, 1), (5, 1), (2, 20)];
    let mut v = Vec::new();
    for _ in 0..2 {
        let k = 1 + below(rng, 3) as usize;
        for _ in 0..2 {
            let mut f: Fo = Vec::new();
            while f.len() < k {
                let (l, e) = small[below(rng, small.len() as u64) as usize];
                if f.iter().all(|x| x.0 != l) {
                    f.push((l, 1 + below(rng, e as u64) as u32));
                }
            }
            v.push(f);
        }
    }
    // the same primes in another order, and with other exponents
    let mut f = v[0].clone();
    f.reverse();
    v.push(f);
    let f = v[1].iter().map(|(l, e)| (*l, if *e > 1 { e - 1 } else { 1 })).collect();
    v.push(f);
    v
}
fn num(rng: &mut ChaCha8Rng) -> BigUint {
    match below(rng, 4) {
        0 => BigUint::from(below(rng, 4)),
        1 => BigUint::from(below(rng, 1 << 20)),
        _ => big_bits(rng, 300),
    }
}
fn big_bits(rng: &mut ChaCha8Rng, k: u64) -> BigUint {
    let mut b = vec![0u8; (k / 8) as usize];
    rand_core::RngCore::fill_bytes(rng, &mut b);
    BigUint::from_bytes_le(&b)
}
pub fn histories(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("histories", ctx.n(24, 240), |c| {
        let r = &mut c.rng;
        let curves = [pick(ctx, r), pick(ctx, r), Cv { a: F2::u(6) }];
        let fos = orders(r);
        let odd: Vec<&Fo> = fos.iter().filter(|f| f.iter().all(|x| x.0 != 2)).collect();
        let kinds = ["basis", "basis", "point", "entangled", "order", "chain", "kernel", "pairing", "log", "iter", "mul", "crt"];
        let mut lines: Vec<String> = Vec::new();
        let focus = kinds[below(r, kinds.len() as u64) as usize];
        for j in 0..14 {
            if j > 2 && below(r, 5) == 0 {
                let k = below(r, lines.len() as u64) as usize;
                lines.push(lines[k].clone());
                continue;
            }
            let mut k = if below(r, 3) == 0 { focus } else { kinds[below(r, kinds.len() as u64) as usize] };
            if below(r, 6) == 0 {
                let b = if j == 13 { 0 } else { below(r, BAD.len() as u64) as usize };
                lines.push(format!("bad {} {} {b} {}", hexs(&curves[0].a.enc()), fo_str(&fos[0]), num(r)));
                k = BAD[b];
            }
            let a = curves[below(r, 3) as usize].a.enc();
            let mut fo = &fos[below(r, fos.len() as u64) as usize];
            if k == "chain" || k == "kernel" {
                if odd.is_empty() {
                    k = "basis";
                } else {
                    fo = odd[below(r, odd.len() as u64) as usize];
                }
            }
            let (x, y) = match k {
                "basis" | "point" => (BigUint::from(if below(r, 2) == 0 { 634 } else { below(r, 635) }), num(r)),
                "entangled" => (BigUint::from(if below(r, 2) == 0 { 634 } else { 600 + below(r, 35) }), num(r)),
                "iter" => (BigUint::from(below(r, 4)), num(r)),
                "mul" => (num(r), BigUint::from(below(r, 1 << 40))),
                _ => (num(r), num(r)),
            };
            lines.push(format!("{k} {} {} {x} {y}", hexs(&a), fo_str(fo)));
        }
        let got: Vec<String> = lines.iter().map(|l| guarded(|| exec(l)).unwrap_or_else(|e| e)).collect();
        let mut seen: std::collections::HashMap<&str, String> = Default::default();
        for (j, l) in lines.iter().enumerate() {
            let k = l.split(' ').next().unwrap();
            if k == "bad" {
                c.obs("history: call outside its contract", format!("{j}{l}").as_bytes());
                continue;
            }
            if !seen.contains_key(l.as_str()) {
                seen.insert(l, alone(l)?);
            }
            let want = &seen[l.as_str()];
            if *want != got[j] {
                let sh = |s: &str| s.chars().take(160).collect::<String>();
                return Err(format!("operation {j} of a sequence in one thread, '{l}', gives '{}' but '{}' in a process of its own; before it: {}", sh(&got[j]), sh(want),
                    lines[..j].iter().map(|x| { let t: Vec<&str> = x.split(' ').collect(); format!("{} {}.. {} {}", t[0], &t[1][..8], t[2], t[3]) }).collect::<Vec<_>>().join("; ")));
            }
            c.obs(&format!("history: {k}"), format!("{j}{l}").as_bytes());
        }
        c.sample("history", || lines.iter().map(|x| { let t: Vec<&str> = x.split(' ').collect(); format!("{} {}.. {}", t[0], &t[1][..6], t[2]) }).collect::<Vec<_>>().join("; "));
        Ok(())
    });
}

/// An operation with every argument spelled out, so that nothing else is called on the way to it.
#[derive(Clone, PartialEq)]
struct Op {
    kind: &'static str,
    a: Vec<Cv>,
    f: Fo,
    n: Vec<BigUint>,
    p: Vec<Pt>,
    v: Vec<F2>,
    b: Vec<Vec<u8>>,
}
impl Op {
    fn line(&self) -> String {
        let mut s = format!("@{}", self.kind);
        for a in &self.a {
            s += &format!(" a={}", hexs(&a.a.enc()));
        }
        if !self.f.is_empty() {
            s += &format!(" f={}", fo_str(&self.f));
        }
        for n in &self.n {
            s += &format!(" n={n}");
        }
        for p in &self.p {
            match p {
                None => s += " p=O",
                Some((x, y)) => s += &format!(" p={},{}", hexs(&x.enc()), hexs(&y.enc())),
            }
        }
        for v in &self.v {
            s += &format!(" v={}", hexs(&v.enc()));
        }
        for b in &self.b {
            s += &format!(" b={}", hexs(b));
        }
        s
    }
}
fn el(s: &str) -> Fp2 {
    let (x, ok) = Fp2::decode(&unhex(s));
    assert!(ok == u32::MAX, "harness: bad element in a history line");
    x
}
fn exec2(line: &str) -> String {
    let (mut a, mut f, mut n, mut p, mut w, mut bytes) = (vec![], vec![], Vec::<BigUint>::new(), vec![], vec![], vec![]);
    let mut it = line.split(' ');
    let kind = &it.next().unwrap()[1..];
    for t in it {
        let (k, x) = t.split_once('=').unwrap();
        match k {
            "a" => a.push(Curve::new(&el(x))),
            "f" => f = fo_parse(x),
            "n" => n.push(x.parse().unwrap()),
            "v" => w.push(el(x)),
            "b" => bytes.push(unhex(x)),
            _ => p.push(if x == "O" {
                Point::INFINITY
            } else {
                let (x, y) = x.split_once(',').unwrap();
                Point::new_xy(&el(x), &el(y))
            }),
        }
    }
    let h = |x: &Fp2| hexs(&x.encode());
    let E = a.first().copied().unwrap_or(Curve::new(&(Fq::TWO + Fq::FOUR)));
    let mut v = String::new();
    match kind {
        "weil" => v = h(&weil_pairing(&E, &p[0], &p[1], &n[0])),
        "tate" => v = h(&tate_pairing(&E, &p[0], &p[1], &n[0])),
        "log" => v = format!("{:?}", bidlp(&E, &p[0], &p[1], &p[2], &f, None)),
        "logp" => v = format!("{:?}", bidlp(&E, &p[0], &p[1], &p[2], &f, Some(w[0]))),
        "canon" => v = format!("{}", compute_canonical_kernel(&E, &p[0], &p[1], &f, Some((p[2], p[3])))),
        "scalar" => {
            let (ch, c) = isogeny_from_scalar_x_only(&E, &f, &n[0], Some((p[0], p[1])));
            v = format!("{} {}", ch.len(), h(&c.get_constant()));
        }
        "chain" => {
            let ch = factored_kummer_isogeny(&E, &p[0], &f);
            let (c, q) = evaluate_isogeny_chain(&E, &p[1], &ch);
            v = h(&c.get_constant());
            let (x, z) = q.to_xz();
            v += &h(&(x / z));
        }
        "images" => {
            let ch = factored_kummer_isogeny(&E, &p[0], &f);
            let (c, (q, r)) = evaluate_isogeny_chain_for_basis(&E, &(p[1], p[2]), &ch, &n[0], &n[1]);
            // (q, r) is defined up to one sign
            v = format!("{} {:?}", h(&c.get_constant()), [sx(&q), sx(&r), sx(&c.add(&q, &r)), sx(&c.sub(&q, &r))]);
        }
        "ord" => v = format!("{}", point_has_factored_order(&E, &p[0], &f)),
        "vord" => v = format!("{}", has_factored_order(w[0], &f)),
        "phdlp" => v = format!("{}", ph_dlp(&w[0], &w[1], &f)),
        "clear" => put(&mut v, &clear_cofactor(&E, &p[0], &n[0], n[1].iter_u64_digits().next().unwrap_or(0) as usize % 635)),
        "isom" => put(&mut v, &CurveIsomorphism::new(&E, &a[1]).eval(&p[0])),
        "mul" => put(&mut v, &E.mul_big(&p[0], &n[0])),
        "muls" => put(&mut v, &E.mul_small(&p[0], n[0].iter_u64_digits().next().unwrap_or(0))),
        "add" => put(&mut v, &E.add(&p[0], &p[1])),
        "complete" => {
            let (q, ok) = E.complete_pointX(&PointX::new_xz(&w[0], &w[1]));
            v = format!("{ok:x}");
            put(&mut v, &q);
        }
        "root" => v = format!("{:?} {:?}", { let (x, o) = w[0].sqrt(); (h(&x), o) }, { let (x, o) = w[0].fourth_root(); (h(&x), o) }),
        "div" => v = format!("{} {} {}", h(&(w[0] / w[1])), h(&w[1].invert()), h(&w[0].pow_big(&n[0]))),
        "prod" => {
            let k = n[0].iter_u64_digits().next().unwrap() as usize;
            let st: Vec<usize> = bytes[0].iter().map(|x| *x as usize).collect();
            let c = |i: usize| CouplePoint::new(&p[2 * i], &p[2 * i + 1]);
            let ims: Vec<CouplePoint> = (0..p.len() / 2).map(c).collect();
            let (cod, im) = festa_rs::thetaFESTA::product_isogeny(&EllipticProduct::new(&E, &a[1]), &c(0), &c(1), &ims, k, &st);
            let (x, y) = cod.curves();
            v = format!("{} {}", h(&x.get_constant()), h(&y.get_constant()));
            for q in im {
                let (x, y) = q.points();
                v += &format!(" {} {}", sx(&x), sx(&y));
            }
        }
        "teval" => {
            use festa_rs::festa::*;
            let m = TrapdoorInput::new(&n[0], &n[1], &(n[2].clone(), n[3].clone()));
            v = hexs(&crate::p_trapdoor::festa().trapdoor_eval(&PublicKey::new(&E, &p[0], &p[1]), &m).encode());
        }
        "tkey" => {
            getrandom::stub_set_thread_seed(n[0].iter_u64_digits().next().unwrap_or(0));
            let (p, s) = crate::p_trapdoor::festa().keygen();
            let (E, R, S) = p.extract();
            v = format!("{} {}", hexs(&s.encode()), h(&E.get_constant()));
            put(&mut v, &R);
            put(&mut v, &S);
        }
        "tinv" => {
            use festa_rs::festa::*;
            v = format!("{}", crate::p_trapdoor::festa().trapdoor_inverse(&TrapdoorOutput::decode(&bytes[1]), &SecretKey::decode(&bytes[0])));
        }
        x => panic!("harness: unknown operation {x}"),
    }
    v
}
/// Runs `f(thread, call number, state, milliseconds)` over and over in `nt` threads for `secs` seconds, with delays at
/// arbitrary instructions: every `us` microseconds a signal makes one of the threads sleep where it is.
fn storm(nt: usize, secs: u64, us: u64, seed: u64, f: &(dyn Fn(usize, usize, &mut u64, u64) -> Option<String> + Sync)) -> Result<(usize, usize), String> {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
    let bad: std::sync::Mutex<Option<String>> = Default::default();
    let (done, delays, stop) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicBool::new(false));
    let tids: std::sync::Mutex<Vec<usize>> = Default::default();
    let t0 = std::time::Instant::now();
    unsafe {
        signal(12, nap as *const () as usize);
    }
    std::thread::scope(|s| {
        for t in 0..nt {
            let (bad, done, stop, tids) = (&bad, &done, &stop, &tids);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                tids.lock().unwrap().push(unsafe { pthread_self() });
                let (mut n, mut last) = (0, 0);
                while !stop.load(Relaxed) {
                    if let Some(e) = f(t, n, &mut last, t0.elapsed().as_millis() as u64) {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    n += 1;
                }
                done.fetch_add(n, Relaxed);
            }).expect("harness: cannot start a thread");
        }
        let mut x = seed | 1;
        while t0.elapsed().as_secs() < secs && bad.lock().unwrap().is_none() {
            std::thread::sleep(std::time::Duration::from_micros(us));
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            let v = tids.lock().unwrap();
            if v.len() == nt {
                unsafe {
                    pthread_kill(v[(x >> 20) as usize % nt], 12);
                }
                delays.fetch_add(1, Relaxed);
            }
        }
        // no thread ends before the last signal is sent
        stop.store(true, Relaxed);
    });
    match bad.into_inner().unwrap() {
        Some(b) => Err(b),
        None => Ok((done.into_inner(), delays.into_inner())),
    }
}
/// Calls of a few quick operations from more threads than there are cores, each result compared with that of the same
/// operation in a process of its own.
pub fn races(ctx: &Ctx) {
    let kinds = ["basis", "@weil", "point", "@log", "chain", "@prod", "kernel", "@images", "log", "@root", "iter", "@isom", "pairing", "@clear", "order", "@canon"];
    ctx.cases_t("races", ctx.n(kinds.len(), 8 * kinds.len()), 1, |c| {
        let r = &mut c.rng;
        let k = kinds[c.idx % kinds.len()];
        let mut lines: Vec<String> = vec![];
        if let Some(k) = k.strip_prefix('@') {
            let base = base_kind(ctx, r, k);
            lines.push(base.line());
            for _ in 0..2 {
                lines.push(sibling(r, &base).line());
            }
            lines.push(base_kind(ctx, r, k).line());
        } else {
            let l = [3u32, 5, 7, 11][below(r, 4) as usize];
            for j in 0..4 {
                let e = pick(ctx, r);
                let f = if j < 2 { vec![(l, 1)] } else { vec![([3u32, 5, 7, 11][below(r, 4) as usize], 1)] };
                lines.push(format!("{k} {} {} {} {}", hexs(&e.a.enc()), fo_str(&f), if k == "iter" { 3 } else { 634 }, below(r, 1 << 20)));
            }
        }
        let want: Vec<String> = lines.iter().map(|l| alone(l)).collect::<Result<_, _>>()?;
        // the slow kinds get more time
        let slow = ["basis", "point", "entangled", "order"].contains(&k);
        let secs = if ctx.thorough { 10 } else { 2 };
        let (calls, delays) = storm(12, secs, if slow { 2500 } else { 500 }, below(r, 1 << 62), &|t, n, last, ms| {
            // half of the threads stay on one operation for a while, so that a remembered answer is also used
            if t % 2 == 0 {
                *last = ms / 8;
            }
            let i = (t + if t % 2 == 0 { *last as usize } else { n * (1 + t % 3) }) % lines.len();
            let g = guarded(|| exec(&lines[i])).unwrap_or_else(|e| e);
            let sh = |s: &str| s.chars().take(160).collect::<String>();
            (g != want[i]).then(|| format!("'{}', run next to other calls in 12 threads, gives '{}' but '{}' in a process of its own", lines[i], sh(&g), sh(&want[i])))
        })?;
        for (i, l) in lines.iter().enumerate() {
            c.obs(&format!("concurrent calls: {k}"), format!("{i}{l}").as_bytes());
        }
        c.sample("races", || format!("{k}: {calls} calls in 12 threads, {delays} injected delays"));
        Ok(())
    });
}
enum Out {
    P(Point, Point),
    F(Fq, Fq, Fq),
}
fn raw(x: &Point) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x as *const Point as *const u8, std::mem::size_of::<Point>()) }
}
/// The same with nothing but the call and a comparison of the bytes of its result in the loop, so that calls answered from
/// memory come in quick succession.
pub fn spins(ctx: &Ctx) {
    let kinds = ["basis", "point", "entangled", "weil", "chain"];
    ctx.cases_t("spins", ctx.n(kinds.len(), 4 * kinds.len()), 1, |c| {
        let k = kinds[c.idx % kinds.len()];
        let r = &mut c.rng;
        let l = [3u32, 5, 7][below(r, 3) as usize];
        let es = [pick(ctx, r), pick(ctx, r)];
        let mut jobs: Vec<(Box<dyn Fn() -> Out + Sync + Send>, String)> = vec![];
        let n = 2 + c.idx / kinds.len() % 2;
        for j in 0..n {
            let E = cv(&es[j % 2]);
            let fo = if j < 2 { vec![(l, 1)] } else { vec![(11, 1)] };
            let line = |k: &str| format!("{k} {} {} 634 0", hexs(&es[j % 2].a.enc()), fo_str(&fo));
            let f2_ = fo.clone();
            let cof = (p() + 1u32) >> 634;
            jobs.push(match k {
                "basis" => (Box::new(move || { let (p, q) = torsion_basis(&E, &f2_, 634); Out::P(p, q) }), line("basis")),
                "point" => (Box::new(move || { let p = generate_point_order_factored_D(&E, &f2_, 634); Out::P(p, p) }), line("point")),
                "entangled" => (Box::new(move || { let (x, y) = entangled_torsion_basis(&E, &cof); Out::P(x, y) }), line("entangled")),
                _ => {
                    let (q, w) = torsion_basis(&E, &fo, 634);
                    crate::p_trapdoor::check_basis(r, &es[j % 2], &pt(&q), &pt(&w), &fo, "oracle: basis")?;
                    if k == "weil" {
                        let o = Op { kind: "weil", a: vec![es[j % 2].clone()], f: vec![], n: vec![BigUint::from(fo[0].0)], p: vec![pt(&q), pt(&w)], v: vec![], b: vec![] };
                        let n = BigUint::from(fo[0].0);
                        (Box::new(move || { let z = weil_pairing(&E, &q, &w, &n); Out::F(z, z, z) }), o.line())
                    } else {
                        let o = Op { kind: "chain", a: vec![es[j % 2].clone()], f: fo.clone(), n: vec![], p: vec![pt(&q), pt(&w)], v: vec![], b: vec![] };
                        (Box::new(move || {
                            let ch = factored_kummer_isogeny(&E, &q, &f2_);
                            let (d, x) = evaluate_isogeny_chain(&E, &w, &ch);
                            let (x, z) = x.to_xz();
                            Out::F(d.get_constant(), x, z)
                        }), o.line())
                    }
                }
            });
        }
        // each result on its own, which must be the one of a process of its own
        let mut want: Vec<Out> = vec![];
        for (f, l) in &jobs {
            let w = alone(l)?;
            let g = guarded(|| exec(l)).unwrap_or_else(|e| e);
            ensure!(g == w, "'{}' gives '{}' but '{}' in a process of its own", l, g, w);
            want.push(guarded(f)?);
        }
        let same = |x: &Out, y: &Out| match (x, y) {
            (Out::P(a, b), Out::P(c, d)) => (raw(a) == raw(c) || a.equals(c) != 0) && (raw(b) == raw(d) || b.equals(d) != 0),
            (Out::F(a, b, c), Out::F(x, y, z)) => a.equals(x) != 0 && (b * z).equals(&(c * y)) != 0,
            _ => false,
        };
        let secs = if ctx.thorough { 20 } else { 7 };
        let (calls, delays) = storm(12, secs, 1200, below(r, 1 << 62), &|t, n, _, _| {
            // half of the threads stay on one operation
            let i = if t % 2 == 0 { t / 2 % jobs.len() } else { n % jobs.len() };
            match guarded(|| (jobs[i].0)()) {
                Ok(g) if same(&g, &want[i]) => None,
                Ok(_) => Some(format!("'{}', called next to other calls in 12 threads, gives another result than in a process of its own", jobs[i].1)),
                Err(e) => Some(format!("'{}', called next to other calls in 12 threads, {e}", jobs[i].1)),
            }
        })?;
        for (_, l) in &jobs {
            c.obs(&format!("concurrent calls, tight: {k}"), l.as_bytes());
        }
        c.sample("spins", || format!("{k}: {calls} calls in 12 threads, {delays} injected delays"));
        Ok(())
    });
}
/// A call in a thread of its own.
pub fn fresh(l: &str) -> String {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || guarded(|| exec(l)).unwrap_or_else(|e| e)).unwrap().join().unwrap()).replace('\n', " ")
}
/// The lines of standard input one after the other, each in a thread of its own, or (par) twice in eight threads.
pub fn batch(par: bool) {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    install_panic_hook();
    let ls: Vec<&str> = s.lines().collect();
    if !par {
        for l in ls {
            println!("{}", fresh(l));
        }
        return;
    }
    if ls.iter().any(|l| l.starts_with("!t")) {
        crate::p_trapdoor::festa();
    }
    let out: Vec<std::sync::Mutex<String>> = ls.iter().map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (ls, out) = (&ls, &out);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                for k in 0..ls.len() {
                    // each line starts in two threads at about the same time
                    let i = (k + t / 2 * ls.len() / 4) % ls.len();
                    if ls[i].starts_with("!t") && t > 3 {
                        continue;
                    }
                    let g = guarded(|| exec(ls[i])).unwrap_or_else(|e| e).replace('\n', " ");
                    *out[i].lock().unwrap() = g;
                }
            }).unwrap();
        }
    });
    for o in out {
        println!("{}", o.into_inner().unwrap());
    }
}
/// Calls of every kind, all arguments given.
pub fn lines(ctx: &Ctx, r: &mut ChaCha8Rng, per: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..per {
        let k = below(r, KINDS.len() as u64) as usize;
        for j in [0, 7, 13] {
            v.push(base_op(ctx, r, k + j).line());
        }
        let kinds = ["basis", "point", "entangled", "order", "kernel", "iter", "crt", "log"];
        let k = kinds[below(r, 8) as usize];
        let e = pick(ctx, r);
        let fo: Fo = [vec![(3, 6), (19, 2)], vec![(5, 4), (7, 3)], vec![(11, 2), (3, 1)], vec![(29, 2)], vec![(3, 6), (5, 4), (7, 3), (11, 2), (13, 2)]][below(r, 5) as usize].clone();
        v.push(format!("{k} {} {} {} {}", hexs(&e.a.enc()), fo_str(&fo), if k == "iter" { 3 } else { 634 }, num(r)));
    }
    v
}
pub fn trapdoor_lines(ctx: &Ctx, c: &mut Case, all: bool) -> Result<Vec<String>, String> {
    use crate::p_trapdoor::*;
    let k = key(ctx, c.idx % 4)?;
    let (E, R, S) = k.0.extract();
    let m = gen_input(&mut c.rng, c.idx).1;
    let ev = Op { kind: "teval", a: vec![Cv { a: f2(&E.get_constant()) }], f: vec![], n: vec![m.0.clone(), m.1.clone(), m.2 .0.clone(), m.2 .1.clone()], p: vec![pt(&R), pt(&S)], v: vec![], b: vec![] };
    let mut v = vec![ev.line()];
    if all {
        let out = festa().trapdoor_eval(&k.0, &festa_rs::festa::TrapdoorInput::new(&m.0, &m.1, &m.2)).encode();
        v.push(Op { kind: "tinv", a: vec![], f: vec![], n: vec![], p: vec![], v: vec![], b: vec![k.1.encode(), out] }.line());
        v.push(Op { kind: "tkey", a: vec![], f: vec![], n: vec![bu(below(&mut c.rng, 1 << 60))], p: vec![], v: vec![], b: vec![] }.line());
    }
    Ok(v)
}
/// Trapdoor calls that share one argument with an earlier one, next to calls with other keys.
pub fn trapdoor(ctx: &Ctx) {
    use crate::p_trapdoor::*;
    ctx.cases("trapdoor_siblings", ctx.n(3, 24), |c| {
        let keys = [key(ctx, c.idx % 4)?, key(ctx, (c.idx + 1) % 4)?];
        let ev = |k: usize, m: &(BigUint, BigUint, (BigUint, BigUint))| {
            let (E, R, S) = keys[k].0.extract();
            Op { kind: "teval", a: vec![Cv { a: f2(&E.get_constant()) }], f: vec![], n: vec![m.0.clone(), m.1.clone(), m.2 .0.clone(), m.2 .1.clone()], p: vec![pt(&R), pt(&S)], v: vec![], b: vec![] }
        };
        let a = gen_input(&mut c.rng, 3 * c.idx).1;
        let b = gen_input(&mut c.rng, 3 * c.idx + 1).1;
        let ms = [(a.0.clone(), b.1.clone(), b.2.clone()), (b.0.clone(), a.1.clone(), b.2.clone()), (b.0.clone(), b.1.clone(), a.2.clone())];
        let mut ops = vec![(ev(0, &a), "evaluation"), (ev(1, &a), "the same input, another key"), (ev(0, &ms[below(&mut c.rng, 3) as usize]), "one number of the input kept"), (ev(1, &ms[1]), "the same second scalar")];
        // the library's own outputs, which are compared with those of other processes below
        let out: Vec<Vec<u8>> = (0..2).map(|k| festa().trapdoor_eval(&keys[k].0, &festa_rs::festa::TrapdoorInput::new(&a.0, &a.1, &a.2)).encode()).collect();
        let inv = |k: usize, o: usize| Op { kind: "tinv", a: vec![], f: vec![], n: vec![], p: vec![], v: vec![], b: vec![keys[k].1.encode(), out[o].clone()] };
        ops.push((inv(0, 0), "inversion"));
        ops.push((inv(0, 1), "inversion with the wrong key"));
        ops.push((inv(1, 1), "inversion with the other key"));
        for i in (1..ops.len()).rev() {
            if below(&mut c.rng, 2) == 0 {
                ops.swap(i, i - 1);
            }
        }
        let mut before = String::new();
        let lines: Vec<String> = ops.iter().map(|x| x.0.line()).collect();
        let want = std::thread::scope(|s| {
            let h = s.spawn(|| alone_all(&lines));
            let got: Vec<String> = lines.iter().map(|l| guarded(|| exec(l)).unwrap_or_else(|e| e).replace('\n', " ")).collect();
            h.join().unwrap().map(|w| (got, w))
        });
        let (got, want) = want?;
        for (((_, n), l), (g, w)) in ops.iter().zip(&lines).zip(got.iter().zip(&want)) {
            if *n != "inversion with the wrong key" && g != w {
                let sh = |s: &str| s.chars().take(160).collect::<String>();
                return Err(format!("trapdoor {n} gives '{}' but '{}' in a process of its own; before it, in this thread: {before}", sh(&g), sh(&w)));
            }
            before += n;
            before += "; ";
            c.obs(&format!("trapdoor: {n}"), l.as_bytes());
        }
        Ok(())
    });
}
fn sx(q: &Point) -> String {
    let (x, z) = q.to_xz();
    if z.iszero() != 0 { "O".into() } else { hexs(&(x / z).encode()) }
}
/// (x, y) -> (-x, iy): the curve with the opposite coefficient
fn flip(o: &Op) -> Op {
    let mut r = o.clone();
    for a in r.a.iter_mut() {
        a.a = a.a.neg();
    }
    for p in r.p.iter_mut() {
        *p = p.map(|(x, y)| (x.neg(), y.mul(&F2::i())));
    }
    r
}
fn base_op(ctx: &Ctx, r: &mut ChaCha8Rng, idx: usize) -> Op {
    let kinds = KINDS;
    base_kind(ctx, r, kinds[idx % kinds.len()])
}
const KINDS: [&str; 20] = ["weil", "tate", "log", "logp", "canon", "scalar", "chain", "images", "ord", "vord", "phdlp", "clear", "isom", "mul", "muls", "add", "complete", "root", "div", "prod"];
fn base_kind(ctx: &Ctx, r: &mut ChaCha8Rng, kind: &str) -> Op {
    let kind = *KINDS.iter().find(|x| **x == kind).expect("harness: kind");
    let e = pick(ctx, r);
    let mut o = Op { kind, a: vec![e], f: vec![], n: vec![], p: vec![], v: vec![], b: vec![] };
    let small: [(u32, u32); 8] = [(3, 6), (19, 2), (29, 2), (5, 4), (7, 3), (11, 2), (13, 2), (17, 2)];
    let mut f: Fo = vec![];
    while f.len() < 2 {
        let (l, m) = small[below(r, 8) as usize];
        if f.iter().all(|x| x.0 != l) {
            f.push((l, 1 + below(r, m as u64) as u32));
        }
    }
    let d = prod_factored(&f);
    // an independent pair of order d
    let basis = |r: &mut ChaCha8Rng| -> (Pt, Pt) {
        let p = e.rand_order(r, &f);
        loop {
            let q = e.rand_order(r, &f);
            let ok = f.iter().all(|(l, m)| {
                let c = &d / BigUint::from(*l).pow(*m) * BigUint::from(*l).pow(*m - 1);
                let (s, t) = (e.mul(&p, &c), e.mul(&q, &c));
                (0..*l as u64).all(|k| e.mulu(&s, k) != t)
            });
            if ok {
                return (p, q);
            }
        }
    };
    let fin = |r: &mut ChaCha8Rng| F2::rand(r);
    match kind {
        "weil" | "tate" => {
            let (p, q) = basis(r);
            o.p = vec![p, if below(r, 4) == 0 { e.add(&p, &q) } else { q }];
            o.n = vec![d];
        }
        "log" | "logp" => {
            let (p, q) = basis(r);
            let x = e.add(&e.mul(&p, &rand_below(r, &d)), &e.mul(&q, &rand_below(r, &d)));
            o.p = vec![x, p, q];
            if kind == "logp" {
                o.v = vec![e.weil(r, &p, &q, &d)];
            }
            o.f = f;
        }
        "canon" => {
            let (p, q) = basis(r);
            let i = e.add(&e.mul(&p, &rand_below(r, &d)), &e.mul(&q, &bu(1)));
            o.p = vec![i, e.mul(&i, &rand_below(r, &d)), p, q];
            o.f = f;
        }
        "scalar" => {
            let (p, q) = basis(r);
            o.p = vec![p, q];
            o.n = vec![rand_below(r, &d)];
            o.f = f;
        }
        "chain" => {
            o.p = vec![e.rand_order(r, &f), e.rand_point(r)];
            o.f = f;
        }
        "images" => {
            let two = crate::p_trapdoor::two_basis(r, &e);
            let h = bu(1) << 600u32;
            o.p = vec![e.rand_order(r, &f), e.mul(&two.0, &h), e.mul(&two.1, &h)];
            o.n = vec![bu(1) << 34u32, d];
            o.f = f;
        }
        "ord" => {
            o.p = vec![e.rand_order(r, &f)];
            o.f = f;
        }
        "vord" | "phdlp" => {
            let (p, q) = basis(r);
            let z = e.weil(r, &p, &q, &d);
            o.v = vec![z.pow(&rand_below(r, &d)), z];
            if kind == "vord" {
                o.v.truncate(1);
            }
            o.f = f;
        }
        "clear" => {
            o.p = vec![e.rand_point(r)];
            o.n = vec![d, bu(below(r, 635))];
        }
        "isom" => {
            o.a.push(Cv { a: e.a.neg() });
            o.p = vec![e.rand_point(r)];
        }
        "mul" | "muls" => {
            o.p = vec![e.rand_point(r)];
            o.n = vec![num(r)];
        }
        "add" => o.p = vec![e.rand_point(r), e.rand_point(r)],
        "prod" => {
            let sp = loop {
                let sp = &crate::p_theta::splits()[below(r, crate::p_theta::splits().len() as u64) as usize];
                if sp.n <= 14 {
                    break sp;
                }
            };
            let i = crate::p_theta::instance(r, e, sp);
            o.a = vec![i.e1, i.e2];
            o.p = vec![i.k1.0, i.k1.1, i.k2.0, i.k2.1, i.e1.rand_point(r), i.e2.rand_point(r)];
            o.n = vec![bu(sp.n as u64)];
            o.b = vec![crate::p_theta::rand_strategy(r, sp.n, 3).iter().map(|x| *x as u8).collect()];
        }
        "complete" => o.v = vec![e.rand_point(r).unwrap().0, F2::one()],
        _ => {
            o.v = vec![fin(r).sq().sq(), fin(r)];
            o.n = vec![num(r)];
        }
    }
    o
}
/// Variants that differ from the operation in a single argument (or are its image on the opposite model), most of them
/// sharing whatever a shortened memory of the last call would compare.
fn sibling(r: &mut ChaCha8Rng, o: &Op) -> Op {
    loop {
        let mut s = o.clone();
        let e = o.a[0];
        if o.kind == "prod" {
            // other evaluated points, the exchanged kernel generators, another strategy, a strategy that ends too early
            let f = o.a[1];
            match below(r, 6) {
                0 => s.p[4] = e.mulu(&o.p[4], 2),
                1 => s.p[5] = f.add(&o.p[5], &o.p[1]),
                2 => s.p = vec![o.p[2], o.p[3], o.p[0], o.p[1], o.p[4], o.p[5]],
                3 => s.b[0] = crate::p_theta::rand_strategy(r, o.n[0].iter_u64_digits().next().unwrap() as usize, 3).iter().map(|x| *x as u8).collect(),
                4 => s.b[0].truncate(1),
                _ => s = flip(o),
            }
            if s != *o {
                return s;
            }
            continue;
        }
        match below(r, 9) {
            0 => s = flip(o),
            1 | 2 | 3 if !o.p.is_empty() => {
                let k = below(r, o.p.len() as u64) as usize;
                // the kernel of a chain keeps its order
                let ker = matches!(o.kind, "chain" | "images") && k == 0;
                s.p[k] = match below(r, if ker { 2 } else { 6 }) {
                    0 => Cv::neg(&o.p[k]),
                    1 => e.mulu(&o.p[k], 2),
                    2 => None,
                    3 => o.p[below(r, o.p.len() as u64) as usize],
                    4 => e.add(&o.p[k], &o.p[below(r, o.p.len() as u64) as usize]),
                    _ => e.mulu(&o.p[k], 5),
                };
            }
            4 if o.p.len() > 1 && !matches!(o.kind, "chain" | "images") => {
                let k = o.p.len() - 2;
                s.p.swap(k, k + 1);
            }
            5 | 6 if !o.n.is_empty() => {
                let k = below(r, o.n.len() as u64) as usize;
                let one = bu(1);
                s.n[k] = match below(r, 6) {
                    0 => &o.n[k] + &one,
                    1 => &o.n[k] + (one << 64u32),
                    2 => &o.n[k] + (one << 32u32),
                    3 => &o.n[k] * 3u32,
                    4 => &o.n[k] & &bu(u64::MAX),
                    _ => (&o.n[k] << 8u32) >> 9u32,
                };
                if matches!(o.kind, "weil" | "tate" | "images") && s.n[k] < bu(2) {
                    continue;
                }
            }
            7 if !o.f.is_empty() => match below(r, 3) {
                0 => s.f.reverse(),
                // a smaller order: only where any order makes sense
                1 if matches!(o.kind, "ord" | "vord") => {
                    s.f.pop();
                }
                2 if matches!(o.kind, "ord" | "vord") => s.f[0].1 += 1,
                _ => {}
            },
            8 if !o.v.is_empty() => {
                let k = below(r, o.v.len() as u64) as usize;
                s.v[k] = match below(r, 5) {
                    0 => o.v[k].conj(),
                    1 => o.v[k].neg(),
                    2 => o.v[k].sq(),
                    3 if !matches!(o.kind, "phdlp" | "logp") => F2(o.v[k].0, F2::rand(r).1),
                    _ => o.v[k].mul(&o.v[k]).mul(&o.v[k]),
                };
                if o.kind == "phdlp" || o.kind == "logp" {
                    // the logarithm keeps an answer
                    s.v[k] = [o.v[k].conj(), o.v[k].sq(), o.v[k].pow(&bu(32))][below(r, 3) as usize];
                }
            }
            _ => {}
        }
        if s != *o {
            return s;
        }
    }
}
pub fn siblings(ctx: &Ctx) {
    pool(ctx);
    ctx.cases("siblings", ctx.n(76, 760), |c| {
        let r = &mut c.rng;
        let base = base_op(ctx, r, c.idx);
        let mut ops = vec![base.clone()];
        for _ in 0..6 {
            ops.push(sibling(r, &base));
        }
        let lines: Vec<String> = ops.iter().map(|x| x.line()).collect();
        // base, s1, base, s2, ...: each one follows a call that shares all but one argument with it
        let mut order = vec![0];
        for k in 1..lines.len() {
            order.push(k);
            if k % 2 == 0 {
                order.push(0);
            }
        }
        let got: Vec<String> = order.iter().map(|k| guarded(|| exec(&lines[*k])).unwrap_or_else(|e| e)).collect();
        let mut want: Vec<Option<String>> = vec![None; lines.len()];
        for (j, k) in order.iter().enumerate() {
            if want[*k].is_none() {
                want[*k] = Some(alone(&lines[*k])?);
            }
            let w = want[*k].as_ref().unwrap();
            if *w != got[j] {
                let sh = |s: &str| s.chars().take(160).collect::<String>();
                return Err(format!("call {j} of a sequence in one thread, '{}', gives '{}' but '{}' in a process of its own; the call before it: '{}'", lines[*k], sh(&got[j]), sh(w), if j > 0 { &lines[order[j - 1]] } else { "none" }));
            }
            c.obs(&format!("siblings: {}", base.kind), lines[*k].as_bytes());
        }
        c.sample("siblings", || order.iter().map(|k| lines[*k].chars().take(60).collect::<String>()).collect::<Vec<_>>().join("; "));
        Ok(())
    });
}
