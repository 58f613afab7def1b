//! P27 and P28: the same calls in other builds of the library: interpreted by Miri, instrumented by AddressSanitizer and
//! ThreadSanitizer, optimised without assertions, with the processor's extensions, and (interpreted) for other targets.
#![allow(non_snake_case)]
use crate::conv::*;
use crate::ensure;
use crate::oracle::*;
use crate::p_curve::*;
use crate::p_hist;
use crate::rt::*;
use std::io::Write;
use std::process::{Command, Stdio};

const SECTIONS: [&str; 15] = ["extroot", "root", "torsion", "threads", "keys", "theta", "points", "mul", "affine", "ext", "extdiv", "div", "codec", "modular", "ring"];
/// Native Miri target and flags with full checking.
const HOST: &str = "x86_64-unknown-linux-gnu";

fn dir() -> String {
    verif_dir()
}
fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect::<String>().replace('\n', " | ")
}
struct Run {
    out: String,
    err: String,
    ok: bool,
}
fn run(c: &mut Command, input: &str) -> Result<Run, String> {
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("harness: {e}"))?;
    let mut w = ch.stdin.take().unwrap();
    let t = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = w.write_all(t.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| format!("harness: {e}"))?;
    let _ = h.join();
    Ok(Run { out: String::from_utf8_lossy(&o.stdout).to_string(), err: String::from_utf8_lossy(&o.stderr).to_string(), ok: o.status.success() })
}
fn miri(target: &str, full: bool, seed: u64, args: &[String]) -> Result<Run, String> {
    let flags = format!(
        "-Zmiri-ignore-leaks -Zmiri-seed={seed}{}",
        if full { "" } else { " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-weak-memory-emulation" }
    );
    run(Command::new("cargo")
        .args(["miri", "run", "--quiet", "--offline", "--target", target, "--"])
        .args(args)
        .current_dir(format!("{}/portable", dir()))
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("CARGO_TARGET_DIR", format!("{}/portable/target", dir()))
        .env("XDG_CACHE_HOME", format!("{}/portable/target/{target}", dir()))
        .env("MIRIFLAGS", flags)
        .env_remove("RUSTFLAGS"), "")
}
fn native(args: &[String]) -> Result<String, String> {
    let r = run(Command::new(format!("{}/portable/target/debug/portmon", dir())).args(args), "")?;
    if !r.ok || !r.out.ends_with("END\n") {
        return Err(format!("{} {} fails in a native build: {}", args[0], args[2], cut(&r.err, 600)));
    }
    Ok(r.out)
}
/// Arguments of the interpreted program; points and roots of unity come from the oracle.
fn args(ctx: &Ctx, c: &mut Case, section: &str, n: usize) -> Vec<String> {
    let mut v = vec![section.to_string(), below(&mut c.rng, 1 << 40).to_string(), n.to_string()];
    if section == "torsion" {
        let r = &mut c.rng;
        let e = pick(ctx, r);
        let l = if ctx.thorough { [3u32, 5, 7][below(r, 3) as usize] } else { 3 };
        let p = e.rand_order(r, &[(l, 1)]);
        let q = loop {
            let q = e.rand_order(r, &[(l, 1)]);
            if (0..l as u64).all(|k| e.mulu(&p, k) != q) {
                break q;
            }
        };
        v.push(hexs(&e.a.enc()));
        v.push(l.to_string());
        for x in [p, q] {
            let (x, y) = x.unwrap();
            v.push(hexs(&x.enc()));
            v.push(hexs(&y.enc()));
        }
        v.push(hexs(&e.weil(r, &p, &q, &bu(l as u64)).enc()));
    }
    v
}
/// The first line in which two outputs differ.
fn differ(a: &str, b: &str) -> Option<String> {
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut k = 0;
    loop {
        match (x.next(), y.next()) {
            (None, None) => return None,
            (s, t) if s == t => k += 1,
            (s, t) => return Some(format!("line {k}: '{}' and '{}'", cut(s.unwrap_or("nothing"), 300), cut(t.unwrap_or("nothing"), 300))),
        }
    }
}
/// Builds for the target; an error in the library's own code for one target only is a finding.
fn warm(target: &str, full: bool) -> Res {
    let r = miri(target, full, 0, &["ring".into(), "1".into(), "0".into()])?;
    if !r.ok {
        if r.err.contains("could not compile `festa_rs`") {
            return Err(format!("the library does not compile for {target}: {}", cut(r.err.split("error").nth(1).unwrap_or(""), 600)));
        }
        if !r.err.contains("Undefined Behavior") && !r.err.contains("panicked") {
            return Err(format!("harness: Miri does not run for {target}: {}", cut(&r.err, 800)));
        }
    }
    Ok(())
}
/// The report of an interpreted run, if there is one. Operations the interpreter does not support are not judged.
fn judge(r: &Run, what: &str) -> Result<bool, String> {
    if r.ok {
        return Ok(true);
    }
    let at = r.err.find("error").unwrap_or(0);
    if r.err.contains("Undefined Behavior") || r.err.contains("Data race detected") {
        return Err(format!("{what}: {}", cut(&r.err[at..], 1200)));
    }
    if r.err.contains("unsupported operation") {
        return Ok(false);
    }
    if r.err.contains("panicked") || r.err.contains("abnormal termination") {
        return Err(format!("{what}: {}", cut(&r.err, 1200)));
    }
    Err(format!("harness: {what}: {}", cut(&r.err, 1200)))
}

/// Calls with every argument given, over all kinds of operation, and without arguments that only the library can supply.
fn lines(ctx: &Ctx, c: &mut Case, per: usize) -> Vec<String> {
    p_hist::lines(ctx, &mut c.rng, per)
}

pub fn p27(ctx: &Ctx) {
    pool(ctx);
    // Miri on the host, with everything it checks
    if let Err(e) = warm(HOST, true) {
        panic!("{e}");
    }
    std::thread::scope(|t| {
        t.spawn(|| interpreted(ctx));
        sanitized(ctx);
    });
}
fn interpreted(ctx: &Ctx) {
    let rounds = ctx.n(2, 24);
    ctx.cases_t("interpreted", rounds * SECTIONS.len(), 7, |c| {
        let s = SECTIONS[c.idx % SECTIONS.len()];
        let n = match s {
            "torsion" => [3, 1, 2, 0][(c.idx / SECTIONS.len()) % 4],
            "codec" | "ring" | "modular" => 4,
            "div" | "affine" | "extdiv" => 2,
            "points" => 4,
            "extroot" if !ctx.thorough => return Ok(()),
            // the long ones once
            "root" | "keys" | "theta" if c.idx >= SECTIONS.len() && !ctx.thorough => return Ok(()),
            _ => 1,
        };
        let a = args(ctx, c, s, n);
        if std::env::var_os("VMON_TIME").is_some() {
            eprintln!("{}", a.join(" "));
        }
        let want = native(&a)?;
        let r = miri(HOST, true, c.idx as u64 + 1, &a)?;
        if !judge(&r, &format!("portmon {} under Miri", a[..3].join(" ")))? {
            c.trivial("not interpretable");
            return Ok(());
        }
        if let Some(d) = differ(&want, &r.out) {
            return Err(format!("portmon {}: native code and the interpreter give different results, {d}", a[..3].join(" ")));
        }
        for (i, l) in r.out.lines().enumerate() {
            c.obs(&format!("Miri: {s}: {}", l.split(' ').next().unwrap_or("")), format!("{i}{l}").as_bytes());
        }
        c.sample("interpreted", || format!("{}: {} operations", a[..3].join(" "), r.out.lines().count()));
        Ok(())
    });
}
fn sanitized(ctx: &Ctx) {
    // AddressSanitizer on whole operations
    let asan = format!("{}/harness/target/asan/{HOST}/debug/vmon", dir());
    ctx.cases_t("asan", ctx.n(48, 480), 3, |c| {
        let ls = lines(ctx, c, 3);
        let r = run(Command::new(&asan).arg("histb").env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1"), &ls.join("\n"))?;
        sane(&r, &ls, "AddressSanitizer")?;
        for (l, o) in ls.iter().zip(r.out.lines()) {
            c.obs(&format!("AddressSanitizer: {}", l.split(' ').next().unwrap()), format!("{l}{o}").as_bytes());
        }
        Ok(())
    });
    ctx.cases_t("asan_trapdoor", ctx.n(1, 4), 2, |c| {
        let ls = p_hist::trapdoor_lines(ctx, c, true)?;
        let r = run(Command::new(&asan).arg("histb").env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1"), &ls.join("\n"))?;
        sane(&r, &ls, "AddressSanitizer")?;
        for (l, o) in ls.iter().zip(r.out.lines()) {
            c.obs(&format!("AddressSanitizer: {}", l.split(' ').next().unwrap()), format!("{l}{o}").as_bytes());
        }
        Ok(())
    });
    // ThreadSanitizer on operations run next to each other
    let tsan = format!("{}/harness/target/tsan/{HOST}/debug/vmon", dir());
    ctx.cases_t("tsan", ctx.n(4, 48), 2, |c| {
        let mut ls = lines(ctx, c, 1);
        // the last ones share an instance
        if c.idx == 1 {
            ls.truncate(6);
            ls.extend(p_hist::trapdoor_lines(ctx, c, false)?.into_iter().take(2));
        }
        let r = run(Command::new(&tsan).arg("histp").env("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:report_signal_unsafe=0"), &ls.join("\n"))?;
        sane(&r, &ls, "ThreadSanitizer")?;
        for (l, o) in ls.iter().zip(r.out.lines()) {
            c.obs(&format!("ThreadSanitizer: {}", l.split(' ').next().unwrap()), format!("{l}{o}").as_bytes());
        }
        Ok(())
    });
}
fn sane(r: &Run, ls: &[String], tool: &str) -> Res {
    let at = r.err.find("WARNING: ThreadSanitizer").or(r.err.find("ERROR: AddressSanitizer")).or(r.err.find("SUMMARY:"));
    if let Some(at) = at {
        return Err(format!("{tool} reports after '{}': {}", cut(ls.get(r.out.lines().count()).map_or("", |x| x), 100), cut(&r.err[at..], 1500)));
    }
    if r.err.contains("unsafe precondition") || r.err.contains("misaligned pointer dereference") {
        return Err(format!("{}: {}", cut(ls.get(r.out.lines().count()).map_or("", |x| x), 100), cut(&r.err, 1000)));
    }
    if !r.ok || r.out.lines().count() != ls.len() {
        return Err(format!("harness: the build for {tool} fails: {}", cut(&r.err, 800)));
    }
    Ok(())
}

pub fn p28(ctx: &Ctx) {
    pool(ctx);
    let targets = ["aarch64-unknown-linux-gnu", "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"];
    for t in targets {
        if let Err(e) = warm(t, false) {
            panic!("{e}");
        }
    }
    std::thread::scope(|t| {
        t.spawn(|| other_targets(ctx, &targets));
        other_builds(ctx);
    });
}
fn other_targets(ctx: &Ctx, targets: &[&str]) {
    let per = SECTIONS.len() * targets.len();
    ctx.cases_t("targets", ctx.n(1, 16) * per, 7, |c| {
        let s = SECTIONS[c.idx / targets.len() % SECTIONS.len()];
        let t = targets[c.idx % targets.len()];
        let n = match s {
            "torsion" => [1, 2, 3, 0][(c.idx + c.idx / per) % if ctx.thorough { 4 } else { 3 }],
            "codec" | "ring" | "modular" => 4,
            "div" | "affine" | "extdiv" => 2,
            "points" => 4,
            "extroot" if !ctx.thorough => return Ok(()),
            "root" if !ctx.thorough && c.idx % targets.len() != ctx.seed as usize % 3 => return Ok(()),
            _ => 1,
        };
        let a = args(ctx, c, s, n);
        if std::env::var_os("VMON_TIME").is_some() {
            eprintln!("{}", a.join(" "));
        }
        let want = native(&a)?;
        let r = miri(t, false, 1, &a)?;
        if !judge(&r, &format!("portmon {} interpreted for {t}", a[..3].join(" ")))? {
            c.trivial("not interpretable");
            return Ok(());
        }
        if let Some(d) = differ(&want, &r.out) {
            return Err(format!("portmon {} gives different results on {HOST} and {t}, {d}", a[..3].join(" ")));
        }
        for (i, l) in r.out.lines().enumerate() {
            c.obs(&format!("{t}: {s}: {}", l.split(' ').next().unwrap_or("")), format!("{i}{l}").as_bytes());
        }
        Ok(())
    });
}
fn other_builds(ctx: &Ctx) {
    let builds = [("without assertions", format!("{}/harness/target/plain/release/vmon", dir())), ("for this processor", format!("{}/harness/target/cpu/release/vmon", dir()))];
    let other = |ls: &[String]| -> Result<Vec<(usize, Vec<String>)>, String> {
        let mut v = vec![];
        let rs: Vec<Result<Run, String>> = std::thread::scope(|s| {
            let h: Vec<_> = builds.iter().map(|b| s.spawn(|| run(Command::new(&b.1).arg("histb"), &ls.join("\n")))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for ((k, (n, _)), r) in builds.iter().enumerate().zip(rs) {
            let r = r?;
            let o: Vec<String> = r.out.lines().map(|x| x.to_string()).collect();
            if !r.ok || o.len() != ls.len() {
                if r.err.contains("harness: ") || o.len() > ls.len() {
                    return Err(format!("harness: the build {n} fails: {}", cut(&r.err, 800)));
                }
                return Err(format!("the build {n} ends the process at '{}': {}", cut(ls.get(o.len()).map_or("", |x| x), 200), cut(&r.err, 800)));
            }
            v.push((k, o));
        }
        Ok(v)
    };
    let compare = |c: &mut Case, ls: &[String]| -> Res {
        let (got, o) = std::thread::scope(|s| {
            let h = s.spawn(|| other(ls));
            (ls.iter().map(|l| p_hist::fresh(l)).collect::<Vec<String>>(), h.join().unwrap())
        });
        for (k, o) in o? {
            for (i, l) in ls.iter().enumerate() {
                ensure!(o[i] == got[i], "'{}' gives '{}' in the build {} and '{}' in the checked build", cut(l, 300), cut(&o[i], 200), builds[k].0, cut(&got[i], 200));
                c.obs(&format!("{}: {}", builds[k].0, l.split(' ').next().unwrap()), l.as_bytes());
            }
        }
        Ok(())
    };
    ctx.cases_t("builds", ctx.n(40, 400), 3, |c| {
        let ls = lines(ctx, c, 3);
        compare(c, &ls)
    });
    ctx.cases_t("trapdoor", ctx.n(1, 12), 2, |c| {
        let ls = p_hist::trapdoor_lines(ctx, c, true)?;
        compare(c, &ls)
    });
}
