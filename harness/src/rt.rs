//! Harness runtime: deterministic case scheduling over threads, panic capture, watchdog, replay, evidence.
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Acc {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
}

pub struct Violation {
    pub group: String,
    pub idx: usize,
    pub msg: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, usize)>,
    pub threads: usize,
    pub acc: Mutex<Acc>,
    pub viol: Mutex<Vec<Violation>>,
    pub start: Instant,
    pub hang_limit: Duration,
    running: Mutex<BTreeMap<u64, (String, usize, Instant)>>,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub group: &'a str,
    pub idx: usize,
    pub rng: ChaCha8Rng,
    pub acc: Acc,
}

fn fnv(data: &[u8], mut h: u64) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

impl<'a> Case<'a> {
    /// One evaluation of the oracle on a case in coverage class `class`, identified by `key`.
    pub fn obs(&mut self, class: &str, key: &[u8]) {
        self.acc.evals += 1;
        *self.acc.classes.entry(class.to_string()).or_insert(0) += 1;
        let h = fnv(key, fnv(class.as_bytes(), 0xcbf29ce484222325));
        self.acc.distinct.insert(h);
    }
    /// An evaluation which is not counted as non-trivial.
    pub fn trivial(&mut self, class: &str) {
        self.acc.evals += 1;
        *self.acc.classes.entry(class.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, class: &str, s: impl FnOnce() -> String) {
        let v = self.acc.samples.entry(class.to_string()).or_default();
        if v.len() < 2 {
            v.push(s());
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

/// Run f; a panic becomes Err with the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|l| l.borrow().clone()).replace('\n', " "))),
    }
}

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn case_seed(&self, group: &str, idx: usize) -> [u8; 32] {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&self.seed.to_le_bytes());
        s[8..16].copy_from_slice(&fnv(group.as_bytes(), 0xcbf29ce484222325).to_le_bytes());
        s[16..24].copy_from_slice(&(idx as u64).to_le_bytes());
        s[24..27].copy_from_slice(self.prop.as_bytes());
        s
    }
    /// Run `n` cases of `group` in parallel; each gets its own fresh OS thread (so that the library's
    /// thread-local random generator starts from this case's entropy stream) and its own seeded generator.
    pub fn cases<F>(&self, group: &str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.cases_t(group, n, self.threads, f)
    }
    pub fn cases_t<F>(&self, group: &str, n: usize, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        if let Some((g, _)) = &self.replay {
            if g != group {
                return;
            }
        }
        if self.viol.lock().unwrap().len() >= 4 {
            return;
        }
        let t0 = std::time::Instant::now();
        let next = AtomicUsize::new(0);
        let nt = threads.min(n).max(1);
        std::thread::scope(|sc| {
            for _ in 0..nt {
                sc.spawn(|| loop {
                    let idx = next.fetch_add(1, Ordering::Relaxed);
                    if idx >= n {
                        break;
                    }
                    if let Some((_, i)) = &self.replay {
                        if *i != idx {
                            continue;
                        }
                    }
                    if self.viol.lock().unwrap().len() >= 4 {
                        break;
                    }
                    let fr = &f;
                    std::thread::scope(|s2| {
                        let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s2, move || {
                            self.one(group, idx, fr);
                        });
                        let _ = h.expect("harness: cannot spawn thread").join();
                    });
                });
            }
        });
        if std::env::var_os("VMON_TIME").is_some() {
            eprintln!("{group}: {:.1}s", t0.elapsed().as_secs_f64());
        }
    }
    fn one<F>(&self, group: &str, idx: usize, f: &F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let cs = self.case_seed(group, idx);
        getrandom::stub_set_thread_seed(fnv(&cs, 0xcbf29ce484222325));
        let mut case = Case { ctx: self, group, idx, rng: ChaCha8Rng::from_seed(cs), acc: Acc::default() };
        static TOK: AtomicUsize = AtomicUsize::new(0);
        let tok = TOK.fetch_add(1, Ordering::Relaxed) as u64;
        self.running.lock().unwrap().insert(tok, (group.to_string(), idx, Instant::now()));
        let r = match guarded(|| f(&mut case)) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        self.running.lock().unwrap().remove(&tok);
        {
            let mut a = self.acc.lock().unwrap();
            a.evals += case.acc.evals;
            a.distinct.extend(case.acc.distinct.iter());
            for (k, v) in &case.acc.classes {
                *a.classes.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in case.acc.samples {
                let e = a.samples.entry(k).or_default();
                for s in v {
                    if e.len() < 2 {
                        e.push(s);
                    }
                }
            }
        }
        if let Err(m) = r {
            if m.contains("oracle:") || m.contains("harness:") {
                eprintln!("HARNESS ERROR in {} {}: {}", group, idx, m);
                std::process::exit(3);
            }
            self.viol.lock().unwrap().push(Violation { group: group.to_string(), idx, msg: m });
        }
    }
    pub fn violation(&self, group: &str, idx: usize, msg: String) {
        self.viol.lock().unwrap().push(Violation { group: group.to_string(), idx, msg });
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VMON_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn write_replay(ctx: &Ctx, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}-s{}.json", dir, ctx.prop, v.group, v.idx, ctx.seed);
    let body = format!(
        "{{\"property\":{},\"group\":{},\"idx\":{},\"seed\":{},\"tier\":{},\"profile\":{},\"what\":{},\"rerun\":{}}}\n",
        jstr(ctx.prop), jstr(&v.group), v.idx, ctx.seed,
        jstr(if ctx.thorough { "thorough" } else { "quick" }),
        jstr(if cfg!(debug_assertions) { "checked" } else { "plain" }),
        jstr(&v.msg),
        jstr(&format!("VERIF_SEED={} VERIF_TIER={} ./check.sh {} --replay {} {}", ctx.seed,
            if ctx.thorough { "thorough" } else { "quick" }, ctx.prop, v.group, v.idx)),
    );
    let _ = std::fs::write(&path, body);
    path
}

pub struct Known {
    pub lines: Vec<(String, String)>, // (property, signature)
}
fn load_known() -> Vec<(String, String)> {
    // lines: "finding: property=<id> match=<substring of group/message> :: text"
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(2, " match=");
                let id = it.next().unwrap_or("").trim().to_string();
                let sig = it.next().unwrap_or("").split(" :: ").next().unwrap_or("").trim().to_string();
                if !id.is_empty() && !sig.is_empty() {
                    out.push((id, sig));
                }
            }
        }
    }
    out
}

pub fn run_property(prop: &'static str, rule: &str, assumptions: &[&str], body: impl FnOnce(&Ctx), extra: &str, replay: Option<(String, usize)>) -> i32 {
    install_panic_hook();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let ctx = Arc::new(Ctx {
        prop, seed, thorough, replay, threads,
        acc: Mutex::new(Acc::default()), viol: Mutex::new(Vec::new()), start: Instant::now(),
        hang_limit: Duration::from_secs(match (thorough, prop) { (true, _) => 1800, (_, "P27" | "P28") => 600, _ => 400 }),
        running: Mutex::new(BTreeMap::new()),
    });
    {
        let c2 = ctx.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let hung = {
                let r = c2.running.lock().unwrap();
                r.values().find(|(_, _, t)| t.elapsed() > c2.hang_limit).map(|(g, i, _)| (g.clone(), *i))
            };
            if let Some((g, i)) = hung {
                let v = Violation { group: g, idx: i, msg: format!("the operation did not return within {:?}", c2.hang_limit) };
                let path = write_replay(&c2, &v);
                println!("VIOLATION property={} replay={}", c2.prop, path);
                println!("  {} {}: {}", v.group, v.idx, v.msg);
                std::process::exit(1);
            }
        });
    }
    {
        let mut rng = ChaCha8Rng::from_seed(ctx.case_seed("selftest", 0));
        if let Err(e) = crate::oracle::selftest(&mut rng) {
            eprintln!("HARNESS ERROR: oracle self-test failed: {}", e);
            return 3;
        }
    }
    match guarded(|| body(&ctx)) {
        Ok(()) => {}
        Err(e) => {
            if e.contains("oracle:") || e.contains("harness:") {
                eprintln!("HARNESS ERROR: {}", e);
                return 3;
            }
            ctx.violation("setup", 0, e);
        }
    }
    let known = load_known();
    let viol = ctx.viol.lock().unwrap();
    let mut fresh = 0;
    let mut seen_known = HashSet::new();
    for v in viol.iter() {
        let full = format!("{} {} {}", v.group, v.idx, v.msg);
        if let Some((_, sig)) = known.iter().find(|(id, sig)| id == prop && full.contains(sig.as_str())) {
            if seen_known.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {}", prop, v.msg.chars().take(300).collect::<String>());
            }
            continue;
        }
        fresh += 1;
        let path = write_replay(&ctx, v);
        println!("VIOLATION property={} replay={}", prop, path);
        println!("  {} {}: {}", v.group, v.idx, v.msg.chars().take(1500).collect::<String>());
    }
    let a = ctx.acc.lock().unwrap();
    let mut cl = String::new();
    for (k, v) in &a.classes {
        if !cl.is_empty() {
            cl.push(',');
        }
        cl.push_str(&format!("{}:{}", jstr(k), v));
    }
    let mut sm = String::new();
    let mut ns = 0;
    for (k, vs) in &a.samples {
        for s in vs.iter().take(1) {
            if ns >= 24 {
                break;
            }
            if !sm.is_empty() {
                sm.push(',');
            }
            sm.push_str(&jstr(&format!("{}: {}", k, s.chars().take(400).collect::<String>())));
            ns += 1;
        }
    }
    let asm = assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let body = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"profile\":{},\n  \"classes\":{{{}}},\n  \"entropy_bytes_drawn_by_library\":{}{},\n  \"samples\":[{}]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.1},\n \"violations\":{}\n}}\n",
        jstr(prop), jstr(if thorough { "thorough" } else { "quick" }), seed, a.evals, a.distinct.len(), jstr(rule),
        jstr(if cfg!(debug_assertions) { "opt-level 2, debug assertions and overflow checks on" } else { "opt-level 3, assertions off" }),
        cl, getrandom::stub_bytes_drawn(), extra, sm, asm, ctx.start.elapsed().as_secs_f64(), fresh
    );
    if ctx.replay.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let suffix = std::env::var("VMON_EVIDENCE_SUFFIX").unwrap_or_default();
        if std::fs::write(format!("{}/{}{}.json", dir, prop, suffix), &body).is_err() {
            eprintln!("HARNESS ERROR: cannot write evidence");
            return 3;
        }
    }
    println!("{}: {} evaluations, {} distinct, {} violations, {:.1}s", prop, a.evals, a.distinct.len(), fresh, ctx.start.elapsed().as_secs_f64());
    if fresh > 0 {
        1
    } else {
        0
    }
}
