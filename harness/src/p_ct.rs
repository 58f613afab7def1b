//! P23: secret-independent control flow and addresses, observed by valgrind's memcheck on tainted inputs.
use crate::rt::{Case, Ctx, Res};
use std::process::Command;

fn dir() -> String {
    std::env::var("VMON_DIR").unwrap_or_else(|_| ".".into())
}

struct Out {
    runs: u64,
    reports: u64,
    leak: String,
    stack: String,
}

fn run(k: usize, seed: u64, runs: u64, classes: u64) -> Result<Out, String> {
    let d = format!("{}/ct/target/logs", dir());
    std::fs::create_dir_all(&d).map_err(|e| format!("harness: {e}"))?;
    let log = format!("{d}/{}-{k}-{seed}-{classes}.vg", std::process::id());
    let o = Command::new("valgrind")
        .args(["-q", "--error-limit=no", "--num-callers=24", &format!("--log-file={log}"), &format!("{}/ct/target/debug/ctmon", dir())])
        .args([k.to_string(), seed.to_string(), runs.to_string(), classes.to_string()])
        .output()
        .map_err(|e| format!("harness: cannot run valgrind: {e}"))?;
    let vg = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let done = out.lines().find(|l| l.starts_with("DONE "));
    let Some(done) = done else {
        if err.contains("not under valgrind") || vg.contains("Valgrind: ") || !err.contains("panicked") {
            return Err(format!("harness: the constant-time runner gave no answer: {} {}", err, vg.chars().take(400).collect::<String>()));
        }
        return Err(format!("operation {k} panicked on secret inputs: {}", err.replace('\n', " ")));
    };
    let tail = done.rsplit(": ").next().unwrap_or("");
    let n: Vec<u64> = tail.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    if n.len() != 2 {
        return Err(format!("harness: cannot read {done}"));
    }
    let leak = out.lines().find(|l| l.starts_with("LEAK ")).unwrap_or("").to_string();
    let stack: Vec<String> = vg.lines().take(12).map(|l| l.splitn(3, "== ").last().unwrap_or(l).trim().to_string()).collect();
    Ok(Out { runs: n[0], reports: n[1], leak, stack: stack.join(" | ") })
}

pub fn p23(ctx: &Ctx) {
    let list = Command::new(format!("{}/ct/target/debug/ctmon", dir())).output();
    let list = match list {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(e) => panic!("harness: cannot list the operations: {e}"),
    };
    let names: Vec<String> = list.lines().map(|l| l.to_string()).collect();
    if names.len() < 40 {
        panic!("harness: operation list is empty");
    }
    let seeds = ctx.n(1, 6);
    let body = |c: &mut Case| -> Res {
        // The long operations come first in each round.
        let k = names.len() - 1 - c.idx % names.len();
        let round = c.idx / names.len();
        let classes: u64 = if ctx.thorough { 63 } else { 1 | 2 << (k % 5) };
        let r = run(k, ctx.seed.wrapping_mul(1000) + round as u64, 1, classes)?;
        let name = &names[k];
        if name.starts_with("control: ") {
            // the detector itself must be alive (two leaky controls) and silent (one clean control)
            if (name == "control: nothing") != (r.reports == 0) || r.runs == 0 {
                return Err(format!("harness: {name}: {} reports in {} runs", r.reports, r.runs));
            }
            c.trivial(name);
            return Ok(());
        }
        for j in 0..r.runs {
            c.obs(name, format!("{}/{}/{}", c.idx, j, classes).as_bytes());
        }
        c.sample(name, || format!("{} runs on tainted inputs, classes {:#b}, {} reports", r.runs, classes, r.reports));
        if r.reports != 0 {
            return Err(format!("{}; {} secret-dependent branches or addresses in {} runs; first: {}", r.leak, r.reports, r.runs, r.stack));
        }
        Ok(())
    };
    ctx.cases("ops", names.len() * seeds, body);
}
