//! Deterministic simulation of ndarray-slice with fault injection. See /verif/DESIGN.md.
#![allow(dead_code, unexpected_cfgs)]
mod alloc;
mod elem;
mod env;
mod exec;
mod gen;
mod minim;
mod nested;
mod ops;
mod rng;
mod scen;
mod stats;

use rayon_core::sim;
use scen::Scenario;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub const HOOKED: bool = cfg!(ndarray_slice_sim);

fn on_deadlock(what: &str) -> ! {
    sim::set_tag(0);
    let mut o = std::io::stdout();
    let _ = writeln!(o, "V Deadlock 0 0 no thread can run: {what}");
    let _ = o.flush();
    std::process::exit(3);
}

/// Several seeds in one process, for violations that depend on what ran before.
fn batch(l: &str) -> ! {
    let w: Vec<&str> = l.split_whitespace().collect();
    let n = |i: usize| w[i].parse::<u64>().unwrap_or_else(|_| fail("bad batch"));
    for i in 0..n(4) {
        let sc = gen::scenario(w[1], n(2) + i * n(3), HOOKED, w[5] == "1");
        let res = exec::execute(&sc);
        if !res.violations.is_empty() {
            report(&res);
            std::process::exit(1);
        }
    }
    std::process::exit(0)
}
pub fn load_text(text: &str) -> Scenario {
    if let Some(l) = text.lines().find(|l| l.starts_with("generate ")) {
        let w: Vec<&str> = l.split_whitespace().collect();
        return gen::scenario(w[1], w[2].parse().unwrap(), w[3] == "1", w[4] == "1");
    }
    Scenario::parse(text).unwrap_or_else(|e| fail(&e))
}
fn fail(e: &str) -> ! {
    eprintln!("nsim: {e}");
    std::process::exit(2)
}

fn report(res: &exec::RunResult) {
    let mut o = std::io::stdout();
    for v in &res.violations {
        let _ = writeln!(o, "V {:?} {} {} {}", v.class, v.client, v.op, v.text);
    }
    let d: Vec<String> = res.report.deviations.iter().map(|(a, b)| format!("{a}:{b}")).collect();
    let _ = writeln!(o, "S {}", d.join(","));
    let _ = writeln!(o, "H {:016x} {:016x} {:016x} callbacks={} ticks={}", res.event_hash, res.report.trace_hash, res.state_hash, res.callbacks, res.report.ticks);
    let _ = o.flush();
}

fn main() {
    if std::env::var_os("NSIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    sim::set_deadlock_hook(on_deadlock);
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or_else(|| fail("missing argument"));
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| fail("bad number"));
    match arg(1) {
        "run" => {
            let text = std::fs::read_to_string(arg(2)).unwrap_or_else(|e| fail(&e.to_string()));
            if let Some(l) = text.lines().find(|l| l.starts_with("batch ")) {
                batch(l);
            }
            let sc = load_text(&text);
            let res = exec::execute(&sc);
            report(&res);
            std::process::exit(!res.violations.is_empty() as i32);
        }
        "gen" => {
            let sc = gen::scenario(arg(2), num(3), HOOKED, a.get(4).is_some_and(|x| x == "1"));
            print!("{}", sc.text());
        }
        "worker" => worker(arg(2), num(3), num(4), num(5), num(6), arg(7), arg(8), arg(9) == "1"),
        "minimise" => minim::minimise(arg(2), arg(3), num(4)),
        "huge" => {
            for seed in 0..num(3) {
                let Some(sc) = gen::large(arg(2), seed) else { break };
                let t = Instant::now();
                let res = exec::execute(&sc);
                let o = &sc.clients[0].ops[0];
                println!("{} {:?} {} {:?} steals={} {:?}", arg(2), o.op, sc.clients[0].n, t.elapsed(), res.report.steals, res.violations);
            }
        }
        "selftest" => selftest(num(2)),
        "calibrate" => calibrate(num(2), arg(3), a.get(4).is_some_and(|x| x == "1")),
        c => fail(&format!("unknown command {c}")),
    }
}

/// Runs seeds first, first + step, ... (count of them, until the deadline).
fn worker(prop: &str, first: u64, step: u64, count: u64, ms: u64, status: &str, out: &str, thorough: bool) {
    let st = std::fs::File::create(status).unwrap_or_else(|e| fail(&e.to_string()));
    let until = Instant::now() + Duration::from_millis(ms);
    let mut s = stats::Stats::new(prop);
    let mut code = 0;
    for i in 0..count {
        let seed = first + i * step;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&seed.to_le_bytes());
        b[8..].copy_from_slice(&(i + 1).to_le_bytes());
        let _ = st.write_at(&b, 0);
        if i % 16 == 0 && Instant::now() >= until {
            break;
        }
        let sc = gen::scenario(prop, seed, HOOKED, thorough);
        let res = exec::execute(&sc);
        s.add(&sc, &res);
        if !res.violations.is_empty() {
            let v = &res.violations[0];
            println!("V {seed} {:?} {} {} {}", v.class, v.client, v.op, v.text);
            code = 1;
            break;
        }
    }
    s.write(out);
    std::process::exit(code);
}

/// Every scenario twice in this process and once more by replaying its recorded schedule: same
/// decisions, same callbacks, same final state.
fn selftest(count: u64) {
    let mut runs = 0;
    for p in (1..=16).chain(20..=23) {
        let prop = format!("C{p:02}");
        for seed in 0..count {
            let sc = gen::scenario(&prop, seed, HOOKED, false);
            let a = exec::execute(&sc);
            let b = exec::execute(&sc);
            let mut again = Scenario::parse(&sc.text()).unwrap();
            again.cfg.explicit = Some(a.report.deviations.clone());
            let again = Scenario::parse(&again.text()).unwrap();
            let c = exec::execute(&again);
            for (what, x) in [("repeated", &b), ("replayed", &c)] {
                if x.event_hash != a.event_hash || x.state_hash != a.state_hash || x.report.trace_hash != a.report.trace_hash || x.callbacks != a.callbacks {
                    println!("selftest: {prop} seed {seed} differs when {what}");
                    println!("{}", sc.text());
                    std::process::exit(2);
                }
            }
            runs += 3;
        }
    }
    println!("selftest: {runs} runs reproduced exactly");
}

/// Worst use of the comparison budget (C10) or of the termination bound (other properties).
fn calibrate(count: u64, prop: &str, thorough: bool) {
    use std::collections::BTreeMap;
    let mut worst: BTreeMap<&str, (f64, usize, u64)> = BTreeMap::new();
    for seed in 0..count {
        let sc = gen::scenario(prop, seed, HOOKED, thorough);
        let res = exec::execute(&sc);
        if prop == "C21" {
            // How much of the bound is used, and how much of it a sequential execution would use.
            let (o, i, n) = (&sc.clients[0].ops[0], &res.ops[0][0], sc.clients[0].n);
            if let Some((b, _)) = exec::span_bound(&sc, o, n) {
                println!("span {} n={n} m={} knobs={:?} free={} {:.3} {:.3}", o.op.name(), o.indices.len(), sc.knobs.map(|k| k as i64), sc.cfg.workers - sc.cfg.occupied.len(), i.span as f64 / b as f64, i.calls as f64 / b as f64);
            } else {
                println!("span {} n={n} none", o.op.name());
            }
        }
        for (cl, infos) in sc.clients.iter().zip(&res.ops) {
            for (o, i) in cl.ops.iter().zip(infos) {
                let n = cl.n;
                let calls = i.calls;
                let b = if prop == "C10" { exec::budget(o.op, n, o.indices.len()) } else { exec::limit_of(o, n) };
                let e = worst.entry(o.op.name()).or_default();
                let x = calls as f64 / b as f64;
                if x > e.0 {
                    *e = (x, n, calls);
                }
            }
        }
        for v in &res.violations {
            println!("{seed} {:?} {}", v.class, v.text);
        }
    }
    for (k, v) in worst {
        println!("{k}: {:.3} of budget at n={} calls={}", v.0, v.1, v.2);
    }
}
