//! Minimises a failing scenario by re-executing candidates in child processes.

use crate::load_text;
use crate::scen::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct M {
    class: String,
    tmp: String,
    until: Instant,
    runs: u32,
}
struct Outcome {
    schedule: Vec<(u64, u32)>,
    lines: Vec<String>,
}

impl M {
    /// Executes a candidate; Some if it shows the same class of violation.
    fn fails(&mut self, sc: &Scenario) -> Option<Outcome> {
        self.runs += 1;
        std::fs::write(&self.tmp, sc.text()).ok()?;
        let (out, status) = run_child(&self.tmp, Duration::from_secs(20));
        let mut lines = vec![];
        let mut schedule = vec![];
        let mut hit = false;
        for l in out.lines() {
            if let Some(v) = l.strip_prefix("V ") {
                lines.push(v.to_string());
                hit |= v.split(' ').next() == Some(self.class.as_str());
            } else if let Some(s) = l.strip_prefix("S ") {
                for p in s.split(',').filter(|p| !p.is_empty()) {
                    let mut it = p.split(':').filter_map(|x| x.parse::<u64>().ok());
                    if let (Some(a), Some(b)) = (it.next(), it.next()) {
                        schedule.push((a, b as u32));
                    }
                }
            }
        }
        let class = match status {
            Status::Signal(_) => "Crash",
            Status::Timeout => "Hang",
            Status::Code(_) => "",
        };
        if !class.is_empty() {
            hit |= self.class == class;
            lines.push(format!("{class} {status:?}"));
            if let Some(e) = &sc.cfg.explicit {
                schedule = e.clone();
            }
        }
        hit.then_some(Outcome { schedule, lines })
    }
    fn time(&self) -> bool {
        Instant::now() < self.until && self.runs < 1500
    }
    /// Tries `sc` as it is, and with fresh schedules.
    fn try_any(&mut self, sc: &Scenario) -> Option<Scenario> {
        if !self.time() {
            return None;
        }
        let done = |mut sc: Scenario, o: Outcome| {
            // The bounds of C21 are for schedules of a certain kind, which its seed gives.
            if sc.prop != "C21" && (!matches!(o.schedule.len(), 0) || sc.cfg.explicit.is_none()) {
                sc.cfg.explicit = Some(o.schedule);
            }
            sc
        };
        if let Some(o) = self.fails(sc) {
            return Some(done(sc.clone(), o));
        }
        if sc.world && sc.cfg.explicit.is_some() {
            for k in 0..3 {
                let mut c = sc.clone();
                c.cfg.explicit = None;
                c.cfg.seed = c.cfg.seed.wrapping_add(k);
                if let Some(o) = self.fails(&c) {
                    return Some(done(c, o));
                }
            }
        }
        None
    }
}

#[derive(Debug)]
pub enum Status {
    Code(i32),
    Signal(i32),
    Timeout,
}
pub fn run_child(file: &str, limit: Duration) -> (String, Status) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(["run", file]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let until = Instant::now() + limit;
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                break match (s.code(), s.signal()) {
                    (Some(c), _) => Status::Code(c),
                    (None, Some(s)) => Status::Signal(s),
                    _ => Status::Code(2),
                };
            }
            _ if Instant::now() >= until => {
                let _ = c.kill();
                let _ = c.wait();
                break Status::Timeout;
            }
            _ => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    (reader.join().unwrap_or_default(), status)
}

/// Shrinks a list while `test` holds for what remains.
fn ddmin<T: Clone>(list: Vec<T>, mut test: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = list;
    let mut parts = 2;
    while !cur.is_empty() {
        let size = cur.len().div_ceil(parts);
        let mut hit = false;
        let mut i = 0;
        while i < cur.len() {
            let mut c = cur.clone();
            c.drain(i..(i + size).min(c.len()));
            if test(&c) {
                cur = c;
                hit = true;
            } else {
                i += size;
            }
        }
        if size <= 1 {
            if !hit {
                break;
            }
        } else if !hit {
            parts = (parts * 2).min(cur.len());
        }
        parts = parts.min(cur.len()).max(2);
    }
    cur
}

pub fn minimise(file: &str, class: &str, secs: u64) {
    let text = std::fs::read_to_string(file).unwrap();
    let mut m = M { class: class.into(), tmp: format!("{file}.tmp"), until: Instant::now() + Duration::from_secs(secs), runs: 0 };
    if text.starts_with("generate") || text.contains("\ngenerate ") {
        // The generator itself runs fault-free probes; a crash or hang there cannot be taken apart
        // in this process.
        let (_, s) = run_child(file, Duration::from_secs(30));
        if matches!(s, Status::Timeout | Status::Signal(_)) && !generates(file) {
            println!("M generate");
            return;
        }
    }
    let mut sc = load_text(&text);
    if sc.cfg.explicit.is_none() || m.fails(&sc).is_some() {
        match m.fails(&sc) {
            Some(o) => {
                if !(o.schedule.is_empty() && matches!(class, "Crash" | "Hang" | "Deadlock")) {
                    if sc.prop != "C21" {
                        sc.cfg.explicit = Some(o.schedule);
                    }
                }
            }
            None => {
                println!("M unreproduced");
                return;
            }
        }
    }
    loop {
        let before = sc.text();
        // Schedule.
        if sc.cfg.explicit.is_some() {
            let mut c = sc.clone();
            c.cfg.explicit = Some(vec![]);
            if m.time() && m.fails(&c).is_some() {
                sc = c;
            }
        }
        if let Some(list) = sc.cfg.explicit.clone() {
            let base = sc.clone();
            let l = ddmin(list, |l| {
                if !m.time() {
                    return false;
                }
                let mut c = base.clone();
                c.cfg.explicit = Some(l.to_vec());
                m.fails(&c).is_some()
            });
            sc.cfg.explicit = Some(l);
        }
        // Structure.
        let mut i = 0;
        while i < sc.clients.len() && sc.clients.len() > 1 {
            let mut c = sc.clone();
            c.clients.remove(i);
            match m.try_any(&c) {
                Some(x) => sc = x,
                None => i += 1,
            }
        }
        for cl in 0..sc.clients.len() {
            let mut i = 0;
            while i < sc.clients[cl].ops.len() {
                let mut c = sc.clone();
                c.clients[cl].ops.remove(i);
                match m.try_any(&c) {
                    Some(x) => sc = x,
                    None => i += 1,
                }
            }
        }
        // Size.
        for cl in 0..sc.clients.len() {
            let mut cut = sc.clients[cl].n / 2;
            while cut > 0 {
                let mut c = sc.clone();
                let n = c.clients[cl].n - cut;
                shrink(&mut c, cl, n);
                match m.try_any(&c) {
                    Some(x) => {
                        sc = x;
                        cut = cut.min(sc.clients[cl].n / 2);
                    }
                    None => cut /= 2,
                }
                if !m.time() {
                    break;
                }
            }
            let n = sc.clients[cl].n;
            if n <= 300 {
                let mut c = sc.clone();
                c.clients[cl].keys = Keys::List(c.clients[cl].key_list());
                sc = c;
                let mut i = 0;
                while i < sc.clients[cl].n && m.time() {
                    let mut c = sc.clone();
                    if let Keys::List(l) = &mut c.clients[cl].keys {
                        l.remove(i);
                    }
                    let n = c.clients[cl].n - 1;
                    shrink(&mut c, cl, n);
                    match m.try_any(&c) {
                        Some(x) => sc = x,
                        None => i += 1,
                    }
                }
                // Simpler keys.
                if let Keys::List(l) = &sc.clients[cl].keys {
                    let mut s: Vec<u32> = l.clone();
                    s.sort();
                    s.dedup();
                    let dense: Vec<u32> = l.iter().map(|k| s.binary_search(k).unwrap() as u32).collect();
                    if dense != *l {
                        let mut c = sc.clone();
                        c.clients[cl].keys = Keys::List(dense);
                        if let Some(x) = m.try_any(&c) {
                            sc = x;
                        }
                    }
                }
            }
        }
        // Details.
        let mut simpler: Vec<Box<dyn Fn(&mut Scenario)>> = vec![
            Box::new(|s| s.cfg.stalls.clear()),
            Box::new(|s| s.cfg.occupied.clear()),
            Box::new(|s| s.cfg.occupied.iter_mut().for_each(|o| o.1 = 0)),
            Box::new(|s| s.cfg.lazy = 0),
            Box::new(|s| s.yields = 1),
            Box::new(|s| s.elem = ElemKind::Mid),
            Box::new(|s| {
                s.cfg.workers = 1;
                s.cfg.occupied.clear();
            }),
            Box::new(|s| {
                s.cfg.workers = 2;
                s.cfg.occupied.retain(|o| o.0 == 1);
            }),
            Box::new(|s| {
                if s.clients.len() == 1 {
                    s.clients[0].off = 0;
                    s.clients[0].stride = 1;
                    s.parent = s.clients[0].n;
                }
            }),
        ];
        for k in 0..KNOBS {
            simpler.push(Box::new(move |s| s.knobs[k] = usize::MAX));
        }
        for cl in 0..sc.clients.len() {
            for i in 0..sc.clients[cl].ops.len() {
                let at = move |s: &mut Scenario, f: &dyn Fn(&mut OpSpec)| {
                    if let Some(o) = s.clients.get_mut(cl).and_then(|c| c.ops.get_mut(i)) {
                        f(o)
                    }
                };
                simpler.push(Box::new(move |s| at(s, &|o| o.desc = false)));
                simpler.push(Box::new(move |s| at(s, &|o| o.nest = None)));
                simpler.push(Box::new(move |s| at(s, &|o| o.again = None)));
                simpler.push(Box::new(move |s| at(s, &|o| o.mutate = None)));
                simpler.push(Box::new(move |s| at(s, &|o| o.inside = false)));
                simpler.push(Box::new(move |s| at(s, &|o| o.stack = 0)));
                simpler.push(Box::new(move |s| at(s, &|o| o.unwind = false)));
                simpler.push(Box::new(move |s| at(s, &|o| o.ind_stride = 1)));
                simpler.push(Box::new(move |s| at(s, &|o| (o.pre, o.spare) = (0, 0))));
                simpler.push(Box::new(move |s| at(s, &|o| o.panic_at.truncate(1))));
                simpler.push(Box::new(move |s| at(s, &|o| o.clear_faults())));
                for j in (0..sc.clients[cl].ops[i].indices.len().min(60)).rev() {
                    simpler.push(Box::new(move |s| {
                        at(s, &|o| {
                            if j < o.indices.len() {
                                o.indices.remove(j);
                            }
                        })
                    }));
                }
            }
        }
        for f in &simpler {
            if !m.time() {
                break;
            }
            let mut c = sc.clone();
            f(&mut c);
            if c.text() != sc.text() {
                if let Some(x) = m.try_any(&c) {
                    sc = x;
                }
            }
        }
        if sc.text() == before || !m.time() {
            break;
        }
    }
    let out = m.fails(&sc);
    let mut t = String::new();
    if let Some(o) = &out {
        for l in &o.lines {
            t += &format!("# {l}\n");
        }
    }
    t += &sc.text();
    std::fs::write(format!("{file}.min"), t).unwrap();
    let _ = std::fs::remove_file(&m.tmp);
    println!("M {} after {} runs", if out.is_some() { "ok" } else { "unreproduced" }, m.runs);
}

fn shrink(c: &mut Scenario, cl: usize, n: usize) {
    let spec = &mut c.clients[cl];
    spec.n = n;
    if spec.stride < 0 && n > 0 {
        // Stay at the same end of the parent.
    }
    for o in &mut spec.ops {
        if !o.corrupt {
            o.indices.retain(|&x| x < n);
        }
        if o.op.single() {
            o.index = o.index.min(n.saturating_sub(1));
        }
    }
    if n == 0 {
        spec.ops.retain(|o| !o.op.single());
    }
}

fn generates(file: &str) -> bool {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let Some(l) = text.lines().find(|l| l.starts_with("generate ")) else { return true };
    let w: Vec<&str> = l.split_whitespace().collect();
    let exe = std::env::current_exe().unwrap();
    let Ok(mut c) = Command::new(exe).args(["gen", w[1], w[2], w[4]]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else { return false };
    let until = Instant::now() + Duration::from_secs(20);
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.success(),
            _ if Instant::now() > until => {
                let _ = c.kill();
                let _ = c.wait();
                return false;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}
