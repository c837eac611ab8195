//! What a worker's runs covered.

use crate::exec::RunResult;
use crate::scen::*;
use std::collections::{BTreeMap, HashSet};

pub struct Stats {
    prop: String,
    n: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    schedules: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
}
impl Stats {
    pub fn new(prop: &str) -> Self {
        Stats { prop: prop.into(), n: BTreeMap::new(), hashes: HashSet::new(), schedules: HashSet::new(), states: HashSet::new(), samples: vec![] }
    }
    fn inc(&mut self, k: &str, by: u64) {
        if by > 0 {
            *self.n.entry(k.to_string()).or_default() += by;
        }
    }
    pub fn add(&mut self, sc: &Scenario, r: &RunResult) {
        let s = &r.stats;
        self.inc("runs", 1);
        self.inc("ops", r.ops.iter().flatten().filter(|o| o.done).count() as u64);
        self.inc("callbacks", r.callbacks);
        self.inc("ticks", r.report.ticks);
        self.inc("switches", r.report.switches);
        self.inc("preemptions", r.report.preemptions);
        self.inc("jobs", r.report.jobs);
        self.inc("steals", r.report.steals);
        self.inc("nested", r.report.nested);
        self.inc("fault.callback_panic", s.panics);
        self.inc("fault.collection_panic", s.ext_panics);
        self.inc("fault.lying_answer", s.lies);
        self.inc("fault.adversarial_answer", s.adversary);
        self.inc("fault.allocation_failed", s.alloc_failed);
        self.inc("fault.allocator_outage", s.outages);
        self.inc("fault.corrupt_index_list", s.corrupt);
        self.inc("fault.callback_using_the_pool", s.nested);
        self.inc("fault.callback_using_the_crate", s.reentered);
        self.inc("fault.call_from_pool_task", s.inside);
        self.inc("fault.little_stack", s.tight);
        self.inc("fault.call_while_unwinding", s.unwound);
        self.inc("fault.callback_exchanging_elements", s.exchanged);
        self.inc("fault.occupied_worker", if sc.world { sc.cfg.occupied.len() as u64 } else { 0 });
        self.inc("fault.stalled_worker", r.report.stall_hits);
        self.inc("fault.denied_steal", r.report.denials);
        let faults = s.panics + s.ext_panics + s.lies + s.adversary + s.alloc_failed + s.outages + s.corrupt;
        let concurrent = r.report.steals > 0 || r.report.preemptions > 0;
        let nontrivial = match self.prop.as_str() {
            "C01" | "C02" | "C03" | "C14" | "C21" | "C22" | "C23" => concurrent,
            "C20" => r.callbacks > 0 && (!sc.cfg.occupied.is_empty() || concurrent),
            "C08" => concurrent && sc.clients.len() > 1,
            "C16" => r.callbacks > 0,
            "C13" => r.callbacks > 0 && (faults > 0 || concurrent),
            _ => faults > 0,
        };
        for (cl, infos) in sc.clients.iter().zip(&r.ops) {
            for (o, i) in cl.ops.iter().zip(infos) {
                if i.done && o.op != Op::Arrange {
                    self.inc(&format!("op.{}", o.op.name()), 1);
                }
            }
        }
        let h = r.event_hash ^ r.report.trace_hash.rotate_left(17) ^ r.state_hash.rotate_left(40);
        if nontrivial {
            self.inc("nontrivial", 1);
            self.hashes.insert(h);
            if self.samples.len() < 2 {
                let text = sc.text();
                if text.len() < 1500 {
                    self.samples.push(text.replace('\n', " | "));
                }
            }
        }
        if sc.world {
            self.inc("worlds", 1);
            self.schedules.insert(r.report.trace_hash);
        }
        self.states.insert(r.state_hash);
    }
    pub fn write(&self, path: &str) {
        let mut t = String::new();
        for (k, v) in &self.n {
            t += &format!("n {k} {v}\n");
        }
        for s in &self.samples {
            t += &format!("s {s}\n");
        }
        let _ = std::fs::write(path, t);
        let bin = |ext: &str, set: &HashSet<u64>| {
            let b: Vec<u8> = set.iter().flat_map(|h| h.to_le_bytes()).collect();
            let _ = std::fs::write(format!("{path}.{ext}"), b);
        };
        bin("runs", &self.hashes);
        bin("scheds", &self.schedules);
        bin("states", &self.states);
    }
}
