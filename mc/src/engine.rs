//! Bounded exhaustive explorer.
//!
//! `explore` runs a body once per leaf of the tree of choices the body asks for
//! (`Chooser::pick`).  It is a stateless depth-first exploration: a run is identified by
//! its vector of choices, every sibling of every choice point is scheduled exactly once,
//! so on return every behaviour within the bounds the body encodes was executed.
//! A violation is the choice vector, which `replay` re-executes.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub labels: Vec<String>,
    pub message: String,
}

pub struct Chooser<'a> {
    prefix: &'a [u32],
    pos: usize,
    trace: Vec<(u32, u32)>,
    labels: Vec<String>,
    states: Vec<u64>,
    outcome: Option<String>,
    evals: u64,
    verbose: bool,
}

impl<'a> Chooser<'a> {
    fn new(prefix: &'a [u32], verbose: bool) -> Self {
        Chooser {
            prefix,
            pos: 0,
            trace: vec![],
            labels: vec![],
            states: vec![],
            outcome: None,
            evals: 0,
            verbose,
        }
    }

    /// One nondeterministic choice among `0..n`.
    pub fn pick(&mut self, label: &str, n: usize) -> usize {
        assert!(n > 0, "empty choice {label}");
        let c = if self.pos < self.prefix.len() {
            self.prefix[self.pos] as usize
        } else {
            0
        };
        assert!(c < n, "replayed choice out of range: {label} {c}/{n}");
        self.pos += 1;
        self.trace.push((c as u32, n as u32));
        self.labels.push(format!("{label}={c}/{n}"));
        if self.verbose {
            println!("  choice {label} = {c} of {n}");
        }
        c
    }

    pub fn of<'b, T>(&mut self, label: &str, items: &'b [T]) -> &'b T {
        let i = self.pick(label, items.len());
        &items[i]
    }

    pub fn flag(&mut self, label: &str) -> bool {
        self.pick(label, 2) == 1
    }

    /// Records a (canonicalised) state reached on this run.
    pub fn state(&mut self, key: impl AsRef<[u8]>) {
        self.states.push(fnv(key.as_ref()));
    }

    /// Counts one comparison of the implementation with the reference model.
    pub fn compared(&mut self) {
        self.evals += 1;
    }
    pub fn compared_n(&mut self, n: u64) {
        self.evals += n;
    }

    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcome = Some(s.into());
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finalise
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub tree_nodes: u64,
    pub comparisons: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_depth: usize,
    pub truncated: bool,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.tree_nodes += o.tree_nodes;
        self.comparisons += o.comparisons;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        self.max_depth = self.max_depth.max(o.max_depth);
        self.truncated |= o.truncated;
    }
}

pub type Body<'a> = dyn Fn(&mut Chooser) -> Result<(), String> + Sync + 'a;

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn run_one(
    prefix: &[u32],
    body: &Body,
    verbose: bool,
) -> (Result<(), String>, Vec<(u32, u32)>, Vec<String>, Vec<u64>, Option<String>, u64) {
    let mut ch = Chooser::new(prefix, verbose);
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("the code under test panicked: {}", panic_message(e))),
    };
    (r, ch.trace, ch.labels, ch.states, ch.outcome, ch.evals)
}

/// Explores the whole choice tree of `body` with `threads` workers.
pub fn explore(
    space: &str,
    threads: usize,
    known: &dyn Fn(&str) -> bool,
    body: &Body,
) -> (Stats, Vec<Violation>) {
    let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let cv = Condvar::new();
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let counter = AtomicU64::new(0);
    let known = KnownPtr(known);

    std::thread::scope(|s| {
        for _ in 0..threads.max(1) {
            s.spawn(|| {
                let known = &known;
                let mut local = Stats::default();
                loop {
                    let prefix = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if stop.load(Ordering::SeqCst) {
                                break None;
                            }
                            if let Some(p) = q.pop() {
                                busy.fetch_add(1, Ordering::SeqCst);
                                break Some(p);
                            }
                            if busy.load(Ordering::SeqCst) == 0 {
                                break None;
                            }
                            q = cv.wait(q).unwrap();
                        }
                    };
                    let Some(prefix) = prefix else { break };
                    let (r, trace, labels, states, outcome, evals) = run_one(&prefix, body, false);
                    // schedule siblings
                    {
                        let mut q = queue.lock().unwrap();
                        for i in prefix.len()..trace.len() {
                            for alt in 1..trace[i].1 {
                                let mut p: Vec<u32> = trace[..i].iter().map(|t| t.0).collect();
                                p.push(alt);
                                q.push(p);
                            }
                        }
                        busy.fetch_sub(1, Ordering::SeqCst);
                        cv.notify_all();
                    }
                    local.executions += 1;
                    // Edges of the choice tree first taken by this run.
                    let new_edges = trace.len() + 1 - prefix.len().max(1);
                    local.transitions += new_edges as u64;
                    local.tree_nodes += new_edges as u64;
                    local.max_depth = local.max_depth.max(trace.len());
                    local.comparisons += evals;
                    local.states.extend(states);
                    let n = counter.fetch_add(1, Ordering::SeqCst);
                    let oc = outcome.unwrap_or_else(|| "ok".into());
                    if local.outcomes.len() < 5000 || local.outcomes.contains_key(&oc) {
                        *local.outcomes.entry(oc.clone()).or_default() += 1;
                    }
                    if n < 2 || (n.is_power_of_two() && n < 5000) {
                        local.samples.push(format!("{space}: [{}] -> {oc}", labels.join(", ")));
                    }
                    if let Err(m) = r {
                        if !(known.0)(&m) {
                            let mut v = violations.lock().unwrap();
                            v.push(Violation {
                                space: space.into(),
                                choices: trace.iter().map(|t| t.0).collect(),
                                labels,
                                message: m,
                            });
                            if v.len() >= 1 {
                                stop.store(true, Ordering::SeqCst);
                                drop(queue.lock().unwrap());
                                cv.notify_all();
                            }
                        }
                    }
                }
                stats.lock().unwrap().merge(local);
            });
        }
    });
    let mut st = stats.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(6);
    (st, violations.into_inner().unwrap())
}

struct KnownPtr<'a>(&'a dyn Fn(&str) -> bool);
// The closure only reads an immutable list.
unsafe impl<'a> Sync for KnownPtr<'a> {}

pub fn replay(choices: &[u32], body: &Body) -> Result<(), String> {
    run_one(choices, body, true).0
}
