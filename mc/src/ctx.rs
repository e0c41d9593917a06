use crate::engine::{self, Body, Stats, Violation};
use serde_json::json;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub property: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub replaying: Option<Violation>,
    known: Vec<(String, String)>,
    spaces: Vec<(String, Stats, f64)>,
    violations: Vec<Violation>,
    known_seen: std::sync::Mutex<std::collections::BTreeSet<String>>,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    start: Instant,
    pub replay_found: bool,
}

impl Ctx {
    pub fn new(property: &'static str, tier: Tier, seed: u64) -> Self {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(crate::root("known_findings.txt")) {
            for l in t.lines() {
                // KNOWN property=<id> key=<substring of the message>
                if let Some(r) = l.strip_prefix("KNOWN property=") {
                    if let Some((p, k)) = r.split_once(" key=") {
                        if p == property {
                            known.push((p.to_string(), k.trim().to_string()));
                        }
                    }
                }
            }
        }
        Ctx {
            property,
            tier,
            seed,
            threads,
            replaying: None,
            known,
            spaces: vec![],
            violations: vec![],
            known_seen: Default::default(),
            assumptions: vec![],
            bounds: vec![],
            start: Instant::now(),
            replay_found: false,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }

    /// Explores (or, in replay mode, re-executes) one space.
    pub fn space(&mut self, name: &str, body: &Body) {
        self.space_t(name, self.threads, body)
    }

    pub fn space_t(&mut self, name: &str, threads: usize, body: &Body) {
        if let Some(v) = &self.replaying {
            if v.space == name {
                self.replay_found = true;
                println!("replaying {} {}", self.property, name);
                match engine::replay(&v.choices, body) {
                    Ok(()) => println!("replay: no violation"),
                    Err(m) => {
                        println!("replay: {m}");
                        self.violations.push(Violation { message: m, ..v.clone() });
                    }
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        let t = Instant::now();
        let known = self.known.clone();
        let seen = &self.known_seen;
        let f = move |m: &str| {
            for (_, k) in &known {
                if m.contains(k.as_str()) {
                    seen.lock().unwrap().insert(k.clone());
                    return true;
                }
            }
            false
        };
        let (st, vs) = engine::explore(name, threads, &f, body);
        let secs = t.elapsed().as_secs_f64();
        println!(
            "[{}] {}: executions={} transitions={} depth<={} distinct_states={} outcomes={} ({:.1}s)",
            self.property,
            name,
            st.executions,
            st.transitions,
            st.max_depth,
            st.states.len(),
            st.outcomes.len(),
            secs
        );
        self.spaces.push((name.to_string(), st, secs));
        self.violations.extend(vs);
    }

    /// Adds statistics of an exploration that was not run through `space`.
    pub fn add_stats(&mut self, name: &str, st: Stats, secs: f64) {
        self.spaces.push((name.into(), st, secs));
    }

    /// A check over the aggregate of a space (e.g. the set of reached outcomes).
    pub fn aggregate(&mut self, name: &str, r: Result<(), String>) {
        if let Some(v) = &self.replaying {
            if v.space == format!("{name} (aggregate)") {
                self.replay_found = true;
                if let Err(m) = r {
                    println!("replay: {m}");
                    let v = Violation { message: m, ..v.clone() };
                    self.violations.push(v);
                }
            }
            return;
        }
        if let Err(m) = r {
            self.violations.push(Violation {
                space: format!("{name} (aggregate)"),
                choices: vec![],
                labels: vec![],
                message: m,
            });
        }
    }

    pub fn outcomes(&self, name: &str) -> std::collections::BTreeMap<String, u64> {
        self.spaces
            .iter()
            .find(|s| s.0 == name)
            .map(|s| s.1.outcomes.clone())
            .unwrap_or_default()
    }

    pub fn has_violation(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn replays(&self, name: &str) -> bool {
        self.replaying.as_ref().map(|v| v.space == name).unwrap_or(false)
    }
    pub fn is_replay(&self) -> bool {
        self.replaying.is_some()
    }

    pub fn finish(self) -> i32 {
        if self.replaying.is_some() {
            if !self.replay_found {
                println!("replay: space not found");
                return 2;
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        let mut total = Stats::default();
        let mut per = vec![];
        for (n, s, secs) in &self.spaces {
            per.push(json!({
                "space": n, "executions": s.executions, "transitions": s.transitions,
                "choice_tree_nodes": s.tree_nodes, "distinct_states": s.states.len(),
                "max_depth": s.max_depth, "comparisons": s.comparisons,
                "distinct_outcomes": s.outcomes.len(), "wall_s": secs,
                "outcomes": s.outcomes.iter().take(12).map(|(k,v)| json!([k,v])).collect::<Vec<_>>(),
            }));
        }
        let mut samples: Vec<String> = vec![];
        for (_, s, _) in &self.spaces {
            samples.extend(s.samples.iter().take(3).cloned());
            total.merge(s.clone());
        }
        samples.truncate(30);
        // States are the distinct canonical states the bodies recorded plus, for spaces which
        // record none, the nodes of the choice tree.
        let states: u64 = self
            .spaces
            .iter()
            .map(|(_, s, _)| if s.states.is_empty() { s.tree_nodes } else { s.states.len() as u64 })
            .sum();
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": total.transitions,
                "traces_validated_against_impl": total.executions,
                "comparisons_with_reference": total.comparisons,
                "distinct_outcomes": total.outcomes.len(),
                "max_depth": total.max_depth,
                "exhaustive": self.violations.is_empty(),
                "bounds": self.bounds,
                "spaces": per,
                "samples": samples,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let _ = std::fs::create_dir_all(crate::root("evidence"));
        std::fs::write(
            crate::root(&format!("evidence/{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence written");
        for k in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.property, k);
        }
        if self.violations.is_empty() {
            println!(
                "OK property={} executions={} states={} transitions={} wall={:.1}s",
                self.property,
                total.executions,
                states,
                total.transitions,
                self.start.elapsed().as_secs_f64()
            );
            0
        } else {
            let _ = std::fs::create_dir_all(crate::root("replays"));
            for (i, v) in self.violations.iter().enumerate() {
                let p = crate::root(&format!("replays/{}-{}.json", self.property, i));
                let _ = std::fs::write(
                    &p,
                    serde_json::to_string_pretty(&json!({
                        "property": self.property,
                        "tier": if self.thorough() {"thorough"} else {"quick"},
                        "seed": self.seed,
                        "violation": v,
                    }))
                    .unwrap(),
                );
                println!("  space: {}", v.space);
                println!("  choices: {}", v.labels.join(", "));
                println!("  {}", v.message);
                println!("VIOLATION property={} replay={}", self.property, p);
            }
            1
        }
    }
}

impl Ctx {
    pub fn fail(&mut self, space: &str, message: String) {
        if self.replaying.is_some() {
            println!("replay: {message}");
        }
        self.violations.push(Violation { space: space.into(), choices: vec![], labels: vec![], message });
    }
}
