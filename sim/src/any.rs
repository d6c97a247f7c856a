//! What the search needs of a scenario, whether it is a world of sessions or a history of processes.
use crate::rng::Fnv;
use crate::world::{Flaw, Stats};
use crate::{check, proc, scen};
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(untagged)]
pub enum AnyScenario {
    World(crate::world::Scenario),
    Proc(proc::PScenario),
}

pub struct Any {
    pub fp: u64,
    pub ticks: u64,
    pub controls: u64,
    pub stats: Stats,
    pub log: Vec<String>,
    pub observed: Vec<Flaw>,
    pub violations: Vec<Flaw>,
    pub harness_error: Option<String>,
}

impl AnyScenario {
    /// Fingerprints of what is being parsed or generated: grammars, sources.
    pub fn subjects(&self) -> Vec<u64> {
        let fp = |b: &[u8]| {
            let mut f = Fnv::new();
            f.bytes(b);
            f.0
        };
        match self {
            AnyScenario::World(s) => s.grammars.iter().map(|g| fp(format!("{:?}", g.rules).as_bytes())).collect(),
            AnyScenario::Proc(s) => s.sources.iter().map(|b| fp(&b.0)).collect(),
        }
    }
}

pub fn is_proc(property: &str) -> bool {
    proc::PROPERTIES.contains(&property)
}

pub fn generate_for(property: &str, seed: u64) -> AnyScenario {
    if is_proc(property) {
        AnyScenario::Proc(proc::generate_for(property, seed))
    } else {
        AnyScenario::World(scen::generate_for(property, seed))
    }
}

pub fn evaluate(s: &AnyScenario, log: bool) -> Any {
    match s {
        AnyScenario::World(s) => {
            let e = check::evaluate(s, log);
            Any {
                fp: e.result.fp,
                ticks: e.result.ticks,
                controls: e.controls,
                log: e.result.log.iter().map(|e| format!("task {} session {}: {} {} {}", e.task, e.sess, e.what, e.a, e.b)).collect(),
                observed: e.result.flaws,
                violations: e.violations,
                stats: e.result.stats,
                harness_error: e.result.harness_error,
            }
        }
        AnyScenario::Proc(s) => {
            let r = proc::evaluate(s);
            Any {
                fp: r.fp,
                ticks: r.calls,
                controls: r.controls,
                log: r.log,
                observed: Vec::new(),
                violations: r.flaws,
                stats: r.stats,
                harness_error: r.harness_error,
            }
        }
    }
}

pub fn shrink(s: AnyScenario, want: crate::shrink::Signature, time: Duration) -> (AnyScenario, u64) {
    match s {
        AnyScenario::World(s) => {
            let (s, n) = crate::shrink::shrink(s, want, time);
            (AnyScenario::World(s), n)
        }
        AnyScenario::Proc(s) => {
            let (s, n) = proc::shrink(s, &want, time);
            (AnyScenario::Proc(s), n)
        }
    }
}
