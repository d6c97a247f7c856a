//! What a run says about a property: which observations count against which property, and the
//! control runs that the properties about disturbances (reuse, interleaving, panics, compaction,
//! discarded tokens) compare with: the same session, alone and undisturbed.
use crate::world::{by_the_book, dup, run, run_on, Api, Flaw, Item, Kind, OnError, Op, RunResult, Scenario, SessRec, Tr};

/// The observations that break the property whatever else happened.
fn counts(property: &str, f: &Flaw) -> bool {
    use Kind::*;
    match property {
        "C01" => matches!(f.kind, Verdict | Panic | Live),
        "C02" => matches!(f.kind, Eval),
        "C03" => matches!(f.kind, Pull) || f.sub == "late",
        "C04" => matches!(f.kind, Report),
        "C16" => matches!(f.kind, Conflict),
        "C18" => matches!(f.kind, Machine | Conflict),
        "C05" => matches!(f.kind, Retry | Differs) || f.sub == "consumed",
        "C06" | "C08" => matches!(f.kind, Differs),
        "C09" => matches!(f.kind, Differs | Rows) || f.sub == "compaction",
        "C07" => matches!(f.kind, Differs | Isolation),
        "C10" => matches!(f.kind, Conserve),
        "C11" => matches!(f.kind, Live),
        "C20" => matches!(f.kind, View | Differs) || matches!(f.sub, "stack" | "stack-shape"),
        _ => false,
    }
}

pub struct Evaluated {
    pub result: RunResult,
    pub violations: Vec<Flaw>,
    pub controls: u64,
}

/// The session alone in a world of its own.
fn alone(scen: &Scenario, spec: crate::world::Session) -> Scenario {
    let mut spec = spec;
    let parser = spec.parser;
    spec.parser = 0;
    Scenario {
        property: String::new(),
        grammars: vec![scen.grammars[scen.parsers[parser].0].clone()],
        parsers: vec![(0, scen.parsers[parser].1)],
        tasks: vec![vec![Op::Run(spec)]],
        sched: Vec::new(),
    }
}

fn fresh_api(a: Api) -> Api {
    match a {
        Api::ReuseParse => Api::DfaParse,
        Api::ReuseReset => Api::Start,
        a => a,
    }
}

fn control_of(scen: &Scenario, r: &SessRec) -> Option<Scenario> {
    let mut spec = r.spec.clone();
    spec.forks.clear();
    match scen.property.as_str() {
        "C05" => {
            if r.skipped.is_empty() {
                return None;
            }
            let mut i = 0;
            spec.stream.retain(|_| {
                i += 1;
                !r.skipped.contains(&(i - 1))
            });
            spec.on_error = OnError::Stop;
        }
        "C06" => {
            if !r.reused {
                return None;
            }
        }
        "C07" => {}
        "C08" => {
            let faults = !spec.cb.is_empty() || spec.stream.contains(&Item::Panic);
            if !faults {
                return None;
            }
            spec.cb.clear();
            spec.stream.retain(|i| *i != Item::Panic);
        }
        "C09" => {}
        "C20" => {
            if !matches!(spec.api, Api::Trace | Api::Travel) || spec.cancel.is_some() || spec.stop_after.is_some() {
                return None;
            }
            spec.api = Api::Start;
            spec.observe_yield = false;
        }
        _ => return None,
    }
    spec.api = fresh_api(spec.api);
    if let Some((toks, ended)) = &r.prefix {
        let mut s: Vec<Item> = toks.iter().map(|t| Item::Tok(*t, None)).collect();
        if !ended {
            s.append(&mut spec.stream);
        }
        spec.stream = s;
    }
    Some(alone(scen, spec))
}

fn show(t: &[Tr]) -> String {
    t.iter()
        .map(|t| match t {
            Tr::Deliver(s) => format!("{s}"),
            Tr::End => "END".into(),
            Tr::Reduce(p, a) => format!("r{p}{a:?}"),
            Tr::Outcome(o) => format!("<{o}>"),
            Tr::Injected => "<fault>".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Compares every session with the automaton of its parser's class.
fn follow(scen: &Scenario, result: &mut RunResult) {
    let mut autos = std::collections::BTreeMap::new();
    for r in &result.sessions {
        let (gi, class) = scen.parsers[r.parser];
        // once a machine that may have reduced on a token goes on without it, no automaton tells
        if r.tainted || !r.skipped.is_empty() {
            continue;
        }
        let (g, auto) = autos.entry((gi, class as usize)).or_insert_with(|| {
            let g = scen.grammars[gi].compile().unwrap();
            let a = g.automaton(class as usize, 4 * crate::gram::MAX_LR1);
            (g, a)
        });
        let Some(auto) = auto else { continue };
        let vals = !matches!(r.spec.api, Api::Validate | Api::Cloned | Api::Simple);
        result.stats.add("probe.sessions-followed", 1);
        if r.trace.iter().any(|t| matches!(t, Tr::Outcome(o) if o.starts_with("conflict"))) {
            result.stats.add("probe.conflicts-met", 1);
        }
        if let Err((conflict, msg)) = by_the_book(g, auto, &r.trace, vals) {
            result.flaws.push(Flaw {
                kind: if conflict { Kind::Conflict } else { Kind::Machine },
                sub: "session",
                session: r.id,
                msg: format!("session {} ({:?} on {class:?}): {msg}", r.id, r.spec.api),
            });
        }
    }
}

pub fn evaluate(scen: &Scenario, log: bool) -> Evaluated {
    let mut result = run(scen, log);
    if matches!(scen.property.as_str(), "C16" | "C18") && result.harness_error.is_none() {
        follow(scen, &mut result);
    }
    let result = result;
    let mut violations: Vec<Flaw> =
        result.flaws.iter().filter(|f| counts(&scen.property, f)).cloned().collect();
    let mut controls = 0;
    if result.harness_error.is_none() && result.parsers.len() == scen.parsers.len() {
        for r in &result.sessions {
            if !r.done {
                continue;
            }
            let Some(c) = control_of(scen, r) else { continue };
            let alone = run_on(&c, false, Some(vec![dup(&result.parsers[r.parser])]));
            controls += 1;
            let Some(cr) = alone.sessions.first() else { continue };
            // a discarded token leaves other traces than the verdict in the reducing classes:
            // there, only what is wrong and was not wrong without the discarding counts
            if scen.property == "C05" && (r.tainted || scen.parsers[r.parser].1 != crate::world::Class::Clr) {
                for f in result.flaws.iter().filter(|f| f.session == r.id) {
                    let bad = matches!(f.kind, Kind::Eval | Kind::Verdict | Kind::Panic | Kind::Live);
                    if bad && !alone.flaws.iter().any(|a| a.kind == f.kind && a.sub == f.sub) {
                        let mut f = f.clone();
                        f.msg = format!("after discarding tokens at {:?}: {}", r.skipped, f.msg);
                        violations.push(f);
                    }
                }
                continue;
            }
            let panics = scen.property == "C08";
            let have: Vec<Tr> = r.trace.iter().filter(|t| !(panics && **t == Tr::Injected)).cloned().collect();
            let gave_up = panics && r.trace.last() == Some(&Tr::Injected);
            let same = if gave_up { cr.trace.starts_with(&have) } else { cr.trace == have };
            if !same {
                let k = have.iter().zip(&cr.trace).take_while(|(a, b)| a == b).count();
                violations.push(Flaw {
                    kind: Kind::Differs,
                    sub: match scen.property.as_str() {
                        "C05" => "discarded-token",
                        "C06" => "reused-machine",
                        "C07" => if r.prefix.is_some() { "fork" } else { "interleaved" },
                        "C08" => "resumed",
                        "C20" => "watched",
                        _ => "compacted",
                    },
                    session: r.id,
                    msg: format!(
                        "session {} ({:?} on {:?}) diverges after {k} events from the same session alone: {} | alone: {}",
                        r.id,
                        r.spec.api,
                        scen.parsers[r.parser].1,
                        show(&have[k.saturating_sub(2)..have.len().min(k + 6)]),
                        show(&cr.trace[k.saturating_sub(2)..cr.trace.len().min(k + 6)])
                    ),
                });
            }
        }
    }
    Evaluated { result, violations, controls }
}
