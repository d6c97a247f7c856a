//! Search over seeds with worker processes, reports, replay and evidence.
use crate::any::{evaluate, generate_for, shrink, AnyScenario};
use crate::rng::Fnv;
use crate::shrink::signature;
use crate::world::Stats;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A scenario takes milliseconds; one that shows no progress for this long does not end.
const STUCK: Duration = Duration::from_secs(90);

fn runs(property: &str, tier: &str) -> (u64, Duration) {
    if let Ok(n) = std::env::var("LRPSIM_RUNS") {
        return (n.parse().unwrap(), Duration::from_secs(3600));
    }
    let quick = match property {
        "C11" => 40_000,
        "C09" | "C07" => 50_000,
        "C20" => 40_000,
        "C12" => 6000,
        "C13" => 12000,
        "C14" => 7000,
        "C19" => 7000,
        "C15" | "C21" => 12000,
        "C22" => 400,
        "C23" => 12000,
        "C24" => 7000,
        "C25" => 5000,
        _ => 60_000,
    };
    if tier == "thorough" {
        (quick * 30, Duration::from_secs(3000))
    } else {
        (quick, Duration::from_secs(240))
    }
}

/// Whether a run exercised what the property is about.
fn nontrivial(property: &str, s: &Stats) -> bool {
    let n = |k: &str| s.c.get(k).copied().unwrap_or(0);
    let faults = || s.c.iter().filter(|(k, v)| k.starts_with("fault.") && **v > 0).count() > 0;
    match property {
        "C01" => n("tokens") > 0 && (faults() || n("probe.contended-decisions") > 0),
        "C02" => n("callbacks") > 1 && n("probe.contended-decisions") > 0,
        "C03" => n("tokens") > 1 && (n("fault.stall") > 0 || n("fault.false-end") > 0),
        "C04" => n("outcome.unexpected-token") > 0,
        "C05" => n("probe.retried-after-error") + n("probe.skipped-offending-token") > 0,
        "C06" => n("probe.machine-reused") > 0,
        "C07" => n("probe.contended-decisions") > 0,
        "C08" => n("probe.resumed-after-panic") > 0,
        "C09" => n("fault.compaction") > 0 && n("sessions") > 0,
        "C10" => n("callbacks") > 0,
        "C12" => n("processes") > 1 && faults(),
        "C13" => n("probe.source-refused") + n("probe.source-unreadable") > 0,
        "C14" => n("probe.other-randomness-compared") > 0,
        "C15" | "C21" => n("lines") > 1 && faults(),
        "C16" => n("probe.conflicts-listed") + n("probe.conflicts-met") > 0 && n("tokens") > 0,
        "C18" => n("probe.sessions-followed") > 0 && n("callbacks") > 0,
        "C23" => n("probe.refusals-shown") + n("probe.parses-shown") > 0 && n("tokens") > 0 && faults(),
        "C24" => n("sessions") > 0 && n("probe.programs-compared") + n("probe.refusals-compared") > 1,
        "C25" => n("probe.programs-compared") + n("probe.refusals-compared") > 1,
        "C22" => n("modules") > 1 && n("callbacks") > 0,
        "C20" => n("probe.views") > 2 && n("callbacks") > 0,
        "C19" => n("processes") > 1 && n("probe.callbacks-compared") > 0 && n("aliases") > 0,
        _ => n("parsers") > 0 && n("tokens") > 0,
    }
}

fn rule(property: &str) -> &'static str {
    match property {
        "C01" => "a run counts when tokens were delivered and a fault fired or tasks contended; distinct by the fingerprint of its whole event sequence",
        "C02" => "a run counts when at least two callbacks ran while tasks contended; distinct by the fingerprint of its whole event sequence",
        "C03" => "a run counts when at least two tokens were delivered by a source that stalled or ended early; distinct by event-sequence fingerprint",
        "C04" => "a run counts when at least one session met an unexpected token; distinct by event-sequence fingerprint",
        "C05" => "a run counts when a failed session was called again or its offending token was discarded; distinct by event-sequence fingerprint",
        "C06" => "a run counts when a machine was used again; distinct by event-sequence fingerprint",
        "C07" => "a run counts when two or more tasks were runnable at some decision; distinct by event-sequence fingerprint",
        "C08" => "a run counts when a session was resumed after an injected panic; distinct by event-sequence fingerprint",
        "C09" => "a run counts when a parser was compacted in a run with sessions; distinct by event-sequence fingerprint",
        "C12" => "a run counts when at least two processes ran one after another and a fault fired; distinct by the fingerprint of the shim's logs, exit states, outputs and generated files",
        "C13" => "a run counts when a process was given a damaged or unreadable source; distinct by the fingerprint of logs, exit states and files",
        "C14" => "a run counts when outputs under different randomness were compared; distinct by the fingerprint of logs, exit states and files",
        "C15" => "a run counts when at least two lines were answered and a fault fired; distinct by the fingerprint of logs, exit states and output",
        "C21" => "a run counts when what was shown for at least two lines was compared and a fault fired; distinct by the fingerprint of logs, exit states and output",
        "C19" => "a run counts when at least two processes ran and the bindings of a callback with aliases were compared; distinct by the fingerprint of logs, exit states and files",
        "C16" => "a run counts when a session met a conflict or a client listed the conflicts, and tokens were delivered; distinct by event-sequence fingerprint",
        "C18" => "a run counts when sessions with callbacks were compared with the automaton of their class; distinct by event-sequence fingerprint",
        "C23" => "a run counts when a source was shown being parsed or refused and a fault fired; distinct by the fingerprint of logs, exit states, generated files and standard output",
        "C24" => "a run counts when a machine of build_parser was run to its end and at least two answers were compared; distinct by the fingerprint of the log and of everything the driver reports",
        "C25" => "a run counts when at least two runs of wop and of its descendant were compared; distinct by the fingerprint of logs, exit states, generated files and standard output",
        "C22" => "a run counts when at least two generated parsers were compiled and their sessions ran callbacks; distinct by the fingerprint of wop's logs, generated files and the sessions' logs",
        "C20" => "a run counts when a watching caller was shown at least three steps and callbacks ran; distinct by event-sequence fingerprint",
        "C10" => "a run counts when callbacks made values; distinct by event-sequence fingerprint",
        _ => "a run counts when parsers were built and tokens delivered under the operation budget; distinct by event-sequence fingerprint",
    }
}

/// What a replay file holds.
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    /// the observation: kind and sub-kind, or "process" when the simulator process itself died
    kind: String,
    sub: String,
    message: String,
    /// fingerprint of the event sequence
    fingerprint: u64,
    shrink_attempts: u64,
    scenario: AnyScenario,
    #[serde(default)]
    events: Vec<String>,
}

// ------------------------------------------------------------ shared progress

/// A small file mapped by the supervisor and its workers: [lowest failing index, stop, then
/// per worker: index in flight, runs started].
struct Shared {
    p: *mut u64,
}
impl Shared {
    fn open(path: &str) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe {
            use std::os::fd::AsRawFd;
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p.cast() }
    }
    fn at(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*self.p.add(i).cast::<std::sync::atomic::AtomicU64>() }
    }
    fn get(&self, i: usize) -> u64 {
        self.at(i).load(std::sync::atomic::Ordering::SeqCst)
    }
    fn set(&self, i: usize, v: u64) {
        self.at(i).store(v, std::sync::atomic::Ordering::SeqCst);
    }
    fn min(&self, i: usize, v: u64) {
        self.at(i).fetch_min(v, std::sync::atomic::Ordering::SeqCst);
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    nontrivial: u64,
    controls: u64,
    ticks: u64,
    stats: BTreeMap<String, u64>,
    rechecked: u64,
    nondeterministic: u64,
    violation: Option<(u64, String, String, String)>,
    harness_error: Option<String>,
}

pub fn worker(property: &str, base: u64, count: u64, me: u64, of: u64, shared: &str, out: &str) -> i32 {
    unsafe {
        // a runaway allocation must end this process, not the machine
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let sh = Shared::open(shared);
    let mut rep = Report::default();
    let mut fps: Vec<u64> = Vec::new();
    let mut grams: BTreeSet<u64> = BTreeSet::new();
    let mut i = me;
    while i < count && i <= sh.get(0) && sh.get(1) == 0 {
        let seed = base + i;
        sh.set(2 + 2 * me as usize, i);
        sh.set(3 + 2 * me as usize, rep.runs + 1);
        let scen = generate_for(property, seed);
        let e = evaluate(&scen, false);
        rep.runs += 1;
        rep.controls += e.controls;
        rep.ticks += e.ticks;
        grams.extend(scen.subjects());
        if let Some(h) = e.harness_error {
            rep.harness_error = Some(format!("seed {seed}: {h}"));
            break;
        }
        if nontrivial(property, &e.stats) {
            rep.nontrivial += 1;
            fps.push(e.fp);
        }
        for (k, v) in &e.stats.c {
            let x = rep.stats.entry((*k).to_string()).or_insert(0);
            *x = if k.starts_with("max.") { (*x).max(*v) } else { *x + *v };
        }
        if let Some(f) = e.violations.first() {
            let (k, s) = signature(f);
            rep.violation = Some((i, k, s, f.msg.clone()));
            sh.min(0, i);
            break;
        }
        if i % if property == "C22" { 50 } else { 701 } == 0 {
            rep.rechecked += 1;
            let again = evaluate(&scen, false);
            if again.fp != e.fp || again.violations.len() != e.violations.len() {
                rep.nondeterministic += 1;
            }
        }
        i += of;
    }
    fps.sort_unstable();
    fps.dedup();
    let mut f = std::fs::File::create(format!("{out}.fp")).unwrap();
    let b: Vec<u8> = fps.iter().flat_map(|x| x.to_le_bytes()).collect();
    f.write_all(&b).unwrap();
    let mut f = std::fs::File::create(format!("{out}.gr")).unwrap();
    let b: Vec<u8> = grams.iter().flat_map(|x| x.to_le_bytes()).collect();
    f.write_all(&b).unwrap();
    std::fs::write(out, serde_json::to_string(&rep).unwrap()).unwrap();
    crate::proc::clean(std::process::id());
    0
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn read_u64s(path: &str) -> Vec<u64> {
    std::fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

/// Waits for a child, at most so long. None: it had to be killed.
fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn supervise(property: &str, tier: &str, seed: u64, evidence: &str, replays: &str) -> i32 {
    let t0 = Instant::now();
    let (count, cap) = runs(property, tier);
    let base = seed << 32;
    let dir = std::env::temp_dir().join(format!("lrpsim-{}-{}", property, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let shared = dir.join("shared").to_string_lossy().into_owned();
    let sh = Shared::open(&shared);
    sh.set(0, u64::MAX);
    let out = |w: u64| dir.join(format!("out{w}")).to_string_lossy().into_owned();
    let mut kids: Vec<Option<Child>> = (0..WORKERS)
        .map(|w| {
            Some(
                Command::new(me())
                    .args(["worker", property, &base.to_string(), &count.to_string(), &w.to_string(), &WORKERS.to_string(), &shared, &out(w)])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("cannot start a worker"),
            )
        })
        .collect();
    // (index, how the process ended)
    let mut died: Vec<(u64, String)> = Vec::new();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); WORKERS as usize];
    let mut capped = false;
    loop {
        let mut alive = 0;
        for w in 0..WORKERS as usize {
            let Some(k) = kids[w].as_mut() else { continue };
            let flight = sh.get(2 + 2 * w);
            match k.try_wait() {
                Ok(Some(st)) => {
                    if !st.success() {
                        crate::proc::clean(k.id());
                        let how = st.signal().map_or_else(|| format!("exit {:?}", st.code()), |s| format!("signal {s}"));
                        died.push((flight, how));
                        sh.min(0, flight);
                    }
                    kids[w] = None;
                }
                _ => {
                    alive += 1;
                    let n = sh.get(3 + 2 * w);
                    if n != last[w].0 {
                        last[w] = (n, Instant::now());
                    } else if last[w].1.elapsed() > STUCK {
                        let _ = k.kill();
                        let _ = k.wait();
                        crate::proc::clean(k.id());
                        kids[w] = None;
                        died.push((flight, format!("no progress for {} s", STUCK.as_secs())));
                        sh.min(0, flight);
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if t0.elapsed() > cap && !capped {
            capped = true;
            sh.set(1, 1);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut total = Report::default();
    let mut fps = BTreeSet::new();
    let mut grams = BTreeSet::new();
    let mut found: Option<(u64, String, String, String)> = None;
    for w in 0..WORKERS {
        let Ok(text) = std::fs::read_to_string(out(w)) else { continue };
        let r: Report = serde_json::from_str(&text).unwrap();
        total.runs += r.runs;
        total.nontrivial += r.nontrivial;
        total.controls += r.controls;
        total.ticks += r.ticks;
        total.rechecked += r.rechecked;
        total.nondeterministic += r.nondeterministic;
        for (k, v) in r.stats {
            let x = total.stats.entry(k.clone()).or_insert(0);
            *x = if k.starts_with("max.") { (*x).max(v) } else { *x + v };
        }
        if r.harness_error.is_some() {
            total.harness_error = r.harness_error;
        }
        if let Some(v) = r.violation {
            if found.as_ref().is_none_or(|f| v.0 < f.0) {
                found = Some(v);
            }
        }
        fps.extend(read_u64s(&format!("{}.fp", out(w))));
        grams.extend(read_u64s(&format!("{}.gr", out(w))));
    }
    died.sort();
    if let Some((i, how)) = died.first() {
        if found.as_ref().is_none_or(|f| *i < f.0) {
            found = Some((*i, "Process".into(), "died".into(), format!("the simulator process ended during this run: {how}")));
        }
    }
    let mut code = 0;
    if let Some(h) = &total.harness_error {
        if found.is_none() {
            println!("harness error: {h}");
            code = 2;
        }
    }
    if let Some((i, kind, sub, msg)) = &found {
        let path = report(property, base + i, kind, sub, msg, replays, &dir);
        println!("VIOLATION property={property} replay={path}");
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let pick = |p: &str| -> BTreeMap<String, u64> {
        total.stats.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), *v)).collect()
    };
    let get = |k: &str| total.stats.get(k).copied().unwrap_or(0);
    let procs = crate::any::is_proc(property);
    let mut cov = json!({
        "evaluations": total.runs,
        "distinct_nontrivial": fps.len(),
        "rule": format!(
            "one evaluation is one simulated {} made from one seed. {}",
            if procs { "history of processes (sources, their damage, fault plans)" } else { "world (parsers, client tasks, streams, faults, schedule)" },
            rule(property)
        ),
        "samples": samples(property, base),
        "nontrivial_runs": total.nontrivial,
        "control_runs": total.controls,
        "runs_per_hour": (total.runs as f64 / wall * 3600.0) as u64,
        "faults_injected": pick("fault."),
        "probes": pick("probe."),
        "outcomes": pick("outcome."),
        "determinism_rechecks": total.rechecked,
        "determinism_mismatches": total.nondeterministic,
        "stopped_by_wall_cap": capped,
    });
    let more = if procs {
        json!({
            "processes_run": get("processes"),
            "lines_answered": get("lines"),
            "distinct_sources": grams.len(),
            "logged_system_calls": total.ticks,
            "simulated_time": "no deadline exists in the programs; clock readings are invented by the plan",
            "modules_compiled": get("modules"),
            "sessions": get("sessions"),
            "tokens_delivered": get("tokens"),
            "callbacks": get("callbacks"),
            "real_components": if property == "C22" {
                vec!["the wop binary (wop/src with the registry lrp it depends on)", "what it generates, compiled by rustc", "lrp (/repo/src) under the generated parsers"]
            } else if property == "C25" {
                vec!["the wop binary (wop/src with the registry lrp it depends on)", "the wop binaries built from what it generates from its own grammar"]
            } else if property == "C24" {
                vec!["wop's library (wop/src but main.rs, with the registry lrp it depends on), in a program that calls it"]
            } else {
                vec!["the wop binary (wop/src with the registry lrp it depends on)", "the demo binary (src/main.rs over src/)"]
            },
            "stubs": ["system calls on files and standard streams, randomness, clocks and the allocator's failure (LD_PRELOAD shim)"],
        })
    } else {
        json!({
            "simulated_ticks": total.ticks,
            "sessions": get("sessions"),
            "tokens_delivered": get("tokens"),
            "callbacks": get("callbacks"),
            "parsers_built": get("parsers"),
            "distinct_grammars": grams.len(),
            "parser_classes": pick("class."),
            "entry_points": pick("api."),
            "max_symbol_operations_to_build_a_parser": get("max.build-operations"),
            "real_components": ["lrp::Grammar", "lrp::Tabler", "lrp::Slr", "lrp::Lalr", "lrp::Clr", "lrp::Parser", "lrp::Dfa (all of /repo/src except the demo main.rs)"],
            "stubs": ["token source (the Iterator the client supplies)", "reduction callbacks", "grammar symbol type (counts operations)", "semantic value type (counts instances)", "clients and their scheduler"],
        })
    };
    for (k, v) in more.as_object().unwrap() {
        cov[k] = v.clone();
    }
    let ev = json!({
        "property": property,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": i32::from(found.is_some()),
        "coverage": cov,
        "assumptions": if procs {
            vec!["a process that is killed leaves the bytes it had written (no power loss)", "one run at a time in a directory", "the reference reading of wop sources, and of the demo's brackets, is right"]
        } else {
            vec![
                "grammars without empty productions, with one start production whose rule appears in no right-hand side, all rules productive, and not naming the end symbol; rules that derive themselves alone only for LALR and LR(1)",
                "the reference recogniser (Earley) and the reference class tests are right",
            ]
        },
    });
    let _ = std::fs::create_dir_all(Path::new(evidence).parent().unwrap());
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{property}: {} runs, {} distinct non-trivial, {} sessions, {} processes, {} faults, {:.1} s",
        total.runs,
        fps.len(),
        get("sessions"),
        get("processes"),
        pick("fault.").values().sum::<u64>(),
        wall
    );
    code
}

fn samples(property: &str, base: u64) -> Vec<Value> {
    let mut out = Vec::new();
    for i in 0..2 {
        let s = generate_for(property, base + i);
        let mut v = serde_json::to_value(&s).unwrap();
        if let Some(n) = v["sched"].as_array().map(Vec::len) {
            v["sched"] = json!(format!("{n} decisions"));
        }
        v["seed"] = json!(base + i);
        out.push(v);
    }
    out
}

/// Shrinks, writes the replay file and confirms it in a fresh process.
fn report(property: &str, seed: u64, kind: &str, sub: &str, msg: &str, replays: &str, dir: &Path) -> String {
    let _ = std::fs::create_dir_all(replays);
    let path = format!("{replays}/{property}-{seed}.json");
    let mut rep = Replay {
        property: property.into(),
        seed,
        kind: kind.into(),
        sub: sub.into(),
        message: msg.into(),
        fingerprint: 0,
        shrink_attempts: 0,
        scenario: generate_for(property, seed),
        events: Vec::new(),
    };
    let write = |r: &Replay| std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).unwrap();
    write(&rep);
    println!("seed {seed}: {kind}/{sub}: {msg}");
    if kind != "Process" {
        let small = dir.join("small.json").to_string_lossy().into_owned();
        let secs = 20;
        if let Ok(mut c) = Command::new(me())
            .args(["shrink", &path, &small, &secs.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            if wait(&mut c, Duration::from_secs(secs + 60)).is_some_and(|s| s.success()) {
                if let Ok(r) = serde_json::from_str::<Replay>(&std::fs::read_to_string(&small).unwrap_or_default()) {
                    rep = r;
                    write(&rep);
                    println!("minimised: {}", rep.message);
                }
            }
        }
    }
    let ok = Command::new(me())
        .args(["replay", &path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()
        .and_then(|mut c| wait(&mut c, STUCK * 2));
    println!(
        "replay in a fresh process: {}",
        match ok.and_then(|s| s.code()) {
            Some(1) => "reproduced",
            _ => "NOT reproduced",
        }
    );
    path
}

pub fn shrink_file(from: &str, to: &str, secs: u64) -> i32 {
    let mut r: Replay = serde_json::from_str(&std::fs::read_to_string(from).unwrap()).unwrap();
    let want = (r.kind.clone(), r.sub.clone());
    let (s, n) = shrink(r.scenario.clone(), want.clone(), Duration::from_secs(secs));
    let e = evaluate(&s, true);
    let Some(f) = e.violations.iter().find(|f| signature(f) == want) else {
        return 3;
    };
    r.message = f.msg.clone();
    r.fingerprint = e.fp;
    r.events = e.log;
    r.scenario = s;
    r.shrink_attempts = n;
    std::fs::write(to, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    0
}

/// Evaluates a replay file in this process.
pub fn eval_file(file: &str, quiet: bool) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let e = evaluate(&r.scenario, true);
    if let Some(h) = &e.harness_error {
        println!("harness error: {h}");
        return 2;
    }
    if !quiet {
        for l in &e.log {
            println!("{l}");
        }
    }
    let want = (r.kind.clone(), r.sub.clone());
    if let Some(f) = e.violations.iter().find(|f| signature(f) == want) {
        println!("{}/{}: {}", r.kind, r.sub, f.msg);
        let same = r.fingerprint == 0 || r.fingerprint == e.fp;
        println!("event sequence {}", if same { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
        return 1;
    }
    println!("no {}/{} in this run", r.kind, r.sub);
    0
}

pub fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    if r.kind != "Process" {
        let c = eval_file(file, false);
        if c == 1 {
            println!("VIOLATION property={} replay={file}", r.property);
        }
        return c;
    }
    let mut c = Command::new(me()).args(["eval", file]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    match wait(&mut c, STUCK) {
        Some(s) if s.code().is_some_and(|c| c < 3) => {
            println!("the process ended normally");
            0
        }
        Some(s) => {
            println!("the process died: {s}");
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("no end within {} s", STUCK.as_secs());
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
    }
}

pub fn trace(property: &str, seed: u64) -> i32 {
    let s = generate_for(property, seed);
    println!("{}", serde_json::to_string_pretty(&s).unwrap());
    let e = evaluate(&s, true);
    for l in &e.log {
        println!("{l}");
    }
    for f in &e.observed {
        println!("observed: {f:?}");
    }
    for f in &e.violations {
        println!("violation: {f:?}");
    }
    i32::from(!e.violations.is_empty())
}

pub fn determinism(n: u64) -> i32 {
    let mut bad = 0;
    let mut fp = Fnv::new();
    for p in crate::scen::PROPERTIES.iter().chain(crate::proc::PROPERTIES) {
        let n = if crate::proc::PROPERTIES.contains(p) { n / 50 + 1 } else { n };
        for seed in 0..n {
            let s = generate_for(p, seed);
            let a = evaluate(&s, true);
            let b = evaluate(&generate_for(p, seed), false);
            if a.fp != b.fp || a.violations.len() != b.violations.len() || a.ticks != b.ticks {
                println!("{p} seed {seed}: two runs differ");
                bad += 1;
            }
            fp.u64(a.fp);
        }
    }
    println!("{bad} differences; digest of all runs {:016x}", fp.0);
    i32::from(bad > 0)
}
