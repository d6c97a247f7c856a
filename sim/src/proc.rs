//! Simulations of the two programs of the repository, wop and the demo. The real binaries run, one
//! at a time, behind a shim (shim/shim.c) that is all of the operating system they see: which
//! bytes a read or write transfers, which calls fail and how, when the process is killed, what
//! randomness and the clock say. The shim acts on a plan and keeps a log; both are part of the run.
use crate::rng::{Fnv, Rng};
use crate::wopref;
use crate::world::{Flaw, Kind, Stats};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const PROPERTIES: &[&str] = &["C12", "C13", "C14", "C15", "C19", "C21", "C22", "C23", "C24", "C25"];

/// Bytes, readable in a replay file when they are text.
#[derive(Clone, Debug, PartialEq)]
pub struct Blob(pub Vec<u8>);
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum BlobRepr {
    Text(String),
    Bytes { bytes: Vec<u8> },
}
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => BlobRepr::Text(t.into()),
            Err(_) => BlobRepr::Bytes { bytes: self.0.clone() },
        }
        .serialize(s)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Blob(match BlobRepr::deserialize(d)? {
            BlobRepr::Text(t) => t.into_bytes(),
            BlobRepr::Bytes { bytes } => bytes,
        }))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub keys: u64,
    pub clock: (u8, u64),
    /// entries as the shim reads them, e.g. "out.write.1=e28"
    pub faults: Vec<String>,
    /// sizes of the reads from standard input (0: interrupted)
    pub chunks: Vec<u16>,
}
impl Plan {
    fn text(&self) -> String {
        let mut s = format!("keys={};clock={},{}", self.keys, self.clock.0, self.clock.1);
        for f in &self.faults {
            s.push(';');
            s.push_str(f);
        }
        if !self.chunks.is_empty() {
            let c: Vec<String> = self.chunks.iter().map(ToString::to_string).collect();
            s.push_str(";chunk=");
            s.push_str(&c.join(","));
        }
        s
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub source: usize,
    pub plan: Plan,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PScenario {
    pub property: String,
    /// versions of the source file (wop), or the input (demo)
    pub sources: Vec<Blob>,
    /// what the sources were before they were damaged, for the report
    #[serde(default)]
    pub damage: Vec<String>,
    /// what is in out.rs before the first run
    pub before: Option<Blob>,
    /// the runs, one after another in one directory
    pub steps: Vec<Step>,
    /// sessions of the generated parsers, as e2e/rt.rs reads them
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sessions: Vec<String>,
    /// which descendant of wop is compared with it (C25)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub generation: u64,
}
fn is_zero(n: &u64) -> bool {
    *n == 0
}

pub struct PResult {
    pub flaws: Vec<Flaw>,
    pub stats: Stats,
    pub log: Vec<String>,
    pub fp: u64,
    pub calls: u64,
    pub controls: u64,
    pub harness_error: Option<String>,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    hung: bool,
    out: Option<Vec<u8>>,
    stdout: Vec<u8>,
    log: String,
    other: Vec<String>,
    source_kept: bool,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn end(&self) -> String {
        if self.hung {
            "no end".into()
        } else if let Some(s) = self.signal {
            format!("signal {s}")
        } else {
            format!("exit {}", self.code.unwrap_or(-1))
        }
    }
    /// faults after which a run may fail
    fn hard(&self) -> bool {
        self.faults().any(|(_, _, act, arg)| match act {
            "e" | "E" => arg != libc::EINTR as i64,
            "s" | "i" | "j" => false,
            _ => true,
        })
    }
    /// how many bytes of its source it got before the end
    fn read(&self) -> usize {
        let mut n = 0;
        for l in self.log.lines() {
            if let Some(k) = l.strip_prefix("read src ") {
                let k: i64 = k.parse().unwrap_or(-1);
                if k == 0 {
                    break;
                }
                n += k.max(0) as usize;
            }
        }
        n
    }
    fn faults(&self) -> impl Iterator<Item = (&str, &str, &str, i64)> {
        self.log.lines().filter_map(|l| {
            let mut w = l.split(' ');
            if w.next() != Some("fault") {
                return None;
            }
            Some((w.next()?, w.next()?, w.next()?, w.next()?.parse().ok()?))
        })
    }
}

thread_local! {
    static DIR: PathBuf = {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("lrpsim-proc-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    };
}

/// Removes this process's scratch directory, and ones that a killed worker left.
pub fn clean(pid: u32) {
    for base in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
        let d = base.join(format!("lrpsim-proc-{pid}"));
        if d.is_dir() {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

fn target() -> PathBuf {
    // target/release/lrpsim -> target
    std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().to_path_buf()
}

const CPU_LIMIT: u64 = 5;
const WALL_LIMIT: Duration = Duration::from_secs(40);

/// Runs a program in `dir`, where its source is `source` and out.rs is whatever it is.
fn exec(dir: &Path, program: &str, source: &[u8], plan: &Plan) -> Result<Ran, String> {
    exec_shown(dir, program, source, plan, program == "lrp")
}
/// And keeps what it shows on its standard output.
fn exec_shown(dir: &Path, program: &str, source: &[u8], plan: &Plan, shown: bool) -> Result<Ran, String> {
    exec_file(dir, &target().join("bins/release").join(program), program, source, plan, shown)
}
fn exec_file(dir: &Path, file: &Path, program: &str, source: &[u8], plan: &Plan, shown: bool) -> Result<Ran, String> {
    let e = |what: &str, e: std::io::Error| format!("{what}: {e}");
    let work = dir.join("work");
    std::fs::create_dir_all(&work).map_err(|x| e("work", x))?;
    let src = work.join("src.wop");
    let demo = program == "lrp";
    let logf = dir.join("log");
    std::fs::write(&logf, vec![0u8; 0]).map_err(|x| e("log", x))?;
    let lf = std::fs::OpenOptions::new().write(true).open(&logf).map_err(|x| e("log", x))?;
    lf.set_len(1 << 20).map_err(|x| e("log", x))?;
    drop(lf);
    let input = dir.join("stdin");
    let outp = dir.join("stdout");
    let mut c = Command::new(file);
    c.current_dir(&work).env_clear().env("LD_PRELOAD", target().join("shim.so")).env("LRPSIM_LOG", &logf).env("LRPSIM_PLAN", plan.text());
    if demo {
        std::fs::write(&input, source).map_err(|x| e("stdin", x))?;
        c.stdin(std::fs::File::open(&input).map_err(|x| e("stdin", x))?);
    } else {
        std::fs::write(&src, source).map_err(|x| e("source", x))?;
        c.arg("src.wop").stdin(Stdio::null());
    }
    if shown {
        c.stdout(std::fs::File::create(&outp).map_err(|x| e("stdout", x))?);
    } else {
        c.stdout(Stdio::null());
    }
    c.stderr(Stdio::null());
    c.arg0(program);
    let mut k = c.spawn().map_err(|x| e("spawn", x))?;
    let lim = |n: u64| libc::rlimit { rlim_cur: n, rlim_max: n };
    unsafe {
        let (cpu, mem, file) = (lim(CPU_LIMIT), lim(2 << 30), lim(64 << 20));
        libc::prlimit(k.id() as i32, libc::RLIMIT_CPU, &cpu, std::ptr::null_mut());
        libc::prlimit(k.id() as i32, libc::RLIMIT_AS, &mem, std::ptr::null_mut());
        libc::prlimit(k.id() as i32, libc::RLIMIT_FSIZE, &file, std::ptr::null_mut());
    }
    let st = wait(&mut k);
    let raw = std::fs::read(&logf).map_err(|x| e("log", x))?;
    let n = raw.iter().position(|b| *b == 0).unwrap_or(raw.len());
    let log = String::from_utf8_lossy(&raw[..n]).into_owned();
    if !log.starts_with("start") {
        return Err(format!("the shim did not start in {program}: {st:?}"));
    }
    let mut other = Vec::new();
    for f in std::fs::read_dir(&work).map_err(|x| e("work", x))? {
        let n = f.map_err(|x| e("work", x))?.file_name().to_string_lossy().into_owned();
        if n != "src.wop" && n != "out.rs" {
            other.push(n);
        }
    }
    let runaway = log.ends_with("runaway\nkilled\n") || st.is_some_and(|s| s.signal() == Some(libc::SIGXCPU));
    Ok(Ran {
        code: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        hung: st.is_none() || runaway,
        out: std::fs::read(work.join("out.rs")).ok(),
        stdout: if shown { std::fs::read(&outp).unwrap_or_default() } else { Vec::new() },
        log,
        other,
        source_kept: demo || std::fs::read(&src).is_ok_and(|b| b == source),
    })
}

fn wait(k: &mut std::process::Child) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 200;
    loop {
        if let Ok(Some(s)) = k.try_wait() {
            return Some(s);
        }
        if t.elapsed() > WALL_LIMIT {
            let _ = k.kill();
            let _ = k.wait();
            return None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        if nap < 5000 {
            nap += 100;
        }
    }
}

fn fresh(name: &str) -> PathBuf {
    DIR.with(|d| {
        let p = d.join(name);
        let _ = std::fs::remove_dir_all(&p);
        p
    })
}

// ------------------------------------------------------------------ judging

struct J {
    flaws: Vec<Flaw>,
    stats: Stats,
    log: Vec<String>,
    fp: Fnv,
    calls: u64,
    controls: u64,
    /// what a clean run of a source with given keys writes
    cache: HashMap<(usize, u64), Option<Vec<u8>>>,
}
impl J {
    fn flaw(&mut self, kind: Kind, sub: &'static str, step: usize, msg: String) {
        self.flaws.push(Flaw { kind, sub, session: step, msg });
    }
    fn note(&mut self, i: usize, r: &Ran) {
        let s = &mut self.stats;
        s.add("processes", 1);
        self.calls += r.log.lines().count() as u64;
        for (cls, op, act, arg) in r.faults() {
            let k = match (cls, op, act) {
                (_, _, "k") => "fault.killed",
                (_, "memory", _) => "fault.no-memory",
                (_, "clock", _) => "fault.clock-jump",
                (_, _, "f") => "fault.disk-full",
                (_, _, "z") => "fault.early-end-of-file",
                (_, _, "i") => "fault.interrupted",
                (_, _, "e" | "E") if arg == libc::EINTR as i64 => "fault.interrupted",
                ("src", "open", _) => "fault.source-open-error",
                ("src", _, "s") => "fault.source-short-read",
                ("src", _, _) => "fault.source-read-error",
                ("out", "open", _) => "fault.output-open-error",
                ("out", _, "s") => "fault.output-short-write",
                ("out", _, _) => "fault.output-write-error",
                ("in", _, "s") => "fault.stdin-short-read",
                ("in", _, _) => "fault.stdin-read-error",
                ("say", _, "s") => "fault.stdout-short-write",
                _ => "fault.stdout-write-error",
            };
            s.add(k, 1);
        }
        s.add(
            if r.ok() {
                "outcome.exit-0"
            } else if r.signal.is_some() {
                "outcome.killed"
            } else {
                "outcome.exit-nonzero"
            },
            1,
        );
        self.fp.bytes(r.log.as_bytes());
        self.fp.bytes(r.end().as_bytes());
        self.fp.bytes(r.out.as_deref().unwrap_or(b"none"));
        self.fp.bytes(&r.stdout);
        self.log.push(format!("run {i}: {}, out.rs {}", r.end(), r.out.as_ref().map_or("absent".into(), |o| format!("{} bytes", o.len()))));
        for l in r.log.lines() {
            self.log.push(format!("run {i}:   {l}"));
        }
    }
    /// Things no run of wop may do.
    fn manners(&mut self, i: usize, r: &Ran) {
        if r.hung {
            self.flaw(Kind::Live, "no-end", i, format!("run {i} did not end ({} logged calls)", r.log.lines().count()));
        }
        if !r.source_kept {
            self.flaw(Kind::Output, "source-changed", i, format!("run {i} changed its source file"));
        }
        if !r.other.is_empty() && r.ok() {
            self.flaw(Kind::Output, "other-files", i, format!("run {i} left {:?} beside out.rs", r.other));
        }
    }
    fn clean_run(&mut self, s: &PScenario, src: usize, keys: u64) -> Result<Option<Vec<u8>>, String> {
        if let Some(x) = self.cache.get(&(src, keys)) {
            return Ok(x.clone());
        }
        let dir = fresh("clean");
        let r = exec(&dir, "wop", &s.sources[src].0, &Plan { keys, ..Plan::default() })?;
        self.controls += 1;
        let x = r.ok().then_some(r.out).flatten();
        self.cache.insert((src, keys), x.clone());
        Ok(x)
    }
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} and {} bytes, first difference at {k}", a.len(), b.len())
}

fn judge_c12(s: &PScenario, j: &mut J) -> Result<(), String> {
    let dir = fresh("history");
    let mut before = prepare(&dir, s)?;
    for (i, st) in s.steps.iter().enumerate() {
        let r = exec(&dir, "wop", &s.sources[st.source].0, &st.plan)?;
        j.note(i, &r);
        j.manners(i, &r);
        if r.hung {
            break;
        }
        if r.ok() {
            let want = j.clean_run(s, st.source, st.plan.keys)?;
            match (&r.out, &want) {
                (_, None) if wopref::read(&s.sources[st.source].0).is_ok() => j.flaw(Kind::Output, "clean-run-failed", i, format!("a run without faults on source {} fails", st.source)),
                (None, _) => j.flaw(Kind::Output, "missing", i, format!("run {i} ended with exit 0 and there is no out.rs")),
                (Some(o), Some(w)) if o != w => {
                    j.flaw(Kind::Output, "incomplete", i, format!("run {i} ended with exit 0 and out.rs is not what a run without faults writes: {}", first_difference(o, w)));
                }
                _ => {}
            }
            if let (Some(o), Ok(p)) = (&r.out, wopref::read(&s.sources[st.source].0)) {
                if let Some(d) = wopref::compare(o, &p) {
                    j.flaw(Kind::Output, "undeclared", i, format!("run {i} ended with exit 0 and out.rs does not say what the source declares: {d}"));
                }
            }
            if r.hard() {
                j.stats.add("probe.succeeded-despite-hard-fault", 1);
            }
        } else if !r.hard() && !r.hung && wopref::read(&s.sources[st.source].0).is_ok() {
            let f: Vec<String> = r.faults().map(|f| format!("{} {} {} {}", f.0, f.1, f.2, f.3)).collect();
            j.flaw(Kind::Exit, "failed-without-cause", i, format!("run {i} ended with {} though only {f:?} happened to it", r.end()));
        } else {
            j.stats.add("probe.failed-run-in-history", 1);
        }
        // a run that ended before it opened its output has not touched it
        if !r.log.contains("open out") && !r.log.contains("rename") && r.out != before {
            j.flaw(Kind::Output, "touched", i, format!("run {i} changed out.rs without opening it"));
        }
        if before.is_some() && r.ok() && i > 0 {
            j.stats.add("probe.overwrote-earlier-output", 1);
        }
        before = r.out;
    }
    Ok(())
}

fn prepare(dir: &Path, s: &PScenario) -> Result<Option<Vec<u8>>, String> {
    let work = dir.join("work");
    std::fs::create_dir_all(&work).map_err(|e| e.to_string())?;
    if let Some(b) = &s.before {
        std::fs::write(work.join("out.rs"), &b.0).map_err(|e| e.to_string())?;
    }
    Ok(s.before.as_ref().map(|b| b.0.clone()))
}

fn judge_c13(s: &PScenario, j: &mut J) -> Result<(), String> {
    let dir = fresh("history");
    let mut before = prepare(&dir, s)?;
    for (i, st) in s.steps.iter().enumerate() {
        let src = &s.sources[st.source].0;
        let r = exec(&dir, "wop", src, &st.plan)?;
        j.note(i, &r);
        j.manners(i, &r);
        if r.hung {
            break;
        }
        // what the program was given to read
        let mut given = src.clone();
        let mut failed = false;
        let early = r.faults().any(|f| f.2 == "z");
        for (cls, _, act, arg) in r.faults() {
            failed |= cls == "src" && matches!(act, "e" | "E") && arg != libc::EINTR as i64;
            failed |= act == "k" || act == "m";
        }
        if early {
            given.truncate(r.read());
        }
        let want = wopref::read(&given);
        match want {
            Err(wopref::Bad::Unsure) => j.stats.add("probe.source-skipped", 1),
            _ if failed => {
                j.stats.add("probe.source-unreadable", 1);
                if r.ok() {
                    j.flaw(Kind::Exit, "accepted-after-error", i, format!("run {i} ended with exit 0 though its source could not be read"));
                }
                if r.out != before && r.faults().all(|f| f.2 != "k" && f.2 != "m") {
                    j.flaw(Kind::Output, "touched", i, format!("run {i} could not read its source and changed out.rs"));
                }
            }
            Err(wopref::Bad::Refused(why)) => {
                j.stats.add("probe.source-refused", 1);
                if early {
                    j.stats.add("probe.source-cut-refused", 1);
                }
                if r.ok() {
                    j.flaw(Kind::Exit, "accepted-damaged", i, format!("run {i} ended with exit 0 on a source that is no program: {why}"));
                }
                if r.out != before {
                    j.flaw(Kind::Output, "touched", i, format!("run {i} refused its source ({why}) and changed out.rs"));
                }
            }
            Ok(p) => {
                j.stats.add("probe.source-accepted", 1);
                if !r.ok() && !r.hung && !r.hard() || !r.ok() && early && r.faults().filter(|f| f.2 != "z").all(|f| f.2 == "s") {
                    j.flaw(Kind::Exit, "refused-program", i, format!("run {i} ended with {} on a source that is a program", r.end()));
                }
                if r.ok() {
                    match &r.out {
                        None => j.flaw(Kind::Output, "missing", i, format!("run {i} ended with exit 0 and there is no out.rs")),
                        Some(o) => {
                            if let Some(d) = wopref::compare(o, &p) {
                                j.flaw(Kind::Output, "undeclared", i, format!("run {i}: out.rs does not say what the source declares: {d}"));
                            }
                        }
                    }
                }
            }
        }
        before = r.out;
    }
    Ok(())
}

/// What wop shows of its runs, of any source and however its reads and writes go.
fn judge_c23(s: &PScenario, j: &mut J) -> Result<(), String> {
    let wop = crate::show::Wop::new();
    let dir = fresh("history");
    prepare(&dir, s)?;
    for (i, st) in s.steps.iter().enumerate() {
        let src = &s.sources[st.source].0;
        let r = exec_shown(&dir, "wop", src, &st.plan, true)?;
        j.note(i, &r);
        j.manners(i, &r);
        if r.hung {
            break;
        }
        let mut given = src.clone();
        let (mut unread, mut cut) = (false, false);
        for (cls, _, act, arg) in r.faults() {
            let failed = matches!(act, "e" | "E") && arg != libc::EINTR as i64;
            unread |= cls == "src" && failed;
            cut |= cls == "say" && (failed || act == "f") || matches!(act, "k" | "m");
        }
        if r.faults().any(|f| f.2 == "z") {
            given.truncate(r.read());
        }
        let text = std::str::from_utf8(&given).ok();
        let Some(text) = text.filter(|_| !unread) else {
            j.stats.add("probe.source-unreadable", 1);
            if !r.stdout.is_empty() {
                j.flaw(Kind::Answer, "shown-unread", i, format!("run {i} could not read its source and shows {} bytes of a run", r.stdout.len()));
            }
            continue;
        };
        let Some(due) = wop.due(text) else {
            j.stats.add("probe.source-skipped", 1);
            continue;
        };
        let refused = due.reached == crate::show::Reached::Refused;
        j.stats.add(if refused { "probe.refusals-shown" } else { "probe.parses-shown" }, 1);
        j.stats.add("tokens", due.tokens);
        j.stats.add("probe.stacks-shown", due.steps);
        let shown = match due.compare(&r.stdout) {
            crate::show::Verdict::Whole => due.len(),
            crate::show::Verdict::Start(k) => k,
            crate::show::Verdict::Differs(why) => {
                j.flaw(Kind::Answer, "shown", i, format!("run {i} shows what did not happen, or not what happened: {why}"));
                continue;
            }
        };
        if shown < due.len() {
            j.stats.add("probe.cut-short", 1);
        }
        if !due.enough(shown, r.ok()) && (r.ok() || !cut) {
            j.flaw(Kind::Answer, "not-shown", i, format!("run {i} ended with {} and shows {shown} of {} things", r.end(), due.len()));
        }
        if refused && r.ok() {
            j.flaw(Kind::Exit, "accepted-damaged", i, format!("run {i} ended with exit 0 on a source that is no program"));
        }
    }
    Ok(())
}

/// A program that calls wop's library (wlib/lrpsim_woplib.rs): operations on sources, in one process.
fn judge_c24(s: &PScenario, j: &mut J) -> Result<(), String> {
    let wop = crate::show::Wop::new();
    let dir = fresh("library");
    let texts: Vec<String> = s.sources.iter().map(|b| String::from_utf8_lossy(&b.0).into_owned()).collect();
    let plan = s.steps.first().map(|x| x.plan.clone()).unwrap_or_default();
    // ops on sources and machines that are there
    let mut open: HashMap<usize, (usize, bool)> = HashMap::new();
    let mut ops: Vec<Vec<usize>> = Vec::new();
    let mut lines = Vec::new();
    for l in &s.sessions {
        let w: Vec<&str> = l.split(' ').collect();
        let n: Vec<usize> = (1..4).map(|i| w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0)).collect();
        let there = match w[0] {
            "b" | "t" => n[0] < texts.len(),
            "o" => n[1] < texts.len(),
            _ => true,
        };
        if there {
            lines.push(l.as_str());
            ops.push(n);
        }
    }
    let mut blob = lines.join(";").into_bytes();
    blob.push(b'\n');
    blob.extend(texts.iter().map(|t| t.len().to_string()).collect::<Vec<_>>().join(" ").into_bytes());
    blob.push(b'\n');
    for t in &texts {
        blob.extend(t.as_bytes());
    }
    let r = exec_shown(&dir, "examples/lrpsim_woplib", &blob, &plan, true)?;
    j.note(0, &r);
    if r.hung {
        j.flaw(Kind::Live, "no-end", 0, "the calls of wop's library do not end".into());
        return Ok(());
    }
    // the results, by operation
    let mut results: HashMap<usize, Vec<(String, &[u8])>> = HashMap::new();
    let mut rest = &r.stdout[..];
    let whole = loop {
        let Some(nl) = rest.iter().position(|b| *b == b'\n') else { break false };
        let head = String::from_utf8_lossy(&rest[..nl]).into_owned();
        let w: Vec<&str> = head.split(' ').collect();
        if head == "@ end" {
            break true;
        }
        let (Some(k), Some(len)) = (w.get(1).and_then(|x| x.parse().ok()), w.get(3).and_then(|x| x.parse::<usize>().ok())) else { break false };
        if rest.len() < nl + len + 2 {
            break false;
        }
        results.entry(k).or_default().push((w[2].into(), &rest[nl + 1..nl + 1 + len]));
        rest = &rest[nl + len + 2..];
    };
    if !whole || !r.ok() {
        j.flaw(Kind::Exit, "died", 0, format!("a program that calls wop's library ended with {} in the middle", r.end()));
        return Ok(());
    }
    // what a builder made of a source, or that it refused
    let built = |j: &mut J, k: usize, si: usize, what: &str, text: &[u8]| {
        let Some(due) = wop.due(&texts[si]) else {
            j.stats.add("probe.source-skipped", 1);
            return;
        };
        let op = lines.get(k).copied().unwrap_or("");
        if due.reached == crate::show::Reached::Refused {
            j.stats.add("probe.refusals-compared", 1);
            if what != "err" {
                j.flaw(Kind::Exit, "accepted-damaged", k, format!("operation {k} ({op}): source {si} is no program, the answer is {what:?}"));
            } else if let Err(why) = due.ended(text) {
                j.flaw(Kind::Answer, "refused-otherwise", k, format!("operation {k} ({op}) on source {si}: {why}"));
            }
            return;
        }
        match wopref::read(texts[si].as_bytes()) {
            Err(wopref::Bad::Unsure) => j.stats.add("probe.source-skipped", 1),
            Err(wopref::Bad::Refused(why)) => {
                j.stats.add("probe.generator-refusals", 1);
                if what == "out" {
                    j.flaw(Kind::Exit, "accepted-damaged", k, format!("operation {k} ({op}): source {si} is no program ({why}), and it is built"));
                }
            }
            Ok(p) if what == "out" => {
                j.stats.add("probe.programs-compared", 1);
                if let Some(d) = wopref::compare(text, &p) {
                    j.flaw(Kind::Output, "undeclared", k, format!("operation {k} ({op}): what is built is not what source {si} declares: {d}"));
                } else if let Err(d) = wopref::compare_binds(text, &p) {
                    j.flaw(Kind::Output, "bound-otherwise", k, format!("operation {k} ({op}) on source {si}: {d}"));
                }
            }
            Ok(_) => j.flaw(Kind::Exit, "refused-program", k, format!("operation {k} ({op}): source {si} is a program, the answer is {what:?}: {}", String::from_utf8_lossy(&text[..text.len().min(200)]))),
        }
    };
    let none = Vec::new();
    for (k, n) in ops.iter().enumerate() {
        let have = results.get(&k).unwrap_or(&none);
        let op = lines[k];
        match op.as_bytes()[0] {
            b'b' | b't' => {
                j.stats.add(if op.starts_with('t') { "probe.built-on-a-thread" } else { "probe.built" }, 1);
                match &have[..] {
                    [(what, text)] => built(j, k, n[0], what, text),
                    _ => return Err(format!("the driver of wop's library gave {} results for {op:?}", have.len())),
                }
            }
            b'o' => {
                open.insert(n[0], (n[1], n[2] > 0));
            }
            b'c' => {
                if let Some(m) = open.get(&n[0]).copied() {
                    j.stats.add("fault.machine-copied", 1);
                    open.insert(n[1], m);
                }
            }
            b'x' => {
                if let Some((si, _)) = open.remove(&n[0]) {
                    j.stats.add("fault.machine-abandoned", 1);
                    if let (Some((_, text)), Some(due)) = (have.first(), wop.due(&texts[si])) {
                        if let Err(why) = due.begun(text) {
                            j.flaw(Kind::Answer, "stepped-otherwise", k, format!("the machine on source {si} abandoned by operation {k}: {why}"));
                        }
                    }
                }
            }
            b's' | b'f' => {
                let Some((si, panics)) = open.get(&n[0]).copied() else { continue };
                let Some((what, text)) = have.first() else {
                    if op.starts_with('f') {
                        return Err(format!("the driver of wop's library gave no result for {op:?}"));
                    }
                    continue;
                };
                if what == "paused" {
                    j.stats.add("fault.source-panic", 1);
                    if !panics {
                        return Err("the source panicked unasked".into());
                    }
                    open.insert(n[0], (si, false));
                    continue;
                }
                open.remove(&n[0]);
                let Some(due) = wop.due(&texts[si]) else { continue };
                j.stats.add("sessions", 1);
                j.stats.add("tokens", due.tokens);
                j.stats.add("callbacks", due.steps.saturating_sub(due.tokens));
                let refused = due.reached == crate::show::Reached::Refused;
                if what == "broke" {
                    j.flaw(Kind::Panic, "machine", k, format!("the machine on source {si} panics in operation {k} ({op})"));
                } else if (what == "refused") != refused {
                    j.flaw(Kind::Exit, "verdict", k, format!("the machine on source {si} ends as {what:?} in operation {k} ({op})"));
                } else if let Err(why) = due.judged(text) {
                    j.flaw(Kind::Answer, "stepped-otherwise", k, format!("the machine on source {si}, ended by operation {k} ({op}): {why}"));
                } else if let Some((what, text)) = have.get(1) {
                    built(j, k, si, what, text);
                }
            }
            _ => {}
        }
    }
    // machines nobody ended
    for (m, (si, _)) in open {
        let have = results.get(&(1_000_000 + m)).unwrap_or(&none);
        if let (Some((_, text)), Some(due)) = (have.first(), wop.due(&texts[si])) {
            if let Err(why) = due.begun(text) {
                j.flaw(Kind::Answer, "stepped-otherwise", m, format!("machine {m} on source {si}, left where it was: {why}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ wop built from its own grammar

/// Descendants made for each base seed: two of wop, and one of the first of them.
pub const DESCENDANTS: u64 = 3;

fn own_grammar() -> Result<Vec<u8>, String> {
    std::fs::read(target().join("src/repo/wop/src/wop.grammar")).map_err(|e| format!("wop.grammar: {e}"))
}

/// The descendant `id` (made once per tree): its program, or what is wrong with it.
fn descendant(id: u64) -> Result<Result<PathBuf, String>, String> {
    let e = |what: &str, e: std::io::Error| format!("{what}: {e}");
    let boot = target().join("boot");
    let home = boot.join(format!("gen/{id}"));
    let (done, program) = (home.join("done"), home.join("wop"));
    let known = || {
        std::fs::read_to_string(&done).ok().map(|t| if t.is_empty() { Ok(program.clone()) } else { Err(t) })
    };
    if let Some(k) = known() {
        return Ok(k);
    }
    let parent = if id % DESCENDANTS == DESCENDANTS - 1 {
        match descendant(id - 1)? {
            Ok(p) => p,
            Err(why) => return Ok(Err(format!("its parent: {why}"))),
        }
    } else {
        target().join("bins/release/wop")
    };
    let lock = std::fs::File::create(boot.join("lock")).map_err(|x| e("boot/lock", x))?;
    if unsafe { libc::flock(std::os::fd::AsRawFd::as_raw_fd(&lock), libc::LOCK_EX) } != 0 {
        return Err("boot/lock cannot be locked".into());
    }
    if let Some(k) = known() {
        return Ok(k);
    }
    std::fs::create_dir_all(&home).map_err(|x| e("boot/gen", x))?;
    let rng = &mut Rng::new(id ^ 0x5eed);
    let grammar = own_grammar()?;
    let mut plan = Plan { keys: rng.next(), clock: clock(rng), ..Plan::default() };
    for k in 0..4 {
        plan.faults.push(format!("src.read.{k}=s{}", 1 + rng.below(grammar.len().max(1))));
        plan.faults.push(format!("out.write.{k}=s{}", 1 + rng.below(4000)));
    }
    let verdict = (|| {
        let r = exec_file(&fresh("boot"), &parent, "wop", &grammar, &plan, false)?;
        let (true, Some(out)) = (r.ok(), r.out.as_ref()) else {
            return Ok(Some(format!("generating from wop.grammar ends with {}", r.end())));
        };
        let tree = boot.join("src");
        std::fs::write(tree.join("wop/src/out.rs"), out).map_err(|x| e("boot/src", x))?;
        let o = Command::new("cargo")
            .args(["build", "--offline", "--release", "-p", "wop", "--bin", "wop"])
            .current_dir(&tree)
            .env("CARGO_TARGET_DIR", boot.join("t"))
            .env("RUSTFLAGS", "")
            .stdin(Stdio::null())
            .output()
            .map_err(|x| e("cargo", x))?;
        if !o.status.success() {
            let text = String::from_utf8_lossy(&o.stderr).into_owned();
            if !text.contains("could not compile `wop`") {
                return Err(format!("cargo failed: {text}"));
            }
            let first: String = text.lines().find(|l| l.starts_with("error")).unwrap_or("no error").chars().take(300).collect();
            return Ok(Some(format!("what is generated from wop.grammar does not compile: {first}")));
        }
        std::fs::copy(boot.join("t/release/wop"), &program).map_err(|x| e("boot/wop", x))?;
        Ok(None)
    })()?;
    std::fs::write(&done, verdict.unwrap_or_default()).map_err(|x| e("boot/done", x))?;
    known().ok_or_else(|| "boot/done".into())
}

/// Makes the descendants of a base seed.
pub fn boot(seed: u64) -> i32 {
    for k in 0..DESCENDANTS {
        if let Err(e) = descendant(seed * DESCENDANTS + k) {
            eprintln!("lrpsim: {e}");
            return 2;
        }
    }
    0
}

/// What a run shows but for the times it took.
fn timeless(out: &[u8]) -> Vec<&[u8]> {
    out.split(|b| *b == b'\n').map(|l| if l.starts_with(b"ELAPSED TIME") { &b"ELAPSED TIME"[..] } else { l }).collect()
}

fn judge_c25(s: &PScenario, j: &mut J) -> Result<(), String> {
    let child = match descendant(s.generation)? {
        Ok(p) => p,
        Err(why) => {
            j.flaw(Kind::Output, "no-descendant", 0, format!("wop cannot be built from its own grammar: {why}"));
            return Ok(());
        }
    };
    let mother = target().join("bins/release/wop");
    let (dir_a, dir_b) = (fresh("mother"), fresh("child"));
    prepare(&dir_a, s)?;
    prepare(&dir_b, s)?;
    for (i, st) in s.steps.iter().enumerate() {
        let src = &s.sources[st.source].0;
        let a = exec_file(&dir_a, &mother, "wop", src, &st.plan, true)?;
        let b = exec_file(&dir_b, &child, "wop", src, &st.plan, true)?;
        j.note(i, &a);
        j.note(i, &b);
        j.manners(i, &b);
        if a.hung || b.hung {
            break;
        }
        j.stats.add(if a.ok() { "probe.programs-compared" } else { "probe.refusals-compared" }, 1);
        if a.end() != b.end() {
            j.flaw(Kind::Exit, "ends-otherwise", i, format!("run {i}: wop ends with {}, the wop built from its own grammar with {}", a.end(), b.end()));
            continue;
        }
        let (x, y) = (timeless(&a.stdout), timeless(&b.stdout));
        j.stats.add("lines", x.len() as u64);
        if x != y {
            let at = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let line = |v: &[&[u8]]| v.get(at).map_or("nothing".to_string(), |l| format!("{:?}", String::from_utf8_lossy(&l[..l.len().min(160)])));
            j.flaw(Kind::Answer, "shows-otherwise", i, format!("run {i}: in line {at} wop shows {}, the wop built from its own grammar {}", line(&x), line(&y)));
            continue;
        }
        if a.out != b.out {
            let d = first_difference(b.out.as_deref().unwrap_or_default(), a.out.as_deref().unwrap_or_default());
            j.flaw(Kind::Output, "generates-otherwise", i, format!("run {i}: wop and the wop built from its own grammar leave different files: {d}"));
        }
    }
    Ok(())
}

fn judge_c14(s: &PScenario, j: &mut J) -> Result<(), String> {
    let mut first: Option<(Vec<u8>, std::collections::BTreeMap<String, u32>)> = None;
    let mut by_keys: HashMap<u64, Vec<u8>> = HashMap::new();
    for (i, st) in s.steps.iter().enumerate() {
        let dir = fresh("apart");
        let r = exec(&dir, "wop", &s.sources[st.source].0, &st.plan)?;
        j.note(i, &r);
        j.manners(i, &r);
        if r.hung {
            break;
        }
        if !r.ok() {
            if !r.hard() && !r.hung && wopref::read(&s.sources[st.source].0).is_ok() {
                j.flaw(Kind::Exit, "failed-without-cause", i, format!("run {i} ended with {}; run 0 succeeded or there was no reason to fail", r.end()));
            }
            continue;
        }
        let Some(out) = r.out else {
            j.flaw(Kind::Output, "missing", i, format!("run {i} ended with exit 0 and there is no out.rs"));
            continue;
        };
        match by_keys.get(&st.plan.keys) {
            Some(o) if *o != out => j.flaw(Kind::Output, "same-keys-differ", i, format!("run {i} wrote other bytes than an earlier run with the same randomness: {}", first_difference(o, &out))),
            Some(_) => j.stats.add("probe.same-randomness-compared", 1),
            None => {
                by_keys.insert(st.plan.keys, out.clone());
            }
        }
        let c = wopref::canonical(&out);
        match &first {
            None => first = Some((out, c)),
            Some((o, f)) => {
                j.stats.add("probe.other-randomness-compared", 1);
                if *o != out {
                    j.stats.add("probe.order-differed", 1);
                }
                if *f != c {
                    let d: Vec<_> = f.iter().filter(|(k, v)| c.get(*k) != Some(v)).take(2).collect();
                    let e: Vec<_> = c.iter().filter(|(k, v)| f.get(*k) != Some(v)).take(2).collect();
                    j.flaw(Kind::Output, "not-a-function", i, format!("run {i} generated other declarations than run 0 from the same source: {d:?} against {e:?}"));
                }
            }
        }
    }
    Ok(())
}

fn judge_c19(s: &PScenario, j: &mut J) -> Result<(), String> {
    let dir = fresh("history");
    prepare(&dir, s)?;
    for (i, st) in s.steps.iter().enumerate() {
        let src = &s.sources[st.source].0;
        let r = exec(&dir, "wop", src, &st.plan)?;
        j.note(i, &r);
        if r.hung {
            break;
        }
        let (Some(out), Ok(p), true) = (&r.out, wopref::read(src), r.ok()) else { continue };
        match wopref::compare_binds(out, &p) {
            Ok((good, unsure)) => {
                j.stats.add("probe.callbacks-compared", good);
                j.stats.add("probe.callbacks-not-judged", unsure);
                j.stats.add("aliases", p.rules.values().flat_map(|r| r.binds.iter().flatten()).map(|b| b.len() as u64).sum());
            }
            Err(d) => j.flaw(Kind::Output, "bound-otherwise", i, format!("run {i} ended with exit 0 and {d}")),
        }
    }
    Ok(())
}

/// Runs a helper (the compiler, a driver) in `dir`. None: it had to be stopped.
fn helper(c: &mut Command, dir: &Path, input: Option<&str>) -> Result<Option<(bool, String, String)>, String> {
    let file = |n: &str| std::fs::File::create(dir.join(n)).map_err(|e| format!("{n}: {e}"));
    c.current_dir(dir).stdout(file("stdout")?).stderr(file("stderr")?);
    match input {
        Some(i) => {
            std::fs::write(dir.join("stdin"), i).map_err(|e| format!("stdin: {e}"))?;
            c.stdin(std::fs::File::open(dir.join("stdin")).map_err(|e| format!("stdin: {e}"))?);
        }
        None => {
            c.stdin(Stdio::null());
        }
    }
    let mut k = c.spawn().map_err(|e| format!("{c:?}: {e}"))?;
    let st = wait(&mut k);
    let text = |n: &str| String::from_utf8_lossy(&std::fs::read(dir.join(n)).unwrap_or_default()).into_owned();
    Ok(st.map(|s| (s.success(), text("stdout"), text("stderr"))))
}

/// Compiles the modules that are there into `dir`/run. Ok(Some): what the compiler says against it.
fn compile(dir: &Path, modules: &[usize]) -> Result<Option<String>, String> {
    let mut main = "#![allow(warnings)]\npub use rt::*;\n".to_string();
    for m in modules {
        main.push_str(&format!("mod g{m};\n"));
    }
    let list: Vec<String> = modules.iter().map(|m| format!("({m}, g{m}::grammar, g{m}::reduct_map)")).collect();
    main.push_str(&format!("fn main() {{ rt::run(&[{}]); }}\n", list.join(", ")));
    std::fs::write(dir.join("main.rs"), main).map_err(|e| e.to_string())?;
    let lib = target().join("e2e");
    let rustc = std::fs::read_to_string(lib.join("rustc")).map_err(|e| format!("e2e/rustc: {e}"))?;
    let mut c = Command::new(rustc.trim());
    c.args(["--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "prefer-dynamic", "-C", "rpath", "-o", "run", "main.rs", "--extern"]);
    c.arg(format!("rt={}", lib.join("librt.rlib").display())).arg("--extern").arg(format!("lrp={}", lib.join("liblrp.rlib").display())).arg("-L").arg(&lib);
    match helper(&mut c, dir, None)? {
        None => Err("the compiler does not end".into()),
        Some((true, ..)) => Ok(None),
        Some((false, _, err)) => {
            let first: String = err.lines().find(|l| l.starts_with("error")).unwrap_or("no error").chars().take(300).collect();
            if ["error: linking", "error: could not", "error: couldn't", "error: failed"].iter().any(|h| first.starts_with(h)) {
                return Err(format!("the compiler failed: {err}"));
            }
            Ok(Some(first))
        }
    }
}

fn judge_c22(s: &PScenario, j: &mut J) -> Result<(), String> {
    let dir = fresh("e2e");
    let mut parsers: HashMap<usize, crate::e2e::Declared> = HashMap::new();
    let mut modules = Vec::new();
    for (i, st) in s.steps.iter().enumerate() {
        let src = &s.sources[st.source].0;
        let Some(d) = crate::e2e::declared(src) else { continue };
        let r = exec(&dir.join("wop"), "wop", src, &st.plan)?;
        j.note(i, &r);
        j.manners(i, &r);
        if r.hung {
            return Ok(());
        }
        match r.out {
            Some(o) if r.ok() => {
                std::fs::write(dir.join(format!("g{}.rs", st.source)), o).map_err(|e| e.to_string())?;
                if parsers.insert(st.source, d).is_none() {
                    modules.push(st.source);
                }
            }
            _ if r.hard() => {}
            _ => j.flaw(Kind::Exit, "failed-without-cause", i, format!("run {i} of wop ended with {} on a source of the language", r.end())),
        }
    }
    if modules.is_empty() {
        return Ok(());
    }
    j.stats.add("modules", modules.len() as u64);
    if let Some(all) = compile(&dir, &modules)? {
        // which of them
        for m in &modules {
            if let Some(e) = compile(&dir, &[*m])? {
                j.flaw(Kind::Output, "not-compiled", *m, format!("what wop generated from source {m} does not compile: {e}"));
                return Ok(());
            }
        }
        j.flaw(Kind::Output, "not-compiled", 0, format!("what wop generated does not compile: {all}"));
        return Ok(());
    }
    let sessions: Vec<(&str, usize, Vec<String>)> = s
        .sessions
        .iter()
        .filter_map(|l| {
            let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
            let m: usize = w.first()?.parse().ok()?;
            let due = crate::e2e::due(parsers.get(&m)?, w.get(1..)?)?;
            Some((l.as_str(), m, due))
        })
        .collect();
    let input: String = sessions.iter().map(|x| format!("{}\n", x.0)).collect();
    let mut c = Command::new(dir.join("run"));
    c.env_clear();
    let Some((ok, out, err)) = helper(&mut c, &dir, Some(&input))? else {
        j.flaw(Kind::Live, "no-end", 0, "the sessions of the generated parsers do not end".into());
        return Ok(());
    };
    j.fp.bytes(out.as_bytes());
    let logs: Vec<&str> = out.split("--\n").collect();
    for (k, (line, m, due)) in sessions.iter().enumerate() {
        let log: Vec<&str> = logs.get(k).unwrap_or(&"").lines().collect();
        j.log.push(format!("session {line}: {}", log.join("; ")));
        let n = |p: &str| due.iter().filter(|l| l.starts_with(p)).count() as u64;
        j.stats.add("sessions", 1);
        j.stats.add("tokens", n("d "));
        j.stats.add("callbacks", n("r "));
        j.stats.add("fault.callback-or-source-panic", n("p"));
        j.stats.add(
            match due.last().map_or("", |l| l.as_str()) {
                l if l.starts_with("o ok") => "outcome.accepted",
                l if l.starts_with("o unex") => "outcome.unexpected-token",
                l if l.starts_with("o conf") => "outcome.conflict",
                l if l.starts_with("o Inc") => "outcome.incomplete",
                _ => "outcome.ended-by-panic",
            },
            1,
        );
        if log != *due {
            let at = log.iter().zip(due).take_while(|(a, b)| *a == b).count();
            let nothing = &"nothing more";
            let (have, want) = (log.get(at).unwrap_or(nothing), due.get(at).map_or(*nothing, String::as_str));
            j.flaw(Kind::Differs, "ran-otherwise", *m, format!("session {line:?}: event {at} is {have:?}, due: {want:?}"));
            return Ok(());
        }
    }
    if !ok || logs.len() != sessions.len() + 1 {
        return Err(format!("the driver of the generated parsers failed: {err}"));
    }
    Ok(())
}

/// The verdict of the demo's grammar on a line.
fn nested(line: &str) -> bool {
    let b = line.as_bytes();
    let n = b.len();
    n > 0
        && n % 2 == 0
        && (0..n / 2).all(|i| matches!((b[i], b[n - 1 - i]), (b'(', b')') | (b'[', b']') | (b'{', b'}')))
}

/// The verdicts in a stretch of output: the last row of each table that has one.
fn verdicts(out: &str) -> Vec<String> {
    out.lines()
        .filter_map(|l| {
            // the prompt is not followed by a line end
            let l = l.trim_start_matches("input: ");
            let mut c = l.split('|');
            if c.next()?.trim() != "" || c.next()?.trim() != "state" {
                return None;
            }
            Some(c.next()?.trim().to_string())
        })
        .collect()
}

fn judge_c15(s: &PScenario, j: &mut J) -> Result<(), String> {
    for (i, st) in s.steps.iter().enumerate() {
        let input = &s.sources[st.source].0;
        let dir = fresh("demo");
        let r = exec(&dir, "lrp", input, &st.plan)?;
        j.note(i, &r);
        if r.hung {
            j.flaw(Kind::Live, "no-end", i, format!("the demo did not end after its input had ended ({} calls logged)", r.log.lines().count()));
            break;
        }
        let text = String::from_utf8_lossy(input).into_owned();
        let lines: Vec<&str> = text.lines().map(str::trim).collect();
        let out = String::from_utf8_lossy(&r.stdout).into_owned();
        let got = verdicts(&out);
        let hard = r.hard();
        if !hard && !r.ok() {
            j.flaw(Kind::Exit, "failed-without-cause", i, format!("the demo ended with {} at the end of its input", r.end()));
        }
        if hard && r.ok() && r.faults().any(|f| matches!(f.2, "E") && f.3 != libc::EINTR as i64) {
            j.flaw(Kind::Exit, "error-ignored", i, "the demo ended with exit 0 though its input or output had failed".into());
        }
        if got.len() > lines.len() || (!hard && got.len() != lines.len()) {
            j.flaw(Kind::Answer, "count", i, format!("{} answers to {} lines", got.len(), lines.len()));
        }
        for (k, (g, l)) in got.iter().zip(&lines).enumerate() {
            let ok = g == "ok";
            let want = nested(l);
            if ok != want {
                j.flaw(Kind::Answer, "verdict", i, format!("line {k} {l:?} is answered {g:?}"));
            }
            if !ok && !want {
                // the first token that no sentence starting like this can have
                let bad = offending(l);
                if !g.contains(&bad) {
                    j.flaw(Kind::Answer, "reason", i, format!("line {k} {l:?} is answered {g:?}, which does not name {bad}"));
                }
            }
        }
        j.stats.add("lines", got.len() as u64);
        // before each request for input, all complete lines have been answered and a prompt is out
        let mut given = 0usize;
        for l in r.log.lines() {
            if let Some(n) = l.strip_prefix("read in ") {
                given += n.parse::<usize>().unwrap_or(0);
            } else if let Some(n) = l.strip_prefix("ask ") {
                let said = &r.stdout[..n.parse::<usize>().unwrap_or(0).min(r.stdout.len())];
                let said = String::from_utf8_lossy(said);
                let complete = input[..given.min(input.len())].iter().filter(|b| **b == b'\n').count();
                let have = verdicts(&said).len();
                // at the end of input a last line without line end is complete too
                let open = given >= input.len() && input.last().is_some_and(|b| *b != b'\n');
                if have < complete || have > complete + usize::from(open) {
                    j.flaw(Kind::Order, "unanswered", i, format!("{have} answers were out when {complete} lines had been read and more input was asked for"));
                    break;
                }
                if !said.trim_end_matches(' ').ends_with("input:") {
                    j.flaw(Kind::Order, "no-prompt", i, "input was asked for before the prompt was out".into());
                    break;
                }
                j.stats.add("probe.asked-with-answers-out", 1);
            }
        }
    }
    Ok(())
}

/// What is shown at the start and for each line, of runs however their reads and writes are cut.
fn judge_c21(s: &PScenario, j: &mut J) -> Result<(), String> {
    let demo = crate::demo::Demo::new();
    for (i, st) in s.steps.iter().enumerate() {
        let input = &s.sources[st.source].0;
        let dir = fresh("demo");
        let r = exec(&dir, "lrp", input, &st.plan)?;
        j.note(i, &r);
        if r.hung {
            j.flaw(Kind::Live, "no-end", i, format!("the demo did not end after its input had ended ({} calls logged)", r.log.lines().count()));
            break;
        }
        let text = String::from_utf8_lossy(input).into_owned();
        let lines: Vec<&str> = text.lines().map(str::trim).collect();
        let out = String::from_utf8_lossy(&r.stdout).into_owned();
        let mut parts: Vec<&str> = out.split("input: ").collect();
        if r.hard() {
            // it may have been stopped in the middle of the last one
            parts.pop();
            if parts.is_empty() {
                continue;
            }
        } else {
            if !r.ok() {
                j.flaw(Kind::Exit, "failed-without-cause", i, format!("the demo ended with {} at the end of its input", r.end()));
            }
            if parts.len() != lines.len() + 2 {
                j.flaw(Kind::View, "count", i, format!("{} prompts for {} lines", parts.len() - 1, lines.len()));
                continue;
            }
            let last = parts.pop().unwrap();
            if !last.trim().is_empty() {
                j.flaw(Kind::View, "count", i, format!("after the last line it shows {last:?}"));
            }
        }
        let cells = match demo.start(parts[0]) {
            Ok(c) => c,
            Err(e) => {
                j.flaw(Kind::View, "start", i, e);
                continue;
            }
        };
        j.stats.add("probe.starts-compared", 1);
        for (p, l) in parts[1..].iter().zip(&lines) {
            match demo.line(p, &cells, l) {
                Ok(n) => {
                    j.stats.add("lines", 1);
                    j.stats.add("probe.steps-compared", n as u64);
                }
                Err(e) => {
                    j.flaw(Kind::View, "line", i, format!("for the line {l:?}: {e}"));
                    break;
                }
            }
        }
    }
    Ok(())
}

/// What the refusal of a line must name: its offending token, or the end.
fn offending(l: &str) -> String {
    let mut stack = Vec::new();
    let mut closing = false;
    for c in l.chars() {
        let close = |o: char| match o {
            '(' => ')',
            '[' => ']',
            _ => '}',
        };
        match c {
            '(' | '[' | '{' if !closing => stack.push(c),
            ')' | ']' | '}' if stack.last().is_some_and(|o| close(*o) == c) => {
                closing = true;
                stack.pop();
            }
            _ => return format!("{:?}", c.to_string()),
        }
    }
    "\"$\"".into()
}

pub fn evaluate(s: &PScenario) -> PResult {
    let mut j = J { flaws: Vec::new(), stats: Stats::default(), log: Vec::new(), fp: Fnv::new(), calls: 0, controls: 0, cache: HashMap::new() };
    for d in &s.damage {
        let k = ["cut", "zeroed", "doubled", "flipped", "stale-tail", "swapped", "dropped", "mixed", "edited"].into_iter().find(|k| d.starts_with(k));
        j.stats.add(
            match k {
                Some("cut") => "fault.source-cut",
                Some("zeroed") => "fault.source-block-zeroed",
                Some("doubled") => "fault.source-block-doubled",
                Some("flipped") => "fault.source-bit-flipped",
                Some("stale-tail") => "fault.source-stale-tail",
                Some("swapped") => "fault.source-blocks-swapped",
                Some("dropped") => "fault.source-block-lost",
                Some("mixed") => "fault.source-versions-mixed",
                _ => "probe.source-edited",
            },
            1,
        );
    }
    let r = match s.property.as_str() {
        "C12" => judge_c12(s, &mut j),
        "C13" => judge_c13(s, &mut j),
        "C14" => judge_c14(s, &mut j),
        "C19" => judge_c19(s, &mut j),
        "C21" => judge_c21(s, &mut j),
        "C22" => judge_c22(s, &mut j),
        "C23" => judge_c23(s, &mut j),
        "C24" => judge_c24(s, &mut j),
        "C25" => judge_c25(s, &mut j),
        _ => judge_c15(s, &mut j),
    };
    PResult { flaws: j.flaws, stats: j.stats, log: j.log, fp: j.fp.0, calls: j.calls, controls: j.controls, harness_error: r.err() }
}

// ------------------------------------------------------------------ scenarios

fn errno(rng: &mut Rng) -> i32 {
    *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EBADF, libc::EPERM])
}

/// Faults of the output side.
fn output_faults(rng: &mut Rng, p: &mut Plan) {
    // a run makes a handful of output writes: small numbers find them
    for _ in 0..1 + rng.below(3) {
        let n = rng.below(5);
        let f = match rng.below(12) {
            0 | 1 => format!("out.write.{n}=e{}", errno(rng)),
            2 => format!("out.write.{n}=E{}", errno(rng)),
            3 => format!("out.write.{n}=e{}", libc::EINTR),
            4 | 5 => format!("out.write.{n}=s{}", 1 + rng.below(3000)),
            6 => format!("out.write.0=f{}", rng.below(9000)),
            7 => format!("out.write.{n}=k{}", rng.below(3000)),
            8 => format!("out.open.0=e{}", rng.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS, libc::EINTR])),
            9 => format!("any.call.{}=k0", if rng.chance(50) { rng.below(40) } else { rng.below(1500) }),
            10 => format!("say.write.{}=e{}", rng.below(600), rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EINTR, libc::EIO])),
            _ => format!("mem.{}=m", rng.below(4000)),
        };
        p.faults.push(f);
    }
    if rng.chance(20) {
        // everything in small pieces
        for n in 0..12 {
            p.faults.push(format!("out.write.{n}=s{}", 1 + rng.below(4000)));
        }
    }
}

fn clock(rng: &mut Rng) -> (u8, u64) {
    (rng.below(3) as u8, rng.next() >> 1)
}

fn source_faults(rng: &mut Rng, p: &mut Plan, len: usize) {
    match rng.below(8) {
        0 => p.faults.push(format!("src.read.{}=e{}", rng.below(3), rng.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN]))),
        1 => p.faults.push(format!("src.read.{}=E{}", rng.below(3), libc::EIO)),
        2 => p.faults.push(format!("src.open.0=e{}", rng.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE]))),
        3 | 4 => {
            // ends early, after some short reads
            let k = 1 + rng.below(4);
            for n in 0..k {
                p.faults.push(format!("src.read.{n}=s{}", 1 + rng.below(len.max(1))));
            }
            p.faults.push(format!("src.read.{k}=z0"));
        }
        _ => {
            for n in 0..1 + rng.below(12) {
                if rng.chance(30) {
                    p.faults.push(format!("src.read.{n}=e{}", libc::EINTR));
                } else {
                    p.faults.push(format!("src.read.{n}=s{}", 1 + rng.below(len.max(1))));
                }
            }
        }
    }
    if rng.chance(10) {
        p.faults.push(format!("src.open.0=e{}", libc::EINTR));
    }
}

fn damaged(rng: &mut Rng, src: &str, older: &str) -> (Vec<u8>, String) {
    let mut b = src.as_bytes().to_vec();
    let n = b.len();
    let old = older.as_bytes();
    let at = rng.below(n);
    let longest = if rng.chance(50) { 6 } else { 120 };
    let len = 1 + rng.below(longest);
    let end = (at + len).min(n);
    let what = match rng.below(9) {
        0 | 1 => {
            b.truncate(at);
            format!("cut at {at}")
        }
        2 => {
            b[at..end].fill(0);
            format!("zeroed {at}..{end}")
        }
        3 => {
            let x = b[at..end].to_vec();
            b.splice(end..end, x);
            format!("doubled {at}..{end}")
        }
        4 => {
            let bit = rng.below(8);
            b[at] ^= 1 << bit;
            format!("flipped bit {bit} of {at}")
        }
        5 => {
            // a shorter file over a longer one
            if old.len() > n {
                b.extend_from_slice(&old[n..]);
            } else {
                b.extend_from_slice(&old[old.len() - rng.below(old.len()) - 1..]);
            }
            "stale-tail".into()
        }
        6 => {
            let k = rng.below(n - 1) + 1;
            b.rotate_left(k);
            format!("swapped at {k}")
        }
        7 => {
            b.drain(at..end);
            format!("dropped {at}..{end}")
        }
        _ => {
            let k = at.min(old.len());
            b[..k].copy_from_slice(&old[..k]);
            format!("mixed at {k}")
        }
    };
    (b, what)
}

/// A source of the language, and one edit of its text that a mistaken reading could miss.
fn edited(rng: &mut Rng, src: &str) -> (Vec<u8>, String) {
    let hits: Vec<(usize, usize)> = {
        let pats = ["->", ";", "}%", ":", "=", "|", "(", ")", "?", "\"", "::", "use", "alias", "*/", "//"];
        let p = rng.pick(&pats);
        src.match_indices(p).map(|(i, m)| (i, m.len())).collect()
    };
    let mut s = src.to_string();
    if hits.is_empty() {
        return (s.into_bytes(), "edited".into());
    }
    let (i, n) = *rng.pick(&hits);
    match rng.below(3) {
        0 => s.replace_range(i..i + n, ""),
        1 => s.insert_str(i, &src[i..i + n]),
        _ => s.insert_str(i, rng.pick(&[" ; ", " | ", " } ", "X ", " ? ", "%", " -> {}% ", " :z "])),
    }
    (s.into_bytes(), format!("edited at {i}"))
}

/// A few tokens, seldom a program.
fn few(rng: &mut Rng) -> (Vec<u8>, String) {
    let words = ["use", "alias", "x", "A::b", "\"s\"", "::", ":", "=", "|", "(", ")", ";", "*", "?", "&", "-> { x }%", "// c\n", "/* c */", "\n", "#", "-", "\""];
    let starts = ["", "x: y = ", "use ", "alias ", "x: y = (", "use a;", "alias \"a\" b;\n", "x: y = z -> {}% |"];
    let mut s = rng.pick(&starts).to_string();
    for _ in 0..rng.below(9) {
        s.push_str(rng.pick(&words));
        s.push_str(rng.pick(&[" ", "", "\n"]));
    }
    (s.into_bytes(), "edited few".into())
}

pub fn generate_for(property: &str, seed: u64) -> PScenario {
    let mut f = Fnv::new();
    f.bytes(property.as_bytes());
    f.u64(seed);
    let rng = &mut Rng::new(f.0);
    let keys: Vec<u64> = (0..3).map(|_| rng.next()).collect();
    let mut s = PScenario { property: property.into(), sources: Vec::new(), damage: Vec::new(), before: None, steps: Vec::new(), sessions: Vec::new(), generation: 0 };
    let text = |rng: &mut Rng| {
        let big = rng.chance(50);
        let once = property == "C19" || rng.chance(30);
        wopref::source(rng, big, once)
    };
    match property {
        "C12" => {
            for _ in 0..1 + rng.below(3) {
                let t = text(rng);
                s.sources.push(Blob(t.into_bytes()));
            }
            if rng.chance(30) {
                let n = rng.below(60000);
                s.before = Some(Blob(b"// an earlier file\n".iter().copied().cycle().take(n).collect()));
            }
            for _ in 0..1 + rng.below(4) {
                let mut p = Plan { keys: *rng.pick(&keys), clock: clock(rng), ..Plan::default() };
                if rng.chance(85) {
                    output_faults(rng, &mut p);
                }
                if rng.chance(20) {
                    let n = s.sources[0].0.len();
                    source_faults(rng, &mut p, n);
                    p.faults.retain(|f| !f.contains("=z"));
                }
                s.steps.push(Step { source: rng.below(s.sources.len()), plan: p });
            }
            // when the faults have stopped the next run succeeds
            s.steps.push(Step { source: rng.below(s.sources.len()), plan: Plan { keys: *rng.pick(&keys), clock: clock(rng), ..Plan::default() } });
        }
        "C13" => {
            let t = text(rng);
            let older = text(rng);
            for _ in 0..1 + rng.below(4) {
                let (b, what) = if rng.chance(60) {
                    damaged(rng, &t, &older)
                } else if rng.chance(60) {
                    edited(rng, &t)
                } else {
                    (t.clone().into_bytes(), "edited not".into())
                };
                s.sources.push(Blob(b));
                s.damage.push(what);
            }
            if rng.chance(60) {
                s.before = Some(Blob(b"// an earlier file\n".to_vec()));
            }
            for i in 0..s.sources.len() {
                let mut p = Plan { keys: *rng.pick(&keys), clock: clock(rng), ..Plan::default() };
                if rng.chance(50) {
                    source_faults(rng, &mut p, s.sources[i].0.len());
                }
                s.steps.push(Step { source: i, plan: p });
            }
        }
        "C23" => {
            let t = text(rng);
            let older = text(rng);
            for _ in 0..1 + rng.below(4) {
                let (b, what) = match rng.below(10) {
                    0..=2 => damaged(rng, &t, &older),
                    3..=5 => edited(rng, &t),
                    6 => few(rng),
                    _ => (text(rng).into_bytes(), "edited not".into()),
                };
                s.sources.push(Blob(b));
                s.damage.push(what);
            }
            for i in 0..s.sources.len() {
                let mut p = Plan { keys: *rng.pick(&keys), clock: clock(rng), ..Plan::default() };
                if rng.chance(30) {
                    source_faults(rng, &mut p, s.sources[i].0.len());
                }
                if rng.chance(50) {
                    // a run shows a few hundred things
                    for _ in 0..1 + rng.below(8) {
                        let top = if rng.chance(50) { 30 } else { 600 };
                        let n = rng.below(top);
                        p.faults.push(match rng.below(3) {
                            0 => format!("say.write.{n}=e{}", libc::EINTR),
                            _ => format!("say.write.{n}=s{}", 1 + rng.below(200)),
                        });
                    }
                }
                if rng.chance(20) {
                    let top = if rng.chance(50) { 30 } else { 600 };
                        let n = rng.below(top);
                    p.faults.push(match rng.below(4) {
                        0 => format!("say.write.{n}=e{}", rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
                        1 => format!("say.write.{n}=E{}", rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
                        2 => format!("any.call.{n}=k0"),
                        _ => format!("mem.{}=m", rng.below(4000)),
                    });
                }
                if rng.chance(8) {
                    output_faults(rng, &mut p);
                }
                s.steps.push(Step { source: i, plan: p });
            }
        }
        "C24" => {
            let t = text(rng);
            let older = text(rng);
            for _ in 0..1 + rng.below(4) {
                let (b, what) = match rng.below(10) {
                    0 | 1 => damaged(rng, &t, &older),
                    2 | 3 => edited(rng, &t),
                    4 => few(rng),
                    5 => {
                        // it parses, and the generator gives up in the middle
                        let bad = ["alias \"q\" A; alias \"q\" B;", "zz: T = zz;", "zz: T = (a -> { x }%) -> { y }%;", "zz: T = a -> { x }%; zz: T = b -> { y }%;"];
                        (format!("{t}\n{}\n", rng.pick(&bad)).into_bytes(), "edited".into())
                    }
                    _ => (text(rng).into_bytes(), "edited not".into()),
                };
                s.sources.push(Blob(b));
                s.damage.push(what);
            }
            let mut p = Plan { keys: *rng.pick(&keys), clock: clock(rng), ..Plan::default() };
            if rng.chance(20) {
                for n in 0..1 + rng.below(4) {
                    p.faults.push(format!("src.read.{n}=s{}", 1 + rng.below(t.len())));
                    p.faults.push(format!("say.write.{n}=s{}", 1 + rng.below(4000)));
                }
            }
            s.steps.push(Step { source: 0, plan: p });
            let (k, n) = (rng.below(4), 2 + rng.below(12));
            for i in 0..=k {
                let panics = if rng.chance(40) { 1 + rng.below(40) } else { 0 };
                s.sessions.push(format!("o {i} {} {panics}", rng.below(s.sources.len())));
            }
            for _ in 0..n {
                let m = rng.below(k + 1);
                s.sessions.push(match rng.below(12) {
                    0 | 1 => format!("b {}", rng.below(s.sources.len())),
                    2 => format!("t {}", rng.below(s.sources.len())),
                    3 => format!("c {m} {}", rng.below(5)),
                    4 => format!("x {m}"),
                    5 => format!("f {m}"),
                    6 => format!("o {m} {} 0", rng.below(s.sources.len())),
                    _ => format!("s {m} {}", 1 + rng.below(if m % 2 == 0 { 12 } else { 90 })),
                });
            }
            for m in 0..5 {
                for _ in 0..2 {
                    if rng.chance(60) {
                        s.sessions.push(format!("f {m}"));
                    }
                }
            }
        }
        "C25" => {
            s.generation = (seed >> 32) * DESCENDANTS + rng.below(DESCENDANTS as usize) as u64;
            let own = String::from_utf8_lossy(&own_grammar().unwrap_or_default()).into_owned();
            let t = if rng.chance(25) { own } else { text(rng) };
            let older = text(rng);
            if rng.chance(30) {
                s.before = Some(Blob(b"// an earlier file\n".to_vec()));
            }
            for i in 0..1 + rng.below(4) {
                let (b, what) = match rng.below(10) {
                    0..=2 => damaged(rng, &t, &older),
                    3 | 4 => edited(rng, &t),
                    5 => few(rng),
                    6 => (text(rng).into_bytes(), "edited not".into()),
                    _ => (t.clone().into_bytes(), "edited not".into()),
                };
                let n = b.len().max(1);
                s.sources.push(Blob(b));
                s.damage.push(what);
                let mut p = Plan { keys: rng.next(), clock: clock(rng), ..Plan::default() };
                if rng.chance(30) {
                    for k in 0..4 {
                        p.faults.push(format!("src.read.{k}=s{}", 1 + rng.below(n)));
                        p.faults.push(format!("say.write.{k}=s{}", 1 + rng.below(2000)));
                        p.faults.push(format!("out.write.{k}=s{}", 1 + rng.below(4000)));
                    }
                }
                if rng.chance(15) {
                    output_faults(rng, &mut p);
                    p.faults.retain(|f| !f.starts_with("mem"));
                }
                if rng.chance(10) {
                    source_faults(rng, &mut p, n);
                }
                s.steps.push(Step { source: i, plan: p });
            }
        }
        "C19" => {
            for _ in 0..1 + rng.below(2) {
                let t = text(rng);
                s.sources.push(Blob(t.into_bytes()));
            }
            for _ in 0..2 + rng.below(3) {
                let mut p = Plan { keys: rng.next(), clock: clock(rng), ..Plan::default() };
                let i = rng.below(s.sources.len());
                if rng.chance(40) {
                    let n = s.sources[i].0.len();
                    for k in 0..4 {
                        p.faults.push(format!("src.read.{k}=s{}", 1 + rng.below(n)));
                        p.faults.push(format!("out.write.{k}=s{}", 1 + rng.below(4000)));
                    }
                }
                if rng.chance(25) {
                    output_faults(rng, &mut p);
                }
                s.steps.push(Step { source: i, plan: p });
            }
        }
        "C22" => {
            for i in 0..12 {
                let (t, d) = crate::e2e::source(rng);
                crate::e2e::sessions(rng, i, &d, &mut s.sessions);
                let mut p = Plan { keys: rng.next(), clock: clock(rng), ..Plan::default() };
                if rng.chance(30) {
                    for k in 0..4 {
                        p.faults.push(format!("src.read.{k}=s{}", 1 + rng.below(t.len())));
                        p.faults.push(format!("out.write.{k}=s{}", 1 + rng.below(4000)));
                    }
                }
                if rng.chance(10) {
                    output_faults(rng, &mut p);
                }
                s.sources.push(Blob(t.into_bytes()));
                s.steps.push(Step { source: i, plan: p });
            }
        }
        "C14" => {
            let t = text(rng);
            s.sources.push(Blob(t.into_bytes()));
            for i in 0..3 + rng.below(3) {
                let mut p = Plan { keys: if i == 0 { keys[0] } else if rng.chance(40) { *rng.pick(&keys) } else { rng.next() }, clock: clock(rng), ..Plan::default() };
                if rng.chance(30) {
                    let n = s.sources[0].0.len();
                    for k in 0..4 {
                        p.faults.push(format!("src.read.{k}=s{}", 1 + rng.below(n)));
                        p.faults.push(format!("out.write.{k}=s{}", 1 + rng.below(4000)));
                    }
                }
                s.steps.push(Step { source: 0, plan: p });
            }
        }
        _ => {
            for _ in 0..1 + rng.below(2) {
                let t = lines(rng);
                s.sources.push(Blob(t.into_bytes()));
            }
            for i in 0..s.sources.len() {
                let mut p = Plan { keys: rng.next(), clock: clock(rng), ..Plan::default() };
                let n = s.sources[i].0.len();
                let style = rng.below(4);
                for _ in 0..rng.below(60) {
                    p.chunks.push(match style {
                        0 => 1 + rng.below(3) as u16,
                        1 => 1 + rng.below(n.max(1)) as u16,
                        2 => {
                            if rng.chance(40) {
                                0
                            } else {
                                1 + rng.below(8) as u16
                            }
                        }
                        _ => 1 + rng.below(20) as u16,
                    });
                }
                if rng.chance(35) {
                    for _ in 0..1 + rng.below(10) {
                        let n = rng.below(900);
                        let f = match rng.below(3) {
                            0 => format!("say.write.{n}=e{}", libc::EINTR),
                            _ => format!("say.write.{n}=s{}", 1 + rng.below(200)),
                        };
                        p.faults.push(f);
                    }
                }
                if rng.chance(12) {
                    let f = match rng.below(3) {
                        0 => format!("say.write.{}=E{}", rng.below(900), rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
                        1 => format!("in.read.{}=E{}", rng.below(12), libc::EIO),
                        _ => format!("any.call.{}=k0", rng.below(900)),
                    };
                    p.faults.push(f);
                }
                s.steps.push(Step { source: i, plan: p });
            }
        }
    }
    s
}

fn lines(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = if rng.one_in(60) { rng.range(20, 80) } else { rng.below(9) };
    let long = rng.one_in(20);
    for i in 0..n {
        let d = match rng.below(6) {
            0 if long && rng.chance(15) => rng.range(80, 250),
            0 if long => rng.range(8, 80),
            _ => rng.below(8),
        };
        let open: Vec<char> = (0..d).map(|_| *rng.pick(&['(', '[', '{'])).collect();
        let mut l: Vec<char> = open.clone();
        l.extend(open.iter().rev().map(|c| match c {
            '(' => ')',
            '[' => ']',
            _ => '}',
        }));
        if rng.chance(45) && !l.is_empty() {
            for _ in 0..1 + rng.below(2) {
                let k = rng.below(l.len());
                match rng.below(4) {
                    0 => {
                        l.remove(k);
                    }
                    1 => l.insert(k, *rng.pick(&['(', ')', '[', ']', '{', '}', 'c', 'd'])),
                    2 => l[k] = *rng.pick(&['(', ')', '[', ']', '{', '}', 'c', 'd']),
                    _ => l.truncate(k),
                }
                if l.is_empty() {
                    break;
                }
            }
        }
        if rng.chance(10) {
            s.push(' ');
        }
        s.extend(l);
        if rng.chance(10) {
            s.push_str("  ");
        }
        if i + 1 < n || rng.chance(70) {
            s.push_str(if rng.chance(15) { "\r\n" } else { "\n" });
        }
    }
    s
}

// ------------------------------------------------------------------ minimising

/// The smallest scenario found in the given time that shows the same flaw.
pub fn shrink(mut best: PScenario, want: &(String, String), time: Duration) -> (PScenario, u64) {
    let until = Instant::now() + time;
    let mut tried = 0;
    let shows = |s: &PScenario, tried: &mut u64| {
        *tried += 1;
        let e = evaluate(s);
        e.harness_error.is_none() && e.flaws.iter().any(|f| crate::shrink::signature(f) == *want)
    };
    loop {
        let mut any = false;
        macro_rules! attempt {
            ($edit:expr) => {{
                let mut s = best.clone();
                #[allow(clippy::redundant_closure_call)]
                ($edit)(&mut s);
                if s != best && Instant::now() < until && shows(&s, &mut tried) {
                    best = s;
                    any = true;
                    true
                } else {
                    false
                }
            }};
        }
        let mut i = 0;
        while i < best.steps.len() {
            if best.steps.len() > 1 && attempt!(|s: &mut PScenario| {
                s.steps.remove(i);
            }) {
                continue;
            }
            let mut k = 0;
            while k < best.steps[i].plan.faults.len() {
                if !attempt!(|s: &mut PScenario| {
                    s.steps[i].plan.faults.remove(k);
                }) {
                    k += 1;
                }
            }
            attempt!(|s: &mut PScenario| s.steps[i].plan.chunks.clear());
            let mut k = best.steps[i].plan.chunks.len();
            while k > 0 {
                k /= 2;
                attempt!(|s: &mut PScenario| s.steps[i].plan.chunks.truncate(k));
            }
            attempt!(|s: &mut PScenario| s.steps[i].plan.clock = (0, 0));
            attempt!(|s: &mut PScenario| s.steps[i].plan.keys = 1);
            i += 1;
        }
        attempt!(|s: &mut PScenario| s.before = None);
        let mut chunk = best.sessions.len().div_ceil(2);
        while chunk > 0 {
            let mut at = 0;
            while at < best.sessions.len() {
                if !attempt!(|s: &mut PScenario| {
                    let e = (at + chunk).min(s.sessions.len());
                    s.sessions.drain(at..e);
                }) {
                    at += chunk;
                }
            }
            chunk /= 2;
        }
        for i in 0..best.sessions.len() {
            let mut k = best.sessions[i].split(' ').count();
            while k > 3 {
                k -= 1;
                attempt!(|s: &mut PScenario| {
                    let mut w: Vec<&str> = s.sessions[i].split(' ').collect();
                    if k < w.len() {
                        if k == 3 {
                            w[3] = "-";
                        } else {
                            w.remove(k);
                        }
                        s.sessions[i] = w.join(" ");
                    }
                });
            }
        }
        // sources: by lines, then by bytes, in halves
        for v in 0..best.sources.len() {
            let mut chunk = best.sources[v].0.len() / 2;
            while chunk > 0 {
                let mut at = 0;
                while at < best.sources[v].0.len() && Instant::now() < until {
                    if !attempt!(|s: &mut PScenario| {
                        let e = (at + chunk).min(s.sources[v].0.len());
                        s.sources[v].0.drain(at..e);
                    }) {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if !any || Instant::now() > until {
            break;
        }
    }
    // sources no run uses
    let mut v = if best.sessions.is_empty() { best.sources.len() } else { 0 };
    while v > 0 {
        v -= 1;
        if best.sources.len() > 1 && !best.steps.iter().any(|s| s.source == v) {
            best.sources.remove(v);
            for s in &mut best.steps {
                if s.source > v {
                    s.source -= 1;
                }
            }
        }
    }
    best.damage.clear();
    (best, tried)
}
