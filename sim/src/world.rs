//! One simulated world: parsers, client tasks, token sources and the scheduler, in one OS thread.
//! `run` is a pure function of the scenario and of the code under test.
use crate::coro::{self, Coro};
use crate::gram::{Auto, Classes, Competing, Earley, GSpec, G, MAX_LR1};
use crate::rng::Fnv;
use crate::sym::{clock, set_clock, set_limit, OutOfTime, Sym};
use crate::val::{Ledger, LedgerRef, Val, RED};
use lrp::{Action, Clr, Dfa, Error, Grammar, Lalr, Parser, ReductMap, RuleMap, Slr, Tabler, Token};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------ scenario

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Slr,
    Lalr,
    Clr,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub grammars: Vec<GSpec>,
    pub parsers: Vec<(usize, Class)>,
    pub tasks: Vec<Vec<Op>>,
    /// which of the runnable tasks continues, one entry per scheduling decision (0 when used up)
    pub sched: Vec<u16>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Run(Session),
    /// merge equal states of a live parser, in place
    Compact { parser: usize },
    /// replace the parser by a clone of itself and drop the original
    Swap { parser: usize },
    /// ask the parser for its conflicts
    Conflicts { parser: usize },
    Sleep(u16),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    /// Parser::parse
    Parse,
    /// Parser::validate
    Validate,
    /// Parser::parse with Parser::cloned
    Cloned,
    /// Parser::simple_dfa, then Dfa::start
    Simple,
    /// Parser::dfa, then Dfa::start
    Start,
    /// Parser::dfa, then Dfa::trace with an observer
    Trace,
    /// Parser::dfa, then one Dfa::travel per step
    Travel,
    /// Dfa::parse on a new machine
    DfaParse,
    /// Dfa::parse on the machine this task used last
    ReuseParse,
    /// Dfa::reset, a new buffer and Dfa::start on the machine this task used last
    ReuseReset,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Session {
    pub parser: usize,
    pub api: Api,
    pub stream: Vec<Item>,
    /// streams of the forks taken from this session, in order
    #[serde(default)]
    pub forks: Vec<Fork>,
    #[serde(default)]
    pub cb: Vec<CbFault>,
    #[serde(default)]
    pub cb_yield: bool,
    #[serde(default)]
    pub observe_yield: bool,
    #[serde(default)]
    pub on_error: OnError,
    /// after an injected panic: continue the session (true) or give it up
    #[serde(default)]
    pub retry_panic: bool,
    /// give up by unwinding at this yield point
    #[serde(default)]
    pub cancel: Option<u16>,
    /// productions use as few as this many callbacks, told apart by their arguments; 0: each its own
    #[serde(default)]
    pub share: u8,
    /// stop stepping after so many steps (Travel)
    #[serde(default)]
    pub stop_after: Option<u16>,
    /// names the tokens it knows are to come without looking at them first (Travel)
    #[serde(default)]
    pub blind: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fork {
    /// step number at which the machine is cloned
    pub at: u16,
    pub stream: Vec<Item>,
    /// how many copies of copies it comes through
    #[serde(default)]
    pub via: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CbFault {
    /// which callback call of the session
    pub nth: u32,
    /// fail after having built the result
    pub after: bool,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum OnError {
    #[default]
    Stop,
    /// call again so many times
    Retry(u8),
    /// discard the offending token and continue, so many times
    Skip(u8),
    /// retry once, then discard and continue
    RetrySkip(u8),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    Lost,
    Duplicated,
    Swapped,
    Corrupted,
    Unknown,
    InBandEof,
    Inserted,
    Truncated,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    /// a token; with the fault that put it there
    Tok(u16, #[serde(default)] Option<Fault>),
    /// the source blocks for so many ticks
    Delay(u16),
    /// a message was lost here / the stream was cut here (delivers nothing)
    Gone(Fault),
    /// the source says "end" although more follows
    FalseEnd,
    /// the source panics, once
    Panic,
}

// ------------------------------------------------------------------ results

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Verdict,
    Eval,
    Pull,
    Report,
    Retry,
    Conserve,
    Live,
    Isolation,
    Panic,
    /// of a program: what it wrote, how it ended, what it answered, in which order
    Output,
    Exit,
    Answer,
    Order,
    /// another outcome than the same session has without the disturbance
    Differs,
    /// a conflict where no actions compete, or none where they do
    Conflict,
    /// another step than the automaton of the parser's class prescribes
    Machine,
    /// a caller that watches the run is shown something else than the run
    View,
    /// compaction left rows apart that were equal
    Rows,
}

#[derive(Clone, Debug)]
pub struct Flaw {
    pub kind: Kind,
    pub sub: &'static str,
    pub session: usize,
    pub msg: String,
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub task: u16,
    pub sess: u32,
    pub what: &'static str,
    pub a: u64,
    pub b: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
}

/// What a client sees of its session, in order. Values are numbered within the session.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tr {
    Deliver(u16),
    End,
    Reduce(u16, Vec<u32>),
    Outcome(String),
    Injected,
}

/// One session of a run, as needed to run it again on its own.
#[derive(Clone, Debug)]
pub struct SessRec {
    pub id: usize,
    pub spec: Session,
    pub parser: usize,
    pub reused: bool,
    /// for forks: tokens delivered before the fork, and whether the source had ended
    pub prefix: Option<(Vec<u16>, bool)>,
    pub trace: Vec<Tr>,
    pub skipped: Vec<usize>,
    /// the caller discarded something a machine may have acted on
    pub tainted: bool,
    pub done: bool,
}

pub struct RunResult {
    pub sessions: Vec<SessRec>,
    pub parsers: Vec<AnyParser>,
    pub flaws: Vec<Flaw>,
    pub stats: Stats,
    pub log: Vec<Ev>,
    /// fingerprint of the whole event sequence
    pub fp: u64,
    pub ticks: u64,
    pub harness_error: Option<String>,
}

struct Injected;
struct Cancelled;

// ------------------------------------------------------------------ session state

/// What the oracle knows of one session: a shift-reduce model fed by the observed events.
pub struct Sess {
    pub id: usize,
    spec: Rc<Session>,
    gi: usize,
    class: Class,
    /// reductions applied, as (value, label, tokens covered up to)
    stack: Vec<(usize, u16)>,
    /// delivered and not known to be shifted
    queue: Vec<(usize, u16)>,
    /// tokens delivered and not discarded
    tokens: Vec<u16>,
    ended: bool,
    pulls: u32,
    cb_calls: u32,
    reductions: u32,
    /// reductions made when the last token was delivered (or the end was reported)
    red_at_pull: u32,
    /// the caller discarded a token in a machine that may have reduced on it
    tainted: bool,
    /// the model cannot follow any more (a flaw was recorded)
    lost: bool,
    yields: u16,
    steps: u32,
    /// symbols the reductions so far took off the stack, less those they put there
    taken: u64,
    /// shifts and reductions made when the current attempt was last looked at
    seen_work: Option<u64>,
    attempt_step: u32,
    /// whether callbacks report values (false for the value-less entry points)
    vals: bool,
    forked: bool,
    injected: u32,
    parser: usize,
    reused: bool,
    prefix: Option<(Vec<u16>, bool)>,
    trace: Vec<Tr>,
    skipped: Vec<usize>,
    last_pos: usize,
    /// how far the source is in its plan
    src_pos: usize,
    deliver_at: usize,
    names: BTreeMap<usize, u32>,
    done: bool,
}

impl Sess {
    fn record(&self) -> SessRec {
        SessRec {
            id: self.id,
            spec: (*self.spec).clone(),
            parser: self.parser,
            reused: self.reused,
            prefix: self.prefix.clone(),
            trace: self.trace.clone(),
            skipped: self.skipped.clone(),
            tainted: self.tainted,
            done: self.done,
        }
    }
    /// The session's own number of a value (in the order they came up).
    fn name(&mut self, v: usize) -> u32 {
        let n = self.names.len() as u32;
        *self.names.entry(v).or_insert(n)
    }
    fn all(&self) -> Vec<(usize, u16)> {
        self.stack.iter().chain(self.queue.iter()).copied().collect()
    }
}

pub enum AnyParser {
    Slr(Slr<Sym>),
    Lalr(Lalr<Sym>),
    Clr(Clr<Sym>),
}

macro_rules! with {
    ($p:expr, $x:ident => $e:expr) => {
        match $p {
            AnyParser::Slr($x) => $e,
            AnyParser::Lalr($x) => $e,
            AnyParser::Clr($x) => $e,
        }
    };
}

struct ParserSlot {
    p: RefCell<Option<AnyParser>>,
    /// the parser as built
    original: AnyParser,
    gi: usize,
    class: Class,
    compacted: Cell<bool>,
}

struct Task {
    coro: Option<Coro>,
    done: bool,
    wake: u64,
    clock: u64,
    limit: u64,
    cur: Option<Rc<RefCell<Sess>>>,
}

pub struct World {
    gs: Vec<G>,
    classes: RefCell<Vec<Option<Classes>>>,
    autos: RefCell<BTreeMap<(usize, usize), Option<Rc<Auto>>>>,
    parsers: Vec<ParserSlot>,
    ledger: LedgerRef,
    tasks: RefCell<Vec<Task>>,
    running: Cell<usize>,
    now: Cell<u64>,
    pos: Cell<usize>,
    log: RefCell<Vec<Ev>>,
    fp: Cell<Fnv>,
    stats: RefCell<Stats>,
    flaws: RefCell<Vec<Flaw>>,
    nsess: Cell<usize>,
    sessions: RefCell<Vec<Rc<RefCell<Sess>>>>,
    conserve: bool,
    /// whether refused machines are told to take tokens that are not there
    absent: bool,
    /// whether everything a watching caller is shown is compared with the run
    view: bool,
    /// sources have nothing more to give
    fused: Cell<bool>,
    trace_log: bool,
}

thread_local! {
    static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn world() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone().expect("no world"))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ world services

impl World {
    fn ev(&self, sess: usize, what: &'static str, a: u64, b: u64) {
        let task = self.running.get() as u16;
        let mut f = self.fp.get();
        f.u64(u64::from(task) << 32 | sess as u64);
        f.bytes(what.as_bytes());
        f.u64(a);
        f.u64(b);
        self.fp.set(f);
        if self.trace_log {
            self.log.borrow_mut().push(Ev { task, sess: sess as u32, what, a, b });
        }
    }
    fn stat(&self, k: &'static str) {
        self.stats.borrow_mut().add(k, 1);
    }
    fn flaw(&self, kind: Kind, sub: &'static str, session: usize, msg: String) {
        self.ev(session, "flaw", kind as u64, 0);
        self.flaws.borrow_mut().push(Flaw { kind, sub, session, msg });
    }
    fn cur(&self) -> Option<Rc<RefCell<Sess>>> {
        self.tasks.borrow()[self.running.get()].cur.clone()
    }
    fn set_cur(&self, s: Option<Rc<RefCell<Sess>>>) {
        self.tasks.borrow_mut()[self.running.get()].cur = s;
    }
    fn free_of_conflicts(&self, gi: usize, class: Class) -> bool {
        let mut c = self.classes.borrow_mut();
        if c[gi].is_none() {
            c[gi] = self.gs[gi].classes(MAX_LR1 * 4);
        }
        match c[gi] {
            None => false,
            Some(c) => match class {
                Class::Slr => c.slr,
                Class::Lalr => c.lalr,
                Class::Clr => c.lr1,
            },
        }
    }
    /// The automaton by the book; None when it is too large.
    fn auto(&self, gi: usize, class: Class) -> Option<Rc<Auto>> {
        let k = class as usize;
        self.autos.borrow_mut().entry((gi, k)).or_insert_with(|| self.gs[gi].automaton(k, MAX_LR1 * 4).map(Rc::new)).clone()
    }
    /// Suspends the running task for `delay` ticks (0: stays runnable).
    fn sleep(&self, delay: u64) {
        if !coro::inside() {
            return;
        }
        let me = self.running.get();
        {
            let mut t = self.tasks.borrow_mut();
            t[me].wake = self.now.get() + delay;
            t[me].clock = clock();
            t[me].limit = set_limit(u64::MAX);
        }
        coro::suspend();
        let t = self.tasks.borrow();
        set_clock(t[me].clock);
        set_limit(t[me].limit);
    }
    fn spawn(self: &Rc<Self>, body: Box<dyn FnOnce()>) {
        self.tasks.borrow_mut().push(Task {
            coro: Some(Coro::new(body)),
            done: false,
            wake: self.now.get(),
            clock: 0,
            limit: u64::MAX,
            cur: None,
        });
    }
    fn new_sess(&self, spec: Rc<Session>, vals: bool) -> Rc<RefCell<Sess>> {
        let id = self.nsess.get();
        self.nsess.set(id + 1);
        let slot = &self.parsers[spec.parser];
        let parser = spec.parser;
        let s = Rc::new(RefCell::new(Sess {
            id,
            parser,
            reused: false,
            prefix: None,
            trace: Vec::new(),
            skipped: Vec::new(),
            last_pos: 0,
            src_pos: 0,
            deliver_at: 0,
            names: BTreeMap::new(),
            done: false,
            gi: slot.gi,
            class: slot.class,
            spec,
            stack: Vec::new(),
            queue: Vec::new(),
            tokens: Vec::new(),
            ended: false,
            pulls: 0,
            cb_calls: 0,
            reductions: 0,
            red_at_pull: 0,
            tainted: false,
            lost: false,
            yields: 0,
            steps: 0,
            taken: 0,
            seen_work: None,
            attempt_step: 0,
            vals,
            forked: false,
            injected: 0,
        }));
        self.sessions.borrow_mut().push(s.clone());
        s
    }
}

/// A point at which another task may run, and at which the session may be cancelled.
fn yield_point(w: &World, s: &Rc<RefCell<Sess>>, delay: u64) {
    w.sleep(delay);
    let cancel = {
        let mut s = s.borrow_mut();
        let y = s.yields;
        s.yields = y.saturating_add(1);
        s.spec.cancel == Some(y)
    };
    if cancel && !std::thread::panicking() {
        let id = s.borrow().id;
        w.ev(id, "cancel", 0, 0);
        w.stat("fault.cancel");
        resume_unwind(Box::new(Cancelled));
    }
}

// ------------------------------------------------------------------ token source

pub trait Carry: Clone {
    fn carry(w: &World, session: usize, sym: u16) -> (usize, Self);
}
impl Carry for Val {
    fn carry(w: &World, session: usize, _: u16) -> (usize, Val) {
        let v = Val::new(&w.ledger, session);
        (v.id, v)
    }
}
impl Carry for () {
    fn carry(_: &World, _: usize, _: u16) -> (usize, ()) {
        (0, ())
    }
}
impl Carry for Sym {
    fn carry(_: &World, _: usize, sym: u16) -> (usize, Sym) {
        (0, Sym(sym))
    }
}

/// The iterator lrp reads: blocks, fails, ends early, loses, repeats and damages tokens, as planned.
pub struct Src<V> {
    plan: Rc<Vec<Item>>,
    pos: usize,
    ended: bool,
    forks: Rc<Vec<Rc<Vec<Item>>>>,
    next_fork: Rc<Cell<usize>>,
    ph: std::marker::PhantomData<V>,
}

impl<V> Src<V> {
    fn new(spec: &Session) -> Self {
        Src {
            plan: Rc::new(spec.stream.clone()),
            pos: 0,
            ended: false,
            forks: Rc::new(spec.forks.iter().map(|f| Rc::new(f.stream.clone())).collect()),
            next_fork: Rc::new(Cell::new(0)),
            ph: std::marker::PhantomData,
        }
    }
    fn empty() -> Self {
        Src {
            plan: Rc::new(Vec::new()),
            pos: 0,
            ended: true,
            forks: Rc::new(Vec::new()),
            next_fork: Rc::new(Cell::new(0)),
            ph: std::marker::PhantomData,
        }
    }
}

impl<V> Clone for Src<V> {
    fn clone(&self) -> Self {
        let n = self.next_fork.get();
        let fork = self.forks.get(n).cloned();
        self.next_fork.set(n + 1);
        Src {
            plan: fork.clone().unwrap_or_else(|| self.plan.clone()),
            pos: if fork.is_some() { 0 } else { self.pos },
            ended: self.ended,
            forks: Rc::new(Vec::new()),
            next_fork: Rc::new(Cell::new(0)),
            ph: std::marker::PhantomData,
        }
    }
}

impl<V: Carry> Iterator for Src<V> {
    type Item = Token<V, Sym>;
    fn next(&mut self) -> Option<Self::Item> {
        crate::sym::tick();
        let w = world();
        if w.fused.get() {
            return None;
        }
        let s = w.cur().expect("pull outside a session");
        let id = s.borrow().id;
        {
            let mut m = s.borrow_mut();
            m.pulls += 1;
            if self.ended {
                drop(m);
                w.flaw(Kind::Pull, "polled-after-end", id, "the source was asked for a token after it had reported its end".into());
            }
        }
        w.ev(id, "pull", 0, 0);
        if w.conserve {
            check_live(&w, &s, "when a token is requested");
        }
        let mut delay = 0u64;
        loop {
            match self.plan.get(self.pos) {
                Some(Item::Delay(n)) => {
                    self.pos += 1;
                    delay += u64::from(*n);
                    w.stat("fault.stall");
                }
                Some(Item::Gone(f)) => {
                    self.pos += 1;
                    w.stat(match f {
                        Fault::Truncated => "fault.truncated",
                        _ => "fault.lost",
                    });
                }
                Some(Item::Panic) => {
                    self.pos += 1;
                    yield_point(&w, &s, delay);
                    w.stat("fault.source-panic");
                    w.ev(id, "source-panic", 0, 0);
                    s.borrow_mut().src_pos = self.pos;
                    s.borrow_mut().injected += 1;
                    resume_unwind(Box::new(Injected));
                }
                Some(Item::FalseEnd) => {
                    self.pos += 1;
                    yield_point(&w, &s, delay);
                    if self.pos < self.plan.len() {
                        w.stat("fault.false-end");
                    }
                    return self.end(&w, &s);
                }
                None => {
                    yield_point(&w, &s, delay);
                    return self.end(&w, &s);
                }
                Some(Item::Tok(sym, f)) => {
                    let (sym, f) = (*sym, *f);
                    self.pos += 1;
                    yield_point(&w, &s, delay);
                    match f {
                        Some(Fault::Duplicated) => w.stat("fault.duplicated"),
                        Some(Fault::Swapped) => w.stat("fault.reordered"),
                        Some(Fault::Corrupted) => w.stat("fault.corrupted"),
                        Some(Fault::Unknown) => w.stat("fault.unknown-token"),
                        Some(Fault::InBandEof) => w.stat("fault.in-band-eof"),
                        Some(Fault::Inserted) => w.stat("fault.inserted"),
                        _ => {}
                    }
                    let (vid, v) = V::carry(&w, id, sym);
                    let mut m = s.borrow_mut();
                    m.queue.push((vid, sym));
                    m.tokens.push(sym);
                    m.red_at_pull = m.reductions;
                    m.last_pos = self.pos - 1;
                    m.src_pos = self.pos;
                    m.deliver_at = m.trace.len();
                    m.trace.push(Tr::Deliver(sym));
                    m.name(vid);
                    drop(m);
                    w.ev(id, "deliver", u64::from(sym), vid as u64);
                    w.stat("tokens");
                    return Some(Token::new(v, Sym(sym)));
                }
            }
        }
    }
}

impl<V: Carry> Src<V> {
    fn end(&mut self, w: &World, s: &Rc<RefCell<Sess>>) -> Option<Token<V, Sym>> {
        self.ended = true;
        let mut m = s.borrow_mut();
        m.ended = true;
        m.red_at_pull = m.reductions;
        m.trace.push(Tr::End);
        w.ev(m.id, "end", 0, 0);
        None
    }
}

// ------------------------------------------------------------------ callbacks

pub fn on_reduce(p: usize, toks: &[Token<Val, Sym>]) -> Val {
    crate::sym::tick();
    let w = world();
    let Some(s) = w.cur() else {
        panic!("callback outside a session");
    };
    let (id, n) = {
        let mut m = s.borrow_mut();
        let n = m.cb_calls;
        m.cb_calls += 1;
        (m.id, n)
    };
    w.stat("callbacks");
    let share = s.borrow().spec.share;
    let p = if share > 0 {
        // which of the productions that use this callback it is, its arguments say
        let g = &w.gs[s.borrow().gi];
        let of = callbacks(g, share);
        (0..of.len()).find(|q| of[*q] == p && g.prods[*q].rhs.iter().map(|x| g.label[*x]).eq(toks.iter().map(|t| t.ty.0))).unwrap_or(p)
    } else {
        p
    };
    w.ev(id, "reduce", p as u64, toks.len() as u64);
    check_reduce(&w, &s, p, toks);
    let (fault, yields) = {
        let m = s.borrow();
        (m.spec.cb.iter().find(|c| c.nth == n).cloned(), m.spec.cb_yield)
    };
    if yields {
        yield_point(&w, &s, 0);
    }
    if let Some(f) = fault {
        w.stat(if f.after { "fault.callback-panic-late" } else { "fault.callback-panic" });
        w.ev(id, "callback-panic", u64::from(f.after), 0);
        s.borrow_mut().injected += 1;
        let partial = f.after.then(|| Val::new(&w.ledger, id));
        let _keep = partial;
        resume_unwind(Box::new(Injected));
    }
    let v = Val::new(&w.ledger, id);
    let g = &w.gs[s.borrow().gi];
    let mut m = s.borrow_mut();
    m.reductions += 1;
    let args: Vec<u32> = toks.iter().map(|t| m.name(t.item.id)).collect();
    m.trace.push(Tr::Reduce(p as u16, args));
    m.name(v.id);
    if !m.lost && p < g.prods.len() {
        let k = m.stack.len() - toks.len();
        m.stack.truncate(k);
        m.taken += toks.len() as u64 - 1;
        let l = g.label[g.prods[p].lhs];
        m.stack.push((v.id, l));
    }
    v
}

/// The arguments must be the top of the model's stack, and be what the production says.
fn check_reduce(w: &World, s: &Rc<RefCell<Sess>>, p: usize, toks: &[Token<Val, Sym>]) {
    let mut m = s.borrow_mut();
    if m.lost {
        return;
    }
    let g = &w.gs[m.gi];
    let id = m.id;
    let bad = |m: &mut Sess, kind, sub, msg: String| {
        m.lost = true;
        w.flaw(kind, sub, id, msg);
    };
    let Some(prod) = g.prods.get(p) else {
        return bad(&mut m, Kind::Eval, "no-such-production", format!("callback of production {p}"));
    };
    let want: Vec<u16> = prod.rhs.iter().map(|x| g.label[*x]).collect();
    let have: Vec<u16> = toks.iter().map(|t| t.ty.0).collect();
    if want != have {
        let l = g.label[prod.lhs];
        return bad(&mut m, Kind::Eval, "wrong-arguments", format!("callback of {l} -> {want:?} got {have:?}"));
    }
    // shift what the last argument shows to have been shifted
    let last = toks.last().unwrap().item.id;
    if let Some(i) = m.queue.iter().position(|q| q.0 == last) {
        let shifted: Vec<_> = m.queue.drain(..=i).collect();
        m.stack.extend(shifted);
    }
    let n = toks.len();
    let fits = m.stack.len() >= n
        && m.stack[m.stack.len() - n..].iter().zip(toks).all(|(a, t)| a.0 == t.item.id && a.1 == t.ty.0);
    if !fits {
        let st = m.all();
        let ids: Vec<usize> = toks.iter().map(|t| t.item.id).collect();
        return bad(
            &mut m,
            Kind::Eval,
            "not-top-of-stack",
            format!("callback {p} got values {ids:?}, not the latest unconsumed ones {st:?}"),
        );
    }
    if m.queue.len() > 1 {
        let q = m.queue.len();
        w.flaw(Kind::Pull, "lookahead", id, format!("{q} tokens had been requested past the ones this reduction covers"));
    }
}

/// Every value of the session is in exactly one place: held by the machine, or consumed and gone.
fn check_live(w: &World, s: &Rc<RefCell<Sess>>, when: &str) {
    let m = s.borrow();
    if m.lost || m.forked || !m.vals {
        return;
    }
    let l = w.ledger.borrow();
    let held = m.all();
    let bad: Vec<_> = held.iter().filter(|(v, _)| l.live[*v] != 1).map(|(v, _)| (*v, l.live[*v])).collect();
    let total = l.per_session.get(m.id).copied().unwrap_or(0);
    let id = m.id;
    if !bad.is_empty() || total != held.len() as i64 {
        let msg = format!("{when}: {total} live values where the session should hold {}; (value, instances) off: {bad:?}", held.len());
        drop(l);
        drop(m);
        s.borrow_mut().lost = true;
        w.flaw(Kind::Conserve, "held", id, msg);
    }
}

/// After the session's machine is gone nothing of it may be left.
fn check_gone(w: &World, id: usize, allow: i64, when: &str) {
    let n = w.ledger.borrow().per_session.get(id).copied().unwrap_or(0);
    if n != allow {
        w.flaw(Kind::Conserve, "left-over", id, format!("{when}: {n} values of the session still live, {allow} expected"));
    }
}

// ------------------------------------------------------------------ sessions

type Machine = Dfa<Val, Sym, Src<Val>>;

enum Attempt {
    Ok,
    Err(Error<Sym>),
    Injected,
    Cancelled,
    OutOfTime,
    Panic(String),
    /// the caller stopped stepping
    Stopped,
}

fn attempt(f: impl FnOnce() -> Result<(), Error<Sym>>) -> Attempt {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Attempt::Ok,
        Ok(Err(e)) => Attempt::Err(e),
        Err(p) => {
            set_limit(u64::MAX);
            if p.is::<Injected>() {
                Attempt::Injected
            } else if p.is::<Cancelled>() {
                Attempt::Cancelled
            } else if p.is::<OutOfTime>() {
                Attempt::OutOfTime
            } else {
                Attempt::Panic(last_panic())
            }
        }
    }
}

/// The callback each production uses: its own, or one it shares with productions of other bodies.
fn callbacks(g: &G, share: u8) -> Vec<usize> {
    let mut of = Vec::new();
    for p in 0..g.prods.len() {
        let mine = (0..p).filter(|q| of[*q] == *q).find(|q| {
            share > 0 && q % share as usize == p % share as usize && (0..p).all(|r| of[r] != *q || g.prods[r].rhs != g.prods[p].rhs)
        });
        of.push(mine.unwrap_or(p));
    }
    of
}

fn maps(g: &G, share: u8) -> ReductMap<Val, Sym> {
    let mut m: ReductMap<Val, Sym> = ReductMap::new();
    let of = callbacks(g, share);
    for n in 0..g.nn {
        let mut v = Vec::new();
        for p in &g.of[n] {
            v.push(RED[of[*p]]);
        }
        m.insert(Sym(g.label[n]), v);
    }
    m
}

pub fn lrp_grammar(spec: &GSpec) -> Grammar<Sym> {
    let mut rules: RuleMap<Sym> = RuleMap::new();
    for (n, ps) in &spec.rules {
        let prods: Vec<Vec<Sym>> = ps.iter().map(|p| p.iter().map(|s| Sym(*s)).collect()).collect();
        rules.insert(Sym(*n), lrp::grammar::Rule::new(Sym(*n), prods));
    }
    Grammar::new(Sym(spec.start), rules, Sym(spec.eof))
}

fn build(spec: &GSpec, class: Class) -> AnyParser {
    let g = lrp_grammar(spec);
    if spec.rules.len() % 2 == 0 {
        // the two steps that `new` is
        let t = Tabler::new(g);
        return match class {
            Class::Slr => AnyParser::Slr(Slr::with_table(t)),
            Class::Lalr => AnyParser::Lalr(Lalr::with_table(t)),
            Class::Clr => AnyParser::Clr(Clr::with_table(t)),
        };
    }
    match class {
        Class::Slr => AnyParser::Slr(Slr::new(g)),
        Class::Lalr => AnyParser::Lalr(Lalr::new(g)),
        Class::Clr => AnyParser::Clr(Clr::new(g)),
    }
}

fn same(a: &AnyParser, b: &AnyParser) -> bool {
    match (a, b) {
        (AnyParser::Slr(a), AnyParser::Slr(b)) => a == b,
        (AnyParser::Lalr(a), AnyParser::Lalr(b)) => a == b,
        (AnyParser::Clr(a), AnyParser::Clr(b)) => a == b,
        _ => false,
    }
}

pub fn dup(a: &AnyParser) -> AnyParser {
    match a {
        AnyParser::Slr(a) => AnyParser::Slr(a.clone()),
        AnyParser::Lalr(a) => AnyParser::Lalr(a.clone()),
        AnyParser::Clr(a) => AnyParser::Clr(a.clone()),
    }
}

/// Simulated time a session may take: a multiple of the steps any parse of that many tokens needs.
fn max_steps(g: &G, tokens: usize) -> u64 {
    // a forest over n leaves without empty productions and without unit cycles
    2 * (tokens as u64 + 1) * (g.nn as u64 + 1) + tokens as u64 + 4
}
fn budget(g: &G, tokens: usize) -> u64 {
    let per_step = 200 + 40 * (g.nn + g.nt) as u64;
    20_000 + max_steps(g, tokens) * per_step
}
const BUILD_BUDGET: u64 = 150_000_000;

fn tokens_planned(s: &Session) -> usize {
    s.stream.len() + s.forks.iter().map(|f| f.stream.len()).sum::<usize>()
}

#[derive(PartialEq, Debug)]
struct Snapshot {
    states: Vec<usize>,
    items: Vec<(usize, u16)>,
    top: usize,
    tokens: usize,
    reductions: u32,
    pulls: u32,
    cb_calls: u32,
}

fn snapshot(d: &Machine, s: &Rc<RefCell<Sess>>) -> Snapshot {
    let m = s.borrow();
    Snapshot {
        states: d.states.clone(),
        items: d.items.iter().map(|t| (t.item.id, t.ty.0)).collect(),
        top: d.top,
        tokens: m.tokens.len(),
        reductions: m.reductions,
        pulls: m.pulls,
        cb_calls: m.cb_calls,
    }
}

/// Compares the machine's stack with the model, between two steps.
fn check_stack(w: &World, s: &Rc<RefCell<Sess>>, d: &Machine) {
    if d.items.len() == 300 {
        w.stat("probe.stack-of-300-seen");
    }
    let mut m = s.borrow_mut();
    if m.lost {
        return;
    }
    // deep stacks are compared at one step of many
    if d.items.len() > 300 && m.steps % 13 != 0 || d.items.len() > 1500 && m.steps % 663 != 0 {
        return;
    }
    let all = m.all();
    let have: Vec<(usize, u16)> = d.items.iter().map(|t| (t.item.id, t.ty.0)).collect();
    let id = m.id;
    if have.len() < m.stack.len() || have.len() > all.len() || have[..] != all[..have.len()] {
        m.lost = true;
        w.flaw(Kind::Eval, "stack", id, format!("the machine holds {have:?}, the model {all:?}"));
        return;
    }
    if all.len() - have.len() > 1 {
        w.flaw(Kind::Pull, "lookahead", id, format!("{} tokens requested and not shifted", all.len() - have.len()));
    }
    if d.states.len() != d.items.len() + 1 || d.states.last() != Some(&d.top) {
        w.flaw(Kind::Eval, "stack-shape", id, format!("{} states for {} items, top {} of {:?}", d.states.len(), d.items.len(), d.top, d.states));
    }
    drop(m);
    if w.conserve {
        check_live(w, s, "between two steps");
    }
}

/// The actions that compete in a conflict.
fn competing(g: &G, acts: &[&Action<Sym>]) -> Competing {
    fn add(g: &G, a: &Action<Sym>, c: &mut Competing) {
        match a {
            Action::Shift(_) | Action::Goto(_) => c.shift = true,
            Action::Acc => c.accept = true,
            Action::Reduce(n, p) => {
                let p = g.index.get(&n.0).filter(|n| **n < g.nn).and_then(|n| g.of[*n].get(p.1)).copied().unwrap_or(usize::MAX);
                if !c.reduce.contains(&p) {
                    c.reduce.push(p);
                }
            }
            Action::Conflict(a, b) => {
                add(g, a, c);
                add(g, b, c);
            }
        }
    }
    let mut c = Competing::default();
    for a in acts {
        add(g, a, &mut c);
    }
    c.reduce.sort_unstable();
    c
}

/// Walks through a table along with the automaton it should be: every state of it that some
/// tokens lead to, shifts that are part of a conflict included, must act as the automaton's does.
fn walk(g: &G, auto: &crate::gram::Auto, table: &[BTreeMap<Sym, Action<Sym>>]) -> Option<(bool, String)> {
    fn parts<'a>(a: &'a Action<Sym>, out: &mut Vec<&'a Action<Sym>>) {
        match a {
            Action::Conflict(a, b) => {
                parts(a, out);
                parts(b, out);
            }
            a => out.push(a),
        }
    }
    // (state of the table, state of the automaton, reached by a shift that competes)
    let mut seen = std::collections::BTreeSet::from([(0, 0)]);
    let mut todo = vec![(0, 0, false)];
    while let Some((at, want, competed)) = todo.pop() {
        let Some(row) = table.get(at) else {
            return Some((competed, format!("an action leads to state {at} of {}", table.len())));
        };
        for t in 0..=g.nt {
            let l = if t == g.nt { g.eof } else { g.label[g.nn + t] };
            let acts = &auto.states[want].act[t];
            let mut have = Vec::new();
            if let Some(a) = row.get(&Sym(l)) {
                parts(a, &mut have);
            }
            let got = competing(g, &have);
            let due = Competing::of(acts);
            if got != due || have.iter().any(|a| matches!(a, Action::Goto(_))) {
                let conflict = competed || acts.len() > 1 || have.len() > 1;
                return Some((conflict, format!("in state {at} on {l}: {}, due: {}", conflict_text(&got), conflict_text(&due))));
            }
            let to = acts.iter().find_map(|a| if let crate::gram::Act::Shift(k) = a { Some(*k) } else { None });
            for a in &have {
                if let (Action::Shift(n), Some(k)) = (a, to) {
                    if seen.insert((*n, k)) {
                        todo.push((*n, k, competed || acts.len() > 1));
                    }
                }
            }
        }
        for (n, k) in &auto.states[want].goto {
            let l = g.label[*n];
            match row.get(&Sym(l)) {
                Some(Action::Goto(to)) => {
                    if seen.insert((*to, *k)) {
                        todo.push((*to, *k, competed));
                    }
                }
                a => return Some((competed, format!("in state {at} on {l}: {a:?}, due: to go to another state"))),
            }
        }
    }
    None
}

pub fn conflict_text(c: &Competing) -> String {
    format!("conflict between {}{}reductions of {:?}", if c.shift { "a shift, " } else { "" }, if c.accept { "acceptance, " } else { "" }, c.reduce)
}

/// Judges the end of one attempt of a session. `d` is the machine when the caller has it, `ret`
/// the value handed back.
fn judge(w: &World, s: &Rc<RefCell<Sess>>, a: &Attempt, d: Option<&mut Machine>, ret: Option<usize>) {
    let g = {
        let m = s.borrow();
        &w.gs[m.gi]
    };
    let id = s.borrow().id;
    {
        let mut m = s.borrow_mut();
        let t = match a {
            Attempt::Ok => {
                let r = match (ret, &d) {
                    (Some(r), _) => Some(m.name(r)),
                    (None, Some(d)) => d.items.last().map(|t| t.item.id).map(|i| m.name(i)),
                    _ => None,
                };
                Tr::Outcome(format!("accepted, result {r:?}"))
            }
            Attempt::Err(Error::UnexpectedToken(t, e)) => {
                let mut e: Vec<u16> = e.iter().map(|x| x.0).collect();
                e.sort_unstable();
                Tr::Outcome(format!("unexpected token {}, expected {e:?}", t.0))
            }
            // the states that actions in conflict name may be numbered anew by compaction
            Attempt::Err(Error::Conflict(a, b)) => Tr::Outcome(conflict_text(&competing(g, &[a, b]))),
            Attempt::Err(e) => Tr::Outcome(format!("{e:?}")),
            Attempt::Injected => Tr::Injected,
            Attempt::Cancelled => Tr::Outcome("cancelled".into()),
            Attempt::OutOfTime => Tr::Outcome("no end in sight".into()),
            Attempt::Panic(_) => Tr::Outcome("panic".into()),
            Attempt::Stopped => Tr::Outcome("stopped".into()),
        };
        m.trace.push(t);
    }
    match a {
        Attempt::Ok => {
            w.ev(id, "accept", 0, 0);
            w.stat("outcome.accepted");
            let mut m = s.borrow_mut();
            let mut e = Earley::new(g);
            let viable = m.tokens.iter().all(|t| e.push(*t));
            if !(viable && e.complete()) {
                w.flaw(Kind::Verdict, "accepted-non-sentence", id, format!("accepted {:?}, which is not a sentence", m.tokens));
            }
            if !m.ended {
                w.flaw(Kind::Verdict, "accepted-before-end", id, "accepted before the source had reported its end".into());
            }
            if m.vals && !m.lost {
                let all = m.all();
                let body: Vec<u16> = g.prods[g.of[g.start][0]].rhs.iter().map(|x| g.label[*x]).collect();
                let have: Vec<u16> = all.iter().map(|x| x.1).collect();
                if have != body {
                    w.flaw(Kind::Eval, "result-shape", id, format!("accepted with {have:?} on the stack, the start production is {body:?}"));
                    m.lost = true;
                } else if let Some(r) = ret {
                    if r != all.last().unwrap().0 {
                        w.flaw(Kind::Eval, "result", id, format!("returned value {r}, the last one of {all:?} is the result"));
                    }
                } else if let Some(d) = d {
                    let it: Vec<_> = d.items.iter().map(|t| (t.item.id, t.ty.0)).collect();
                    if it != all {
                        w.flaw(Kind::Eval, "result", id, format!("accepted holding {it:?}, should be {all:?}"));
                    }
                }
            }
        }
        Attempt::Err(e) => {
            w.stat(match e {
                Error::UnexpectedToken(..) => "outcome.unexpected-token",
                Error::UnexpectedEof => "outcome.unexpected-eof",
                Error::Conflict(..) => "outcome.conflict",
                Error::IncompleteExec => "outcome.incomplete",
                _ => "outcome.internal-error",
            });
            judge_error(w, s, g, e, d);
        }
        Attempt::Injected => w.ev(id, "faulted", 0, 0),
        Attempt::Cancelled => w.ev(id, "cancelled", 0, 0),
        Attempt::Stopped => w.ev(id, "stopped", 0, 0),
        Attempt::OutOfTime => {
            w.flaw(Kind::Live, "no-progress", id, format!("no verdict within {} simulated operations on {} tokens", budget(g, tokens_planned(&s.borrow().spec)), s.borrow().tokens.len()));
        }
        Attempt::Panic(m) => {
            w.flaw(Kind::Panic, "panic", id, format!("the session panicked: {m}"));
        }
    }
    let (steps, n, cb, inj) = {
        let m = s.borrow();
        (m.steps, m.tokens.len(), m.cb_calls, m.injected)
    };
    if n >= 500 {
        w.stat(if n >= 2000 { "probe.session-of-2000-tokens" } else { "probe.session-of-500-tokens" });
    }
    let bound = max_steps(g, tokens_planned(&s.borrow().spec).max(n));
    if u64::from(steps) > bound + u64::from(inj) * 2 + 16 || u64::from(cb) > bound + u64::from(inj) {
        w.flaw(Kind::Live, "too-many-steps", id, format!("{steps} steps and {cb} callbacks for {n} tokens (bound {bound})"));
    }
}

fn judge_error(w: &World, s: &Rc<RefCell<Sess>>, g: &G, e: &Error<Sym>, d: Option<&mut Machine>) {
    let m = s.borrow();
    let id = m.id;
    w.ev(id, "error", m.tokens.len() as u64, u64::from(m.ended));
    let (before, at): (&[u16], Option<u16>) = if m.ended {
        (&m.tokens, None)
    } else if let Some((l, b)) = m.tokens.split_last() {
        (b, Some(*l))
    } else {
        w.flaw(Kind::Report, "error-before-input", id, format!("{e:?} before the first token was requested"));
        return;
    };
    // what people read: the text of the error says what the error holds
    let text = e.to_string();
    let words: std::collections::BTreeSet<&str> = text.split(|c: char| !c.is_alphanumeric()).collect();
    match e {
        Error::UnexpectedToken(t, expected) => {
            let named: std::collections::BTreeSet<String> = expected.iter().chain([t]).map(|x| format!("{x:?}")).collect();
            let foreign = words.iter().find(|w| w.strip_prefix('s').is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())) && !named.contains(**w));
            if let Some(x) = named.iter().find(|x| !words.contains(x.as_str())) {
                w.flaw(Kind::Report, "text", id, format!("the text {text:?} of {e:?} does not name {x}"));
            } else if let Some(x) = foreign {
                w.flaw(Kind::Report, "text", id, format!("the text {text:?} of {e:?} names {x}"));
            }
        }
        Error::Conflict(x, y) => {
            let acts = format!("{x:?} {y:?}");
            if let Some(x) = acts.split(|c: char| !c.is_alphanumeric()).find(|x| !words.contains(x)) {
                w.flaw(Kind::Conflict, "text", id, format!("the text {text:?} of {e:?} does not name {x}"));
            }
        }
        _ => {}
    }
    // where the first error of a fresh (or canonical) session must be
    let exact = !m.tainted;
    let mut ea = Earley::new(g);
    let viable_before = before.iter().all(|t| ea.push(*t));
    match e {
        Error::UnexpectedToken(t, expected) => {
            let want = at.unwrap_or(g.eof);
            if t.0 != want {
                w.flaw(Kind::Report, "wrong-token", id, format!("error names {}, the offending token is {want}", t.0));
            }
            if exact && !viable_before {
                w.flaw(Kind::Report, "late", id, format!("{before:?} starts no sentence, but the error is reported only at the token after it"));
            }
            if exact && viable_before {
                let next = ea.next();
                let bad = match at {
                    Some(l) => l != g.eof && next.contains(&l),
                    None => ea.complete(),
                };
                if bad {
                    let sub = if at.is_none() { "rejected-sentence" } else { "rejected-viable" };
                    w.flaw(Kind::Verdict, sub, id, format!("{e} after {before:?}, where the next token {want} is right"));
                    w.flaw(Kind::Report, "early", id, format!("{e} after {before:?}, where the next token {want} is right"));
                } else if m.class == Class::Clr {
                    let mut have: Vec<u16> = expected.iter().map(|x| x.0).collect();
                    have.sort_unstable();
                    let want: Vec<u16> = next.iter().copied().collect();
                    if have != want {
                        w.flaw(Kind::Report, "expected", id, format!("expected list {have:?}, tokens that can follow {before:?} are {want:?}"));
                    }
                    w.stat("probe.expected-list-checked");
                } else if m.reductions == m.red_at_pull {
                    // the state is the one of the viable prefix, so it knows all that can follow
                    let missing: Vec<u16> = next.iter().copied().filter(|x| !expected.iter().any(|e| e.0 == *x)).collect();
                    if !missing.is_empty() {
                        w.flaw(Kind::Report, "expected", id, format!("expected list {expected:?} lacks {missing:?}, which can follow {before:?}"));
                    }
                    w.stat("probe.expected-list-checked");
                }
            }
            if let Some(x) = expected.iter().find(|x| x.0 != g.eof && !g.terminals().contains(&x.0)) {
                w.flaw(Kind::Report, "expected-non-token", id, format!("expected list {expected:?} names {x:?}, which is no token"));
            }
            if m.class == Class::Clr && m.reductions != m.red_at_pull {
                w.flaw(Kind::Report, "reduced-on-error", id, format!("{} reductions made on the offending token", m.reductions - m.red_at_pull));
            }
            if m.reductions != m.red_at_pull {
                w.stat("probe.spurious-reductions-before-error");
            }
        }
        Error::Conflict(..) => {
            if w.free_of_conflicts(m.gi, m.class) {
                w.flaw(Kind::Verdict, "conflict-in-class", id, format!("{e} although the grammar is in the class of the parser"));
            }
        }
        Error::IncompleteExec => {
            if !(at == Some(g.eof) && (!exact || (viable_before && ea.complete()))) {
                w.flaw(Kind::Verdict, "incomplete", id, format!("IncompleteExec after {before:?}, next {at:?}"));
            }
        }
        e => w.flaw(Kind::Verdict, "internal-error", id, format!("{e} ({e:?})")),
    }
    let pend = if at.is_some() { m.queue.last().copied() } else { None };
    let (lost, vals, ended) = (m.lost, m.vals, m.ended);
    drop(m);
    if let Some(d) = d {
        if vals {
            let pulls = s.borrow().pulls;
            let have = d.buffer.peek().map(|t| (t.item.id, t.ty.0));
            if have != pend && !lost {
                w.flaw(Kind::Report, "consumed", id, format!("the offending token should still be pending ({pend:?}), found {have:?}"));
            }
            if s.borrow().pulls != pulls && !ended {
                s.borrow_mut().lost = true;
            }
            check_stack(w, s, d);
        }
    }
}

/// Runs one machine to its end with the session's policies.
/// `go` performs an attempt; the machine is handed back to check it in between.
fn drive(w: &Rc<World>, s: &Rc<RefCell<Sess>>, d: &mut Machine, first: Option<Src<Val>>) -> bool {
    let spec = s.borrow().spec.clone();
    let g = &w.gs[s.borrow().gi];
    let (mut retries, mut skips) = match spec.on_error {
        OnError::Stop => (0, 0),
        OnError::Retry(n) => (n, 0),
        OnError::Skip(n) => (0, n),
        OnError::RetrySkip(n) => (1, n),
    };
    let mut first = first;
    let mut finished_ok;
    let mut injected_left = 64;
    loop {
        set_limit(clock() + budget(g, tokens_planned(&spec)));
        let mut ret = None;
        let mut returned = false;
        let src = first.take();
        let mut stopped = false;
        if w.view {
            let n = work(s, d);
            s.borrow_mut().seen_work = Some(n);
            s.borrow_mut().attempt_step = 0;
        }
        let a = attempt(|| match (spec.api, src) {
            (Api::DfaParse | Api::ReuseParse, Some(src)) => {
                let v = d.parse(src)?;
                returned = true;
                ret = Some(v.id);
                let m = s.borrow();
                if w.conserve && !m.lost {
                    drop(m);
                    check_gone(w, s.borrow().id, 1, "after the result was returned");
                }
                Ok(())
            }
            (Api::Trace, _) => {
                let w2 = w.clone();
                let s2 = s.clone();
                d.trace(move |d| {
                    s2.borrow_mut().steps += 1;
                    if !w2.view && (d.items.len() < 200 || d.items.len() % 61 == 0) {
                        let _ = d.stack_fmt().len() + d.stack_debug().len();
                    }
                    observe(&w2, &s2, d);
                })
            }
            (Api::Travel, _) => {
                let mut n = 0u16;
                // how many tokens had come when the machine held none
                let mut bare = s.borrow().tokens.is_empty().then_some(0);
                while !d.finished {
                    s.borrow_mut().steps += 1;
                    observe(w, s, d);
                    if spec.stop_after == Some(n) {
                        stopped = true;
                        return Ok(());
                    }
                    n += 1;
                    let known = foreseen(s, bare).map(|l| l.map_or_else(|| d.eof.clone(), Sym));
                    let known = known.filter(|l| matches!(d.table.get(d.top).and_then(|r| r.get(l)), Some(Action::Shift(_) | Action::Acc)));
                    let sym = match known {
                        Some(l) => {
                            w.stat("probe.took-a-token-unseen");
                            l
                        }
                        None => match d.buffer.peek() {
                            Some(t) => t.ty.clone(),
                            None => d.eof.clone(),
                        },
                    };
                    let before = d.items.len();
                    let shift = matches!(d.table.get(d.top).and_then(|r| r.get(&sym)), Some(Action::Shift(_)));
                    d.travel(&sym)?;
                    if shift && d.items.len() == before + 1 {
                        bare = Some(s.borrow().tokens.len());
                    }
                }
                Ok(())
            }
            _ => d.start(),
        });
        set_limit(u64::MAX);
        let a = if stopped && matches!(a, Attempt::Ok) { Attempt::Stopped } else { a };
        judge(w, s, &a, if returned { None } else { Some(d) }, ret);
        if w.view && matches!(spec.api, Api::Trace | Api::Travel) {
            let over = matches!(a, Attempt::Ok | Attempt::Err(_) | Attempt::Injected | Attempt::Cancelled | Attempt::Stopped);
            let n = work(s, d);
            let (seen, id, lost) = {
                let m = s.borrow();
                (m.seen_work, m.id, m.lost)
            };
            if over && !lost && seen != Some(n) {
                w.flaw(Kind::View, "steps", id, format!("{n} shifts and reductions when the run ends, {seen:?} when its last step was shown"));
            }
        }
        finished_ok = matches!(a, Attempt::Ok);
        match a {
            Attempt::Injected if spec.retry_panic && injected_left > 0 => {
                injected_left -= 1;
                w.stat("probe.resumed-after-panic");
                if w.conserve {
                    check_live(w, s, "after a panic was caught");
                }
                continue;
            }
            Attempt::Ok if !returned && retries > 0 && matches!(spec.on_error, OnError::Retry(_) | OnError::RetrySkip(_)) => {
                // a finished machine: calling again must change nothing
                recheck(w, s, d, &Ok(()));
            }
            Attempt::Err(e) => {
                if retries > 0 {
                    retries -= 1;
                    w.stat("probe.retried-after-error");
                    let same = recheck(w, s, d, &Err(e.clone()));
                    if !same {
                        break;
                    }
                    if retries > 0 {
                        let mut more = retries;
                        while more > 0 && recheck(w, s, d, &Err(e.clone())) {
                            more -= 1;
                        }
                        retries = 0;
                    }
                    absent_token(w, s, d);
                }
                if skips == 0 || matches!(e, Error::Conflict(..)) || s.borrow().ended {
                    break;
                }
                skips -= 1;
                w.stat("probe.skipped-offending-token");
                // the caller discards the offending token and goes on
                let pulls = s.borrow().pulls;
                let gone = catch_unwind(AssertUnwindSafe(|| d.buffer.next()));
                let mut m = s.borrow_mut();
                let pend = m.queue.pop();
                m.tokens.pop();
                let at = m.last_pos;
                m.skipped.push(at);
                // as if it had never come, if nothing but the error followed it
                if m.trace.len() == m.deliver_at + 2 {
                    let k = m.deliver_at;
                    m.trace.truncate(k);
                }
                if let Some(p) = pend {
                    m.names.remove(&p.0);
                }
                w.ev(m.id, "skip", 0, 0);
                if m.pulls != pulls || gone.ok().flatten().map(|t| t.item.id) != pend.map(|p| p.0) {
                    w.flaw(Kind::Report, "consumed", m.id, "discarding the pending token did not yield the offending one".into());
                    break;
                }
                // a canonical machine has not touched its stack on an unexpected token; the others
                // may have reduced, and any has on an end marker inside the stream
                if m.class != Class::Clr || matches!(e, Error::IncompleteExec) {
                    m.tainted = true;
                }
                m.red_at_pull = m.reductions;
                continue;
            }
            _ => {}
        }
        break;
    }
    finished_ok
}

/// Calls the machine again after an outcome: the same outcome, and nothing changed.
fn recheck(w: &Rc<World>, s: &Rc<RefCell<Sess>>, d: &mut Machine, want: &Result<(), Error<Sym>>) -> bool {
    let before = snapshot(d, s);
    let g = &w.gs[s.borrow().gi];
    let id = s.borrow().id;
    set_limit(clock() + budget(g, tokens_planned(&s.borrow().spec)));
    let a = attempt(|| d.start());
    set_limit(u64::MAX);
    let after = snapshot(d, s);
    let same = match (&a, want) {
        (Attempt::Ok, Ok(())) => true,
        (Attempt::Err(x), Err(y)) => x == y,
        _ => false,
    };
    if !same {
        let got = match &a {
            Attempt::Ok => "Ok".to_string(),
            Attempt::Err(e) => format!("{e:?}"),
            Attempt::Panic(m) => format!("panic {m}"),
            Attempt::Injected => "injected".into(),
            Attempt::Cancelled => return false,
            Attempt::OutOfTime => "out of time".into(),
            Attempt::Stopped => "stopped".into(),
        };
        w.flaw(Kind::Retry, "other-outcome", id, format!("called again after {want:?}: {got}"));
    }
    if before != after {
        w.flaw(Kind::Retry, "changed", id, format!("called again after {want:?}: {before:?} became {after:?}"));
    }
    same && before == after
}

/// Follows a session along the automaton. Ok: the states on the stack after what it saw so far.
/// Err: where it departs, and whether a conflict is involved.
pub fn by_the_book(g: &G, auto: &Auto, trace: &[Tr], vals: bool) -> Result<Vec<usize>, (bool, String)> {
    use crate::gram::Answer;
    let mut stack = vec![0];
    let mut todo: std::collections::VecDeque<usize> = std::collections::VecDeque::new();
    let mut ans = Answer::Shifted;
    let mut look: Option<u16> = None;
    for t in trace {
        let departs = |what: String, todo: &std::collections::VecDeque<usize>| {
            let involved = matches!(ans, Answer::Conflict(_)) || what.contains("conflict");
            Err((involved, format!("seeing {look:?}, {what}, where the automaton makes the reductions {todo:?} and then: {ans:?}")))
        };
        match t {
            Tr::Deliver(_) | Tr::End => {
                if (vals && !todo.is_empty()) || ans != Answer::Shifted {
                    return departs("the session asks for more".into(), &todo);
                }
                let (l, tno) = match t {
                    Tr::Deliver(l) => (*l, if *l == g.eof { Some(g.nt) } else { g.term_of_label(*l).map(|s| g.tno(s)) }),
                    _ => (g.eof, Some(g.nt)),
                };
                look = Some(l);
                let (r, a) = auto.see(g, &mut stack, tno);
                // end of input is one thing, its symbol sent as a token another
                todo = r.into();
                ans = a;
            }
            Tr::Reduce(p, _) => {
                if todo.front() != Some(&(*p as usize)) {
                    return departs(format!("the session reduces {p}"), &todo);
                }
                todo.pop_front();
            }
            Tr::Injected => {}
            Tr::Outcome(o) => {
                if matches!(o.as_str(), "cancelled" | "stopped" | "panic" | "no end in sight") {
                    return Ok(stack);
                }
                let in_band = matches!(trace.iter().rev().find(|t| matches!(t, Tr::Deliver(_) | Tr::End)), Some(Tr::Deliver(_)));
                let want = match &ans {
                    Answer::Shifted => String::new(),
                    Answer::Accepted if in_band => "IncompleteExec".to_string(),
                    Answer::Accepted => "accepted".to_string(),
                    Answer::Unexpected(e) => format!("unexpected token {}, expected {e:?}", look.unwrap_or(0)),
                    Answer::Conflict(c) => conflict_text(c),
                };
                let same = match o.as_str() {
                    "invalid" => !want.is_empty() && want != "accepted",
                    o => o.split(", result").next() == Some(&want),
                };
                if !same || (vals && !todo.is_empty()) {
                    return departs(format!("the session ends: {o}"), &todo);
                }
            }
        }
    }
    Ok(stack)
}

/// The source has ended and the session was refused: a step that would take a token that never
/// comes must fail and change nothing.
fn absent_token(w: &World, s: &Rc<RefCell<Sess>>, d: &mut Machine) {
    let (gi, class) = {
        let m = s.borrow();
        if !w.absent || !m.ended || m.tainted || m.lost || !m.vals || !m.skipped.is_empty() {
            return;
        }
        (m.gi, m.class)
    };
    let g = &w.gs[gi];
    let Some(auto) = w.auto(gi, class) else { return };
    let Ok(stack) = by_the_book(g, &auto, &s.borrow().trace, true) else { return };
    let st = &auto.states[*stack.last().unwrap()];
    let id = s.borrow().id;
    let mut n = 0;
    for t in 0..g.nt {
        if st.act[t].len() != 1 || !matches!(st.act[t].first(), Some(crate::gram::Act::Shift(_))) {
            continue;
        }
        let mut before = snapshot(d, s);
        let seen = s.borrow().trace.len();
        let l = g.label[g.nn + t];
        w.fused.set(true);
        let a = attempt(|| d.travel(&Sym(l)));
        w.fused.set(false);
        let after = snapshot(d, s);
        // whether it looks once more if there is a token now is not the point
        before.pulls = after.pulls;
        s.borrow_mut().trace.truncate(seen);
        w.stat("probe.absent-token-expected");
        if !matches!(a, Attempt::Err(Error::UnexpectedEof)) {
            let got = match a {
                Attempt::Ok => "success".to_string(),
                Attempt::Err(e) => format!("{e:?}"),
                _ => "a panic".into(),
            };
            w.flaw(Kind::Retry, "absent-token", id, format!("a step that takes {l} after the end of the source: {got} and not UnexpectedEof"));
        }
        if before != after {
            w.flaw(Kind::Retry, "absent-token", id, format!("a step that takes {l} after the end of the source: {before:?} became {after:?}"));
            return;
        }
        n += 1;
        if n == 3 {
            break;
        }
    }
}

/// Between two steps, as a caller that looks at the machine.
/// Looking at a machine and copying it takes as long as the machine is large, and none of the time of
/// the step it makes.
fn off_the_clock<R>(f: impl FnOnce() -> R) -> R {
    let now = clock();
    let limit = set_limit(now.saturating_add(BUILD_BUDGET));
    let r = f();
    set_limit(limit);
    set_clock(now);
    r
}

fn observe(w: &Rc<World>, s: &Rc<RefCell<Sess>>, d: &mut Machine) {
    off_the_clock(|| check_stack(w, s, d));
    if w.view {
        off_the_clock(|| check_view(w, s, d));
    }
    let (step, forks, yields) = {
        let m = s.borrow();
        let n = m.steps - 1;
        (n, m.spec.forks.iter().any(|f| u32::from(f.at) == n), m.spec.observe_yield)
    };
    if forks {
        off_the_clock(|| fork(w, s, d, step));
    }
    if yields {
        yield_point(w, s, 0);
    }
}

/// What the source says next if nobody has looked: a token or (None) its end.
fn foreseen(s: &Rc<RefCell<Sess>>, bare: Option<usize>) -> Option<Option<u16>> {
    let m = s.borrow();
    if !m.spec.blind || m.ended || bare != Some(m.tokens.len()) {
        return None;
    }
    for i in m.spec.stream.iter().skip(m.src_pos) {
        match i {
            Item::Tok(l, _) => return Some(Some(*l)),
            Item::FalseEnd => return Some(None),
            _ => {}
        }
    }
    Some(None)
}

/// Shifts and reductions the machine has made.
fn work(s: &Rc<RefCell<Sess>>, d: &Machine) -> u64 {
    let m = s.borrow();
    d.items.len() as u64 + m.taken + u64::from(m.reductions)
}

/// What is shown before a step: one step more than the last time, a path through the table, and the
/// same again in the texts; and looking changes nothing.
fn check_view(w: &Rc<World>, s: &Rc<RefCell<Sess>>, d: &mut Machine) {
    let n = work(s, d);
    let (id, lost, seen, nth, steps) = {
        let mut m = s.borrow_mut();
        m.attempt_step += 1;
        (m.id, m.lost, m.seen_work.replace(n), m.attempt_step, m.steps)
    };
    if lost {
        return;
    }
    let bad = |sub, msg: String| {
        s.borrow_mut().lost = true;
        w.flaw(Kind::View, sub, id, msg);
    };
    w.stat("probe.views");
    let due = seen.map(|x| x + u64::from(nth > 1));
    if due != Some(n) {
        return bad("steps", format!("look {nth} of the run shows the machine after {n} shifts and reductions, one step on from the last look would be {due:?}"));
    }
    if d.finished {
        return bad("finished", "the machine is said to have finished before a step it is about to make".into());
    }
    if d.states.first() != Some(&0) || d.states.len() != d.items.len() + 1 || d.states.last() != Some(&d.top) {
        return bad("shape", format!("states {:?}, top {}, for {} items", d.states, d.top, d.items.len()));
    }
    // deep stacks are read through at one step of many
    if d.items.len() > 150 && n % 23 != 0 || d.items.len() > 1500 && n % 667 != 0 {
        return;
    }
    for i in 0..d.items.len() {
        let to = d.states[i + 1];
        let ty = &d.items[i].ty;
        if !matches!(d.table.get(d.states[i]).and_then(|r| r.get(ty)), Some(Action::Shift(n) | Action::Goto(n)) if *n == to) {
            return bad("path", format!("{ty:?} is on the stack between the states {} and {to}, the table has no such way", d.states[i]));
        }
    }
    let text = |item: &dyn Fn(&Token<Val, Sym>) -> String| {
        let mut t = d.states[0].to_string();
        for (it, st) in d.items.iter().zip(&d.states[1..]) {
            t.push_str(&format!(" {} {st}", item(it)));
        }
        t
    };
    // the text puts each state before the item shifted from it
    let (plain, full) = (text(&|t| format!("{:?}", t.ty)), text(&|t| format!("{t:?}")));
    let (a, b) = (d.stack_fmt(), d.stack_debug());
    if a != plain {
        return bad("text", format!("stack_fmt says {a:?}, the stack is {plain:?}"));
    }
    if b != full {
        return bad("text", format!("stack_debug says {b:?}, the stack is {full:?}"));
    }
    let before = snapshot(d, s);
    match (steps as usize + id) % 4 {
        0 => {
            let look = d.buffer.peek().map(|t| (t.item.id, t.ty.0));
            let again = d.buffer.peek().map(|t| (t.item.id, t.ty.0));
            let m = s.borrow();
            let due = if m.ended { None } else { m.queue.last().copied() };
            if look != again || look != due {
                drop(m);
                return bad("looked", format!("the pending token is {look:?} and then {again:?}, last delivered: {due:?}"));
            }
        }
        1 => {
            let c = d.clone();
            let same = c.states == d.states && c.top == d.top && c.finished == d.finished && c.stack_fmt() == a && c.table == d.table;
            if !same {
                return bad("looked", format!("a clone shows {:?}, the machine {a:?}", c.stack_fmt()));
            }
        }
        _ => {}
    }
    let after = snapshot(d, s);
    if before.states != after.states || before.items != after.items || before.top != after.top || before.reductions != after.reductions {
        bad("looked", format!("looking made {before:?} into {after:?}"));
    }
}

fn fork(w: &Rc<World>, s: &Rc<RefCell<Sess>>, d: &mut Machine, step: u32) {
    let spec = s.borrow().spec.clone();
    for f in spec.forks.iter().filter(|f| u32::from(f.at) == step) {
        let mut child = d.clone();
        // copies of copies, whose originals are dropped
        for _ in 0..f.via {
            let next = child.clone();
            child = next;
        }
        let mut cs = (*spec).clone();
        cs.forks.clear();
        cs.cb.clear();
        cs.cancel = None;
        cs.stop_after = None;
        cs.blind = false;
        cs.stream.clone_from(&f.stream);
        cs.api = if step % 2 == 0 { Api::Start } else { Api::Trace };
        let c = w.new_sess(Rc::new(cs), true);
        {
            let mut m = s.borrow_mut();
            m.forked = true;
            let mut x = c.borrow_mut();
            x.stack = m.stack.clone();
            x.queue = m.queue.clone();
            x.tokens = m.tokens.clone();
            x.ended = m.ended;
            x.tainted = m.tainted;
            x.lost = m.lost;
            x.reductions = m.reductions;
            x.taken = m.taken;
            x.red_at_pull = m.red_at_pull;
            x.forked = true;
            x.prefix = Some((m.tokens.clone(), m.ended));
            x.trace = m.trace.clone();
            x.names = m.names.clone();
            x.skipped = m.skipped.clone();
            x.deliver_at = m.deliver_at;
            w.ev(m.id, "fork", x.id as u64, 0);
        }
        w.stat("probe.fork");
        let w2 = w.clone();
        w.spawn(Box::new(move || {
            w2.set_cur(Some(c.clone()));
            drive(&w2, &c, &mut child, None);
            c.borrow_mut().done = true;
            drop(child);
            w2.set_cur(None);
        }));
    }
}

fn run_session(w: &Rc<World>, spec: &Rc<Session>, slot: &mut Option<(Machine, usize, Rc<RefCell<Sess>>)>) {
    let ps = &w.parsers[spec.parser];
    let g = &w.gs[ps.gi];
    let vals = !matches!(spec.api, Api::Validate | Api::Cloned | Api::Simple);
    let reuse = matches!(spec.api, Api::ReuseParse | Api::ReuseReset);
    let kept = if reuse { slot.take().filter(|x| x.1 == spec.parser) } else { None };
    let reuse = reuse && kept.is_some();
    release(w, slot);
    // a machine keeps its callbacks
    let spec = &match &kept {
        Some((_, _, o)) if o.borrow().spec.share != spec.share => {
            let mut x = (**spec).clone();
            x.share = o.borrow().spec.share;
            Rc::new(x)
        }
        _ => spec.clone(),
    };
    let s = w.new_sess(spec.clone(), vals);
    s.borrow_mut().reused = reuse;
    w.set_cur(Some(s.clone()));
    w.ev(s.borrow().id, "open", spec.api as u64, spec.parser as u64);
    w.stat("sessions");
    if ps.compacted.get() {
        w.stat("probe.session-on-compacted-parser");
    }
    w.stat(match spec.api {
        Api::Parse => "api.Parser::parse",
        Api::Validate => "api.Parser::validate",
        Api::Cloned => "api.Parser::cloned",
        Api::Simple => "api.Parser::simple_dfa",
        Api::Start => "api.Dfa::start",
        Api::Trace => "api.Dfa::trace",
        Api::Travel => "api.Dfa::travel",
        Api::DfaParse => "api.Dfa::parse",
        Api::ReuseParse => "api.Dfa::parse(reused)",
        Api::ReuseReset => "api.Dfa::reset",
    });
    match spec.api {
        Api::Parse | Api::Validate | Api::Cloned | Api::Simple => {
            set_limit(clock() + budget(g, tokens_planned(spec)));
            let mut ret: Option<Val> = None;
            let mut verdict_only = None;
            let p = ps.p.borrow();
            let a = attempt(|| match spec.api {
                Api::Parse => {
                    ret = Some(with!(p.as_ref().unwrap(), p => p.parse(Src::<Val>::new(spec), maps(g, spec.share)))?);
                    Ok(())
                }
                Api::Cloned => {
                    with!(p.as_ref().unwrap(), p => p.parse(Src::<Sym>::new(spec), p.cloned::<Src<Sym>>()))?;
                    Ok(())
                }
                Api::Simple => with!(p.as_ref().unwrap(), p => p.simple_dfa(Src::<()>::new(spec)).start()),
                _ => {
                    verdict_only = Some(with!(p.as_ref().unwrap(), p => p.validate(Src::<()>::new(spec))));
                    Ok(())
                }
            });
            drop(p);
            set_limit(u64::MAX);
            if verdict_only == Some(false) {
                judge_invalid(w, &s, g);
            } else {
                judge(w, &s, &a, None, ret.as_ref().map(|v| v.id));
            }
            if w.conserve && vals {
                let id = s.borrow().id;
                let bad = matches!(a, Attempt::OutOfTime | Attempt::Panic(_));
                if !s.borrow().lost && !bad {
                    check_gone(w, id, i64::from(ret.is_some()), "after Parser::parse returned");
                    drop(ret);
                    check_gone(w, id, 0, "after the result was dropped");
                }
            }
        }
        _ => {
            let mut d;
            let mut old = None;
            let mut first = None;
            if let Some((m, _, o)) = kept {
                d = m;
                old = Some(o);
                w.stat("probe.machine-reused");
                if matches!(spec.api, Api::ReuseParse) {
                    first = Some(Src::new(spec));
                } else {
                    d.reset();
                    d.buffer = Src::new(spec).peekable();
                }
            } else {
                let p = ps.p.borrow();
                let make = || {
                    let src = if matches!(spec.api, Api::DfaParse | Api::ReuseParse) { Src::empty() } else { Src::new(spec) };
                    with!(p.as_ref().unwrap(), p => p.dfa(src, maps(g, spec.share)))
                };
                d = make();
                if matches!(spec.api, Api::DfaParse | Api::ReuseParse) {
                    first = Some(Src::new(spec));
                }
            }
            if let Some(o) = &old {
                // nothing of the former session may come back: its values are checked once the
                // new one is under way
                w.ev(s.borrow().id, "reuse", o.borrow().id as u64, 0);
            }
            drive(w, &s, &mut d, first);
            if let Some(o) = old {
                if w.conserve && !o.borrow().lost && !o.borrow().forked {
                    check_gone(w, o.borrow().id, 0, "after the machine was reused");
                }
            }
            *slot = Some((d, spec.parser, s.clone()));
        }
    }
    s.borrow_mut().done = true;
    w.set_cur(None);
}

/// Drops the machine a task kept.
fn release(w: &Rc<World>, slot: &mut Option<(Machine, usize, Rc<RefCell<Sess>>)>) {
    if let Some((d, _, s)) = slot.take() {
        let (id, lost, forked) = {
            let s = s.borrow();
            (s.id, s.lost, s.forked)
        };
        drop(d);
        if w.conserve && !lost && !forked {
            check_gone(w, id, 0, "after the machine was dropped");
        }
    }
}

/// `validate` said no; it does not say why.
fn judge_invalid(w: &World, s: &Rc<RefCell<Sess>>, g: &G) {
    let m = s.borrow();
    w.ev(m.id, "invalid", m.tokens.len() as u64, 0);
    drop(m);
    s.borrow_mut().trace.push(Tr::Outcome("invalid".into()));
    let m = s.borrow();
    w.stat("outcome.invalid");
    let mut e = Earley::new(g);
    let mut viable = true;
    for (i, t) in m.tokens.iter().enumerate() {
        viable = e.push(*t);
        if !viable {
            if (m.ended || i + 1 < m.tokens.len()) && w.free_of_conflicts(m.gi, m.class) {
                w.flaw(Kind::Report, "late", m.id, format!("validate went on asking for tokens after {:?}, which starts no sentence", &m.tokens[..=i]));
            }
            break;
        }
    }
    let fine = if m.ended { viable && e.complete() } else { viable && !m.tokens.is_empty() };
    if fine && w.free_of_conflicts(m.gi, m.class) {
        w.flaw(Kind::Verdict, "rejected-sentence", m.id, format!("validate rejects {:?} (ended: {})", m.tokens, m.ended));
    }
}

fn task_body(w: &Rc<World>, ops: &[Op]) {
    let mut slot = None;
    for op in ops {
        match op {
            Op::Run(spec) => run_session(w, &Rc::new(spec.clone()), &mut slot),
            Op::Sleep(n) => w.sleep(u64::from(*n)),
            Op::Conflicts { parser } => {
                let ps = &w.parsers[*parser];
                let g = &w.gs[ps.gi];
                w.ev(0, "conflicts", *parser as u64, 0);
                w.stat("probe.conflicts-listed");
                for _ in 0..10_000 {
                    if let Ok(p) = ps.p.try_borrow() {
                        let have: std::collections::BTreeSet<Competing> = with!(p.as_ref().unwrap(), p => p.tables().conflicts().map(|a| competing(g, &[a])).collect());
                        if let Some(auto) = w.auto(ps.gi, ps.class) {
                            let want = auto.conflicts();
                            w.stat(if want.is_empty() { "probe.listed-none" } else { "probe.listed-some" });
                            if have != want {
                                w.flaw(
                                    Kind::Conflict,
                                    "listed",
                                    0,
                                    format!("conflicts() of the {:?} parser lists {have:?}, the actions that compete are {want:?}", ps.class),
                                );
                            }
                            // one for every state and token, so also as often as the table has it
                            let (mut listed, mut held) = with!(p.as_ref().unwrap(), p => (
                                p.tables().conflicts().map(|a| competing(g, &[a])).collect::<Vec<_>>(),
                                p.tables().actions.iter().flat_map(BTreeMap::values).filter(|a| matches!(a, Action::Conflict(..))).map(|a| competing(g, &[a])).collect::<Vec<_>>(),
                            ));
                            listed.sort();
                            held.sort();
                            if listed != held {
                                w.flaw(
                                    Kind::Conflict,
                                    "listed",
                                    0,
                                    format!("conflicts() of the {:?} parser lists {} entries, its table has {}: {listed:?} and {held:?}", ps.class, listed.len(), held.len()),
                                );
                            }
                            if let Some((conflict, msg)) = with!(p.as_ref().unwrap(), p => walk(g, &auto, &p.tables().actions)) {
                                w.flaw(if conflict { Kind::Conflict } else { Kind::Machine }, "table", 0, format!("{:?} parser: {msg}", ps.class));
                            }
                        }
                        break;
                    }
                    w.sleep(1);
                }
                w.sleep(0);
            }
            Op::Compact { parser } | Op::Swap { parser } => {
                let ps = &w.parsers[*parser];
                for _ in 0..10_000 {
                    if let Ok(mut p) = ps.p.try_borrow_mut() {
                        if matches!(op, Op::Compact { .. }) {
                            w.ev(0, "compact", *parser as u64, 0);
                            w.stat("fault.compaction");
                            ps.compacted.set(true);
                            let states = |p: &AnyParser| with!(p, p => p.tables().actions.len());
                            let before = states(p.as_ref().unwrap());
                            let distinct = with!(p.as_ref().unwrap(), p => p.tables().actions.iter().collect::<std::collections::BTreeSet<_>>().len());
                            set_limit(clock() + BUILD_BUDGET);
                            let a = attempt(|| {
                                with!(p.as_mut().unwrap(), p => p.reduce_equals());
                                Ok(())
                            });
                            set_limit(u64::MAX);
                            let after = states(p.as_ref().unwrap());
                            if after < before {
                                w.stat("probe.compaction-merged-states");
                            }
                            if matches!(a, Attempt::Ok) && after > distinct {
                                w.flaw(
                                    Kind::Rows,
                                    "compaction",
                                    0,
                                    format!("compaction of a table of {before} rows, {distinct} of them different, left {after}"),
                                );
                            }
                            match a {
                                Attempt::OutOfTime => w.flaw(Kind::Live, "compaction", 0, "compaction did not end".into()),
                                Attempt::Panic(m) => w.flaw(Kind::Panic, "compaction", 0, format!("compaction panicked: {m}")),
                                _ => {}
                            }
                        } else {
                            w.ev(0, "swap", *parser as u64, 0);
                            w.stat("fault.parser-replaced");
                            let n = dup(p.as_ref().unwrap());
                            *p = Some(n);
                        }
                        break;
                    }
                    w.sleep(1);
                }
                w.sleep(0);
            }
        }
    }
    release(w, &mut slot);
}

/// Runs a scenario. `trace_log` keeps the events (for reports); it changes nothing else.
pub fn run(scen: &Scenario, trace_log: bool) -> RunResult {
    run_on(scen, trace_log, None)
}

/// As `run`, on parsers that were built already.
pub fn run_on(scen: &Scenario, trace_log: bool, ready: Option<Vec<AnyParser>>) -> RunResult {
    let mut res = RunResult {
        sessions: Vec::new(),
        parsers: Vec::new(),
        flaws: Vec::new(),
        stats: Stats::default(),
        log: Vec::new(),
        fp: 0,
        ticks: 0,
        harness_error: None,
    };
    let mut gs = Vec::new();
    for g in &scen.grammars {
        match g.compile() {
            Ok(g) => gs.push(g),
            Err(e) => {
                res.harness_error = Some(format!("grammar outside the domain: {e}"));
                return res;
            }
        }
    }
    if scen.parsers.iter().any(|(gi, c)| *c == Class::Slr && gs[*gi].cyclic()) {
        res.harness_error = Some("a rule that derives itself alone, for SLR".into());
        return res;
    }
    set_clock(0);
    let mut parsers = Vec::new();
    let mut ready = ready.map(Vec::into_iter);
    for (gi, class) in &scen.parsers {
        let mut built = ready.as_mut().and_then(Iterator::next);
        let start = clock();
        set_limit(start + BUILD_BUDGET);
        let a = attempt(|| {
            if built.is_none() {
                built = Some(build(&scen.grammars[*gi], *class));
            }
            Ok(())
        });
        set_limit(u64::MAX);
        res.stats.add("parsers", 1);
        res.stats.add(
            match class {
                Class::Slr => "class.slr",
                Class::Lalr => "class.lalr",
                Class::Clr => "class.clr",
            },
            1,
        );
        let cost = clock() - start;
        let e = res.stats.c.entry("max.build-operations").or_insert(0);
        *e = (*e).max(cost);
        match a {
            Attempt::OutOfTime => {
                res.flaws.push(Flaw {
                    kind: Kind::Live,
                    sub: "construction",
                    session: 0,
                    msg: format!("building the {class:?} parser took more than {BUILD_BUDGET} symbol operations"),
                });
                return res;
            }
            Attempt::Panic(m) => {
                res.flaws.push(Flaw { kind: Kind::Panic, sub: "construction", session: 0, msg: format!("building the {class:?} parser panicked: {m}") });
                return res;
            }
            _ => {}
        }
        let built = built.unwrap();
        parsers.push(ParserSlot {
            original: dup(&built),
            p: RefCell::new(Some(built)),
            gi: *gi,
            class: *class,
            compacted: Cell::new(false),
        });
    }
    let n = gs.len();
    let w = Rc::new(World {
        gs,
        classes: RefCell::new(vec![None; n]),
        autos: RefCell::new(BTreeMap::new()),
        parsers,
        ledger: Rc::new(RefCell::new(Ledger::default())),
        tasks: RefCell::new(Vec::new()),
        running: Cell::new(0),
        now: Cell::new(0),
        pos: Cell::new(0),
        log: RefCell::new(Vec::new()),
        fp: Cell::new(Fnv::new()),
        stats: RefCell::new(res.stats),
        flaws: RefCell::new(Vec::new()),
        nsess: Cell::new(0),
        sessions: RefCell::new(Vec::new()),
        conserve: scen.property == "C10",
        absent: scen.property == "C05",
        view: scen.property == "C20",
        fused: Cell::new(false),
        trace_log,
    });
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    for ops in &scen.tasks {
        let w2 = w.clone();
        let ops = ops.clone();
        w.spawn(Box::new(move || task_body(&w2, &ops)));
    }
    let mut err = None;
    loop {
        let (runnable, next): (Vec<usize>, Option<u64>) = {
            let t = w.tasks.borrow();
            (
                (0..t.len()).filter(|i| !t[*i].done && t[*i].wake <= w.now.get()).collect(),
                t.iter().filter(|t| !t.done).map(|t| t.wake).min(),
            )
        };
        if runnable.is_empty() {
            match next {
                None => break,
                Some(t) => {
                    w.now.set(t);
                    continue;
                }
            }
        }
        let pos = w.pos.get();
        let c = scen.sched.get(pos).copied().unwrap_or(0) as usize;
        w.pos.set(pos + 1);
        let i = runnable[c % runnable.len()];
        if runnable.len() > 1 {
            w.stats.borrow_mut().add("probe.contended-decisions", 1);
        }
        w.now.set(w.now.get() + 1);
        w.running.set(i);
        let mut co = w.tasks.borrow_mut()[i].coro.take().unwrap();
        let done = co.resume();
        if done {
            if co.escaped() {
                err = Some(format!("a panic escaped from task {i}: {}", last_panic()));
            }
            w.tasks.borrow_mut()[i].done = true;
        } else {
            w.tasks.borrow_mut()[i].coro = Some(co);
        }
        if err.is_some() {
            break;
        }
        if pos > 200_000 {
            err = Some("scheduler ran away".into());
            break;
        }
    }
    set_limit(u64::MAX);
    // sessions must leave the parsers as they were
    for p in &w.parsers {
        if !p.compacted.get() && err.is_none() && !same(p.p.borrow().as_ref().unwrap(), &p.original) {
            w.flaw(Kind::Isolation, "parser-changed", 0, "a parser differs from what was built, after sessions only".into());
        }
    }
    let mut fp = w.fp.get();
    fp.u64(w.now.get());
    WORLD.with(|x| *x.borrow_mut() = None);
    let mut stats = w.stats.borrow().clone();
    stats.add("clones", w.ledger.borrow().clones);
    let flaws = w.flaws.borrow().clone();
    let log = w.log.borrow().clone();
    let sessions = w.sessions.borrow().iter().map(|s| s.borrow().record()).collect();
    w.sessions.borrow_mut().clear();
    let ticks = w.now.get();
    let parsers = match Rc::try_unwrap(w) {
        Ok(w) => w.parsers.into_iter().map(|p| p.original).collect(),
        // tasks that never ended (a harness error) still hold the world
        Err(_) => Vec::new(),
    };
    RunResult { sessions, parsers, flaws, stats, log, fp: fp.0, ticks, harness_error: err }
}
