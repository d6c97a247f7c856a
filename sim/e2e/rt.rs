//! The program generated parsers are compiled into for C22: symbols, values that are numbers, what
//! the code blocks call, and sessions as told by standard input. Everything that happens goes into
//! a log, and the same input gives the same log.
pub use lrp::Meta;
use lrp::{Clr, Dfa, Error, Grammar, Lalr, Parser, ReductMap, Slr, Span, Token};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// A value: its number.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ast(pub u32);
pub type Gramem = Token<Meta<Ast>, Sym>;

macro_rules! syms {
    ($($s:ident)*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum Sym { $($s),* }
        const ALL: &[Sym] = &[$(Sym::$s),*];
        #[allow(non_snake_case)]
        pub mod Tok { pub use crate::Sym::{$($s),*}; }
    };
}
syms! { Comma Expr2 E Plus Word EXPR Eof NUM List Arrow Expr Quote Term Stmt Num Block Words EntryPoint Dot Semi Expr_ Star Open Close Alias Use Item Arg Fun Neg }

struct Now {
    log: String,
    next: u32,
    calls: u32,
    fail: Vec<u32>,
}
thread_local! {
    static NOW: RefCell<Now> = const { RefCell::new(Now { log: String::new(), next: 0, calls: 0, fail: Vec::new() }) };
}
fn note(s: &str) {
    NOW.with(|n| {
        let mut n = n.borrow_mut();
        n.log.push_str(s);
        n.log.push('\n');
    });
}
fn number() -> u32 {
    NOW.with(|n| {
        let mut n = n.borrow_mut();
        n.next += 1;
        n.next
    })
}
struct Injected;

/// How a bound value is written into the log.
pub trait Show {
    fn show(&self) -> String;
}
impl Show for Gramem {
    fn show(&self) -> String {
        self.item.item.0.to_string()
    }
}
impl Show for &Gramem {
    fn show(&self) -> String {
        format!("&{}", self.item.item.0)
    }
}
fn list(l: &[Gramem]) -> String {
    let v: Vec<String> = l.iter().map(Show::show).collect();
    format!("[{}]", v.join(" "))
}
impl Show for &[Gramem] {
    fn show(&self) -> String {
        format!("&{}", list(self))
    }
}
impl Show for Vec<Gramem> {
    fn show(&self) -> String {
        list(self)
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String {
        self.as_ref().map_or_else(|| "None".into(), |x| format!("Some({})", x.show()))
    }
}
pub fn show<T: Show>(t: &T) -> String {
    t.show()
}

/// What every code block calls.
pub fn rep(rule: &str, alternative: u32, toks: &[Gramem], bound: &[(&str, String)]) -> Ast {
    let fail = NOW.with(|n| {
        let mut n = n.borrow_mut();
        n.calls += 1;
        let c = n.calls - 1;
        n.fail.contains(&c)
    });
    let args: Vec<String> = toks.iter().map(|t| format!("{}@{}-{}", t.item.item.0, t.item.span.start, t.item.span.end)).collect();
    let bound: Vec<String> = bound.iter().map(|(n, v)| format!("{n}={v}")).collect();
    note(&format!("r {rule} {alternative} {} | {}", args.join(" "), bound.join(" ")));
    if fail {
        resume_unwind(Box::new(Injected));
    }
    Ast(number())
}

struct Src {
    plan: Rc<Vec<String>>,
    at: usize,
}
impl Iterator for Src {
    type Item = Gramem;
    fn next(&mut self) -> Option<Gramem> {
        let Some(x) = self.plan.get(self.at) else {
            note("e");
            return None;
        };
        self.at += 1;
        if x == "!" {
            resume_unwind(Box::new(Injected));
        }
        let s = *ALL.iter().find(|s| format!("{s:?}") == *x).expect("symbol");
        let id = number();
        note(&format!("d {x}"));
        Some(Token::new(Meta::new(Ast(id), Span::new(self.at * 3, self.at * 3 + 2)), s))
    }
}

/// Its number, its grammar and its callbacks.
pub type Module = (usize, fn() -> Grammar<Sym>, fn() -> ReductMap<Meta<Ast>, Sym>);

enum Any {
    S(Slr<Sym>),
    L(Lalr<Sym>),
    C(Clr<Sym>),
}

fn outcome(r: std::result::Result<Option<Meta<Ast>>, Error<Sym>>) {
    match r {
        Ok(v) => note(&v.map_or_else(|| "o ok".into(), |v| format!("o ok {}@{}-{}", v.item.0, v.span.start, v.span.end))),
        Err(Error::UnexpectedToken(t, mut e)) => {
            e.sort();
            note(&format!("o unexpected {t:?} {e:?}"));
        }
        Err(Error::Conflict(..)) => note("o conflict"),
        Err(e) => note(&format!("o {e:?}")),
    }
}

/// One session: `module class api failing,callbacks tokens...`
fn session(p: &Any, m: &Module, api: &str, plan: Rc<Vec<String>>, old: &mut Option<Dfa<Meta<Ast>, Sym, Src>>) {
    let src = || Src { plan: plan.clone(), at: 0 };
    let dfa = || match p {
        Any::S(p) => p.dfa(src(), (m.2)()),
        Any::L(p) => p.dfa(src(), (m.2)()),
        Any::C(p) => p.dfa(src(), (m.2)()),
    };
    if api == "parse" || api == "reuse" {
        let mut kept = if api == "reuse" { old.take() } else { None };
        let r = catch_unwind(AssertUnwindSafe(|| match (&mut kept, p) {
            (Some(d), _) => d.parse(src()),
            (_, Any::S(p)) => p.parse(src(), (m.2)()),
            (_, Any::L(p)) => p.parse(src(), (m.2)()),
            (_, Any::C(p)) => p.parse(src(), (m.2)()),
        }));
        match r {
            Ok(r) => outcome(r.map(Some)),
            Err(e) if e.is::<Injected>() => note("p"),
            Err(_) => note("panicked"),
        }
        if api == "reuse" {
            *old = kept.or_else(|| Some(dfa()));
        }
        return;
    }
    let mut d = dfa();
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| if api == "trace" { d.trace(|_| ()) } else { d.start() }));
        match r {
            Ok(r) => {
                outcome(r.map(|()| d.items.first().map(|t| t.item.clone())));
                return;
            }
            Err(e) if e.is::<Injected>() => note("p"),
            Err(_) => {
                note("panicked");
                return;
            }
        }
    }
}

pub fn run(modules: &[Module]) {
    std::panic::set_hook(Box::new(|i| note(&format!("panic: {}", i.to_string().replace('\n', " ")))));
    let mut last: Option<(usize, String, Any, Option<Dfa<Meta<Ast>, Sym, Src>>)> = None;
    let mut out = std::io::stdout().lock();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
        let k: usize = w[0].parse().unwrap();
        let m = modules.iter().find(|m| m.0 == k).expect("module");
        NOW.with(|n| {
            *n.borrow_mut() = Now { log: String::new(), next: 0, calls: 0, fail: w[3].split(',').filter_map(|x| x.parse().ok()).collect() };
        });
        let plan = Rc::new(w[4..].iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
        let r = catch_unwind(AssertUnwindSafe(|| {
            if !last.as_ref().is_some_and(|x| x.0 == k && x.1 == w[1]) {
                let g = (m.1)();
                let p = match w[1] {
                    "slr" => Any::S(Slr::new(g)),
                    "lalr" => Any::L(Lalr::new(g)),
                    _ => Any::C(Clr::new(g)),
                };
                last = Some((k, w[1].to_string(), p, None));
            }
            let x = last.as_mut().unwrap();
            session(&x.2, m, w[2], plan, &mut x.3);
        }));
        if r.is_err() {
            last = None;
            note("panicked");
        }
        let log = NOW.with(|n| std::mem::take(&mut n.borrow_mut().log));
        out.write_all(log.as_bytes()).unwrap();
        out.write_all(b"--\n").unwrap();
    }
    out.flush().unwrap();
}
