//! Drives wop's library as a client would: built by lib.sh as an example of wop in the copy of the
//! repository. Its argument is a file with operations and sources; see proc.rs, judge_c24.
//!
//! First line: the operations, separated by ';'. Second line: the lengths of the sources. Then the
//! sources, one after another. Operations (S a source, M the number of a machine):
//!   b S      from_str, then the dumps
//!   t S      the same on a thread of its own
//!   o M S P  opens a machine on S whose source panics at its P-th request (0: never)
//!   s M N    at most N steps
//!   f M      runs it to its end with an observer
//!   c M K    copies M as K
//!   x M      abandons it
//! For each result a line "@ OP WHAT LENGTH" and the bytes.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use wop::builder::{Builder, GRAMMAR_LINTS, REDUCTOR_LINTS};
use wop::Gramem;

thread_local! {
    /// what the machine at work has been seen doing
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
}
fn say(s: &str) {
    LOG.with(|l| l.borrow_mut().push_str(s));
}

#[derive(Clone)]
struct Src {
    toks: std::vec::IntoIter<Gramem>,
    text: &'static str,
    asked: usize,
    panics_at: usize,
}
struct Injected;
impl Iterator for Src {
    type Item = Gramem;
    fn next(&mut self) -> Option<Gramem> {
        self.asked += 1;
        if self.asked == self.panics_at {
            std::panic::resume_unwind(Box::new(Injected));
        }
        let t = self.toks.next()?;
        let s = t.item.span;
        say(&format!("{:?} ({:?}) [{}..{}]\n", Raw(s.from_source(self.text)), t.ty, s.start, s.end));
        Some(t)
    }
}
/// Between quotes, as it is.
struct Raw<'a>(&'a str);
impl std::fmt::Debug for Raw<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "\"{}\"", self.0)
    }
}

fn dumps(b: &Builder, src: &str) -> String {
    let one = || {
        format!(
            "\nuse crate::{{Ast, Gramem, Meta, Sym}};\nuse lrp::{{Grammar, ReductMap, Span}};\n\n#[allow({GRAMMAR_LINTS})]\n#[must_use]\npub fn grammar() -> Grammar<Sym> {{\n    Grammar::new(Sym::EntryPoint, {}, Sym::Eof)\n}}\n\n#[allow({REDUCTOR_LINTS})]\npub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}\n",
            b.dump_grammar(src),
            b.dump_reductor(src)
        )
    };
    let (first, second) = (one(), one());
    if first == second {
        first
    } else {
        format!("the same builder's dumps differ:\n{first}\n{second}")
    }
}

fn build(src: &str) -> (&'static str, String) {
    let r = catch_unwind(AssertUnwindSafe(|| match Builder::from_str(src) {
        Err(e) => ("err", format!("FATAL: {e}\nsource:\n")),
        Ok(mut b) => {
            b.entry_type = "Gramem".to_string();
            ("out", dumps(&b, src))
        }
    }));
    r.unwrap_or(("panic", String::new()))
}

macro_rules! end {
    ($out:expr, $k:expr, $what:expr, $text:expr) => {{
        let t: &str = &$text;
        write!($out, "@ {} {} {}\n{}\n", $k, $what, t.len(), t).unwrap();
    }};
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let file = std::fs::read(std::env::args().nth(1).unwrap()).unwrap();
    let file: &'static str = Box::leak(String::from_utf8(file).unwrap().into_boxed_str());
    let (ops, rest) = file.split_once('\n').unwrap();
    let (lens, mut rest) = rest.split_once('\n').unwrap();
    let mut sources = Vec::new();
    for l in lens.split_whitespace() {
        let (a, b) = rest.split_at(l.parse().unwrap());
        sources.push(a);
        rest = b;
    }
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut machines = BTreeMap::new();
    for (k, op) in ops.split(';').enumerate() {
        let w: Vec<&str> = op.split_whitespace().collect();
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        match w.first().copied().unwrap_or("") {
            "b" => {
                let (what, text) = build(sources[n(1)]);
                end!(out, k, what, text);
            }
            "t" => {
                let src = sources[n(1)];
                let (what, text) = std::thread::spawn(move || build(src)).join().unwrap();
                end!(out, k, what, text);
            }
            "o" => {
                let text = sources[n(2)];
                let toks = wop::lexer(text).collect::<Vec<_>>().into_iter();
                let d = wop::build_parser(Src { toks, text, asked: 0, panics_at: n(3) });
                // its source, what was seen of it, whether the look before its next step was logged
                machines.insert(n(1), (d, n(2), String::new(), false));
            }
            "c" => {
                if let Some(m) = machines.get(&n(1)).cloned() {
                    machines.insert(n(2), m);
                }
            }
            "x" => {
                if let Some(m) = machines.remove(&n(1)) {
                    end!(out, k, "left", m.2);
                }
            }
            o @ ("s" | "f") => {
                let Some((mut d, si, log, mut looked)) = machines.remove(&n(1)) else { continue };
                LOG.with(|l| *l.borrow_mut() = log);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if o == "f" {
                        return d
                            .trace(|st| {
                                if !std::mem::take(&mut looked) {
                                    say(&format!("{:?}\n", st.stack_fmt()));
                                }
                                looked = false;
                            })
                            .map(|()| true);
                    }
                    for _ in 0..n(2) {
                        if !std::mem::replace(&mut looked, true) {
                            say(&format!("{:?}\n", d.stack_fmt()));
                        }
                        let sym = d.buffer.peek().map_or(d.eof, |t| t.ty);
                        d.travel(&sym)?;
                        looked = false;
                        if d.finished {
                            return Ok(true);
                        }
                    }
                    Ok(false)
                }));
                let mut log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                match r {
                    Err(p) if p.is::<Injected>() => {
                        // the look was logged; it is not taken again
                        machines.insert(n(1), (d, si, log, true));
                        end!(out, k, "paused", "");
                    }
                    Err(_) => end!(out, k, "broke", log),
                    Ok(Ok(false)) => {
                        machines.insert(n(1), (d, si, log, looked));
                    }
                    Ok(Err(e)) => {
                        log.push_str(&format!("FATAL: {e}\nsource:\n"));
                        end!(out, k, "refused", log);
                    }
                    Ok(Ok(true)) => {
                        log.push_str("OUTPUT: ()\n");
                        end!(out, k, "parsed", log);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut b = Builder::new("Gramem".to_string());
                            b.process(&d.items[0], sources[si]);
                            dumps(&b, sources[si])
                        }));
                        match r {
                            Ok(t) => end!(out, k, "out", t),
                            Err(_) => end!(out, k, "panic", ""),
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for (k, m) in machines {
        end!(out, 1_000_000 + k, "left", m.2);
    }
    out.write_all(b"@ end\n").unwrap();
    out.flush().unwrap();
}
