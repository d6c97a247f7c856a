//! What wop shows of a run on its standard output: each token when the parser takes it, the stack
//! before each step, how the parse ended, the tree. Written from the language: tokens come from
//! the reference lexer, steps from a textbook SLR(1) automaton of wop's grammar, the tree from the
//! reductions. State numbers are compared up to renaming.
use crate::gram::{Act, Answer, Auto, GSpec, G};
use crate::wopref;
use std::collections::BTreeMap;
use std::rc::Rc;

const NAMES: [&str; 25] = [
    "AliasWord", "UseWord", "Assign", "Pipe", "OpenParen", "CloseParen", "Sc", "PathAccess", "TwoDots", "Glob", "Optional", "Clone", "Ident", "StrLit", "CodeBlock", "Eof",
    "EntryPoint", "Program", "Rule", "Import", "Alias", "RulePipe", "RuleDecl", "IdentPath", "RuleItem",
];
fn sym(n: &str) -> u16 {
    NAMES.iter().position(|x| *x == n).expect("a symbol of wop") as u16
}

const RULES: [(&str, &[&str]); 9] = [
    ("EntryPoint", &["Program"]),
    ("Program", &["Program Import Sc", "Program Alias Sc", "Program RuleDecl Sc", "Import Sc", "Alias Sc", "RuleDecl Sc"]),
    ("IdentPath", &["IdentPath PathAccess Ident", "Ident"]),
    ("RuleDecl", &["IdentPath TwoDots IdentPath Assign Rule"]),
    ("Rule", &["Rule Pipe RulePipe", "Rule Pipe RulePipe CodeBlock", "RulePipe", "RulePipe CodeBlock"]),
    ("RulePipe", &["RulePipe RuleItem", "RuleItem"]),
    ("Import", &["UseWord IdentPath PathAccess Glob", "UseWord IdentPath"]),
    ("Alias", &["AliasWord Ident IdentPath", "AliasWord StrLit IdentPath"]),
    ("RuleItem", &[]),
];

pub struct Wop {
    g: G,
    auto: Auto,
}

struct Node {
    ty: &'static str,
    at: (usize, usize),
    ast: Ast,
}
type N = Rc<Node>;
type Pipe = (Vec<N>, (usize, usize));
#[derive(Clone)]
enum Ast {
    Token(&'static str),
    Entry(N),
    Program(Vec<N>),
    Decl((usize, usize), (usize, usize), Vec<Pipe>),
    Rule(Vec<Pipe>),
    Pipe(Vec<N>),
    Item(N, bool, Option<(usize, usize)>, bool),
    Import((usize, usize)),
    Alias((usize, usize), (usize, usize)),
    Path((usize, usize)),
}

fn build(ty: &'static str, toks: &[N]) -> N {
    let at = (toks[0].at.0, toks[toks.len() - 1].at.1);
    let named = |n: &str| toks.iter().position(|t| t.ty == n);
    let pipe = || -> Pipe {
        let p = &toks[named("RulePipe").unwrap()];
        let Ast::Pipe(v) = &p.ast else { unreachable!() };
        (v.clone(), named("CodeBlock").map_or((0, 0), |k| toks[k].at))
    };
    let ast = match ty {
        "EntryPoint" => Ast::Entry(toks[0].clone()),
        "Program" => match &toks[0].ast {
            Ast::Program(v) => {
                let mut v = v.clone();
                v.push(toks[1].clone());
                Ast::Program(v)
            }
            _ => Ast::Program(vec![toks[0].clone()]),
        },
        "IdentPath" => Ast::Path(at),
        "RuleDecl" => {
            let Ast::Rule(v) = &toks[4].ast else { unreachable!() };
            Ast::Decl(toks[0].at, toks[2].at, v.clone())
        }
        "Rule" => match &toks[0].ast {
            Ast::Rule(v) => {
                let mut v = v.clone();
                v.push(pipe());
                Ast::Rule(v)
            }
            _ => Ast::Rule(vec![pipe()]),
        },
        "RulePipe" => match &toks[0].ast {
            Ast::Pipe(v) => {
                let mut v = v.clone();
                v.push(toks[1].clone());
                Ast::Pipe(v)
            }
            _ => Ast::Pipe(vec![toks[0].clone()]),
        },
        "RuleItem" => {
            let base = toks[usize::from(toks[0].ty == "OpenParen")].clone();
            Ast::Item(base, named("Optional").is_some(), named("Ident").map(|k| toks[k].at), named("Clone").is_some())
        }
        "Import" => Ast::Import((toks[1].at.0, at.1)),
        _ => Ast::Alias(toks[1].at, toks[2].at),
    };
    Rc::new(Node { ty, at, ast })
}

fn print(n: &Node, prefix: &str, lvl: usize, txt: &str, out: &mut String) {
    use std::fmt::Write;
    let of = |s: (usize, usize)| &txt[s.0..s.1];
    let tab = |n: usize| "  ".repeat(n);
    let hi = |s: &str| format!("\x1B[1;33m\"{s}\"\x1B[0;m");
    let _ = writeln!(out, "{}{prefix}{}: {}", tab(lvl), n.ty, hi(of(n.at)));
    let lvl = lvl + 1;
    let t = tab(lvl);
    let prods = |v: &[Pipe], out: &mut String| {
        for (i, (items, code)) in v.iter().enumerate() {
            let _ = writeln!(out, "{t}|> production {i}:");
            for g in items {
                print(g, "- ", lvl + 1, txt, out);
            }
            let c = of(*code);
            let _ = writeln!(out, "{t}|> reductor {i}: {}", hi(c.strip_prefix("->").unwrap_or("(null)")));
        }
    };
    match &n.ast {
        Ast::Token(s) => {
            let _ = writeln!(out, "{t}|> sym: {s}");
        }
        Ast::Entry(g) => print(g, "", lvl, txt, out),
        Ast::Program(v) | Ast::Pipe(v) => {
            for g in v {
                print(g, "- ", lvl, txt, out);
            }
        }
        Ast::Decl(name, ty, v) => {
            let _ = writeln!(out, "{t}|> rule_name: {}", hi(of(*name)));
            let _ = writeln!(out, "{t}|> rule_type: {}", hi(of(*ty)));
            prods(v, out);
        }
        Ast::Rule(v) => prods(v, out),
        Ast::Import(s) => {
            let _ = writeln!(out, "{t}|> path: {}", of(*s));
        }
        Ast::Alias(a, b) => {
            let _ = writeln!(out, "{t}|> alias: {}", of(*a));
            let _ = writeln!(out, "{t}|> definition: {}", of(*b));
        }
        Ast::Path(s) => {
            let _ = writeln!(out, "{t} {}", of(*s));
        }
        Ast::Item(g, optional, alias, copy) => {
            print(g, "", lvl, txt, out);
            let _ = writeln!(out, "{t}|> optional: {optional}");
            let _ = writeln!(out, "{t}|> clone: {copy}");
            match alias {
                Some(a) => {
                    let _ = writeln!(out, "{t}|> alias: {:?}", of(*a));
                }
                None => {
                    let _ = writeln!(out, "{t}|> alias: (null)");
                }
            }
        }
    }
}

/// One thing that is to be shown.
enum Due {
    Text(String),
    /// the stack: states (the reference's numbers) and item names
    Stack(Vec<usize>, Vec<&'static str>),
    /// a token that is none, from this byte on: what of the text it covers is not said
    NoToken(usize, String),
    /// an unexpected token, and what was expected
    Unexpected(String, Vec<&'static str>),
    /// some duration
    Elapsed,
}

/// How far a run has got whose output is complete.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reached {
    Refused,
    /// accepted; what the generator makes of it is another matter
    Parsed,
}

pub struct Shown {
    due: Vec<Due>,
    pub reached: Reached,
    pub tokens: u64,
    pub steps: u64,
    /// how many of the things due come before the generator works
    before_building: usize,
    /// which of them says how the parse ended
    verdict: usize,
}

pub enum Verdict {
    Whole,
    /// a true beginning: how many of the things due it shows
    Start(usize),
    Differs(String),
}

impl Wop {
    pub fn new() -> Wop {
        let mut rules: Vec<(u16, Vec<Vec<u16>>)> = RULES.iter().map(|(n, ps)| (sym(n), ps.iter().map(|p| p.split(' ').map(sym).collect()).collect())).collect();
        for base in ["IdentPath", "StrLit", "OpenParen Rule CloseParen"] {
            for opt in ["", " Optional"] {
                for al in ["", " TwoDots Ident", " TwoDots Clone Ident"] {
                    let p = format!("{base}{opt}{al}");
                    rules.last_mut().unwrap().1.push(p.split(' ').map(sym).collect());
                }
            }
        }
        let spec = GSpec { start: sym("EntryPoint"), eof: sym("Eof"), rules };
        let g = spec.compile().expect("wop's grammar");
        let auto = g.automaton(0, 2000).expect("wop's automaton");
        assert!(auto.states.iter().flat_map(|s| &s.act).all(|a| a.len() < 2), "wop's grammar is SLR(1)");
        Wop { g, auto }
    }

    /// What a run on this text shows. None: the reference declines.
    pub fn due(&self, txt: &str) -> Option<Shown> {
        let (toks, end) = wopref::tokens(txt);
        let mut due = Vec::new();
        let mut states = vec![0];
        let mut items: Vec<N> = Vec::new();
        let (mut at, mut steps, mut taken) = (0, 0, 0);
        let mut pending = None;
        let stray = loop {
            steps += 1;
            due.push(Due::Stack(states.clone(), items.iter().map(|n| n.ty).collect()));
            if pending.is_none() {
                pending = if let Some(&(n, a, b)) = toks.get(at) {
                    at += 1;
                    taken += 1;
                    due.push(Due::Text(format!("\"{}\" ({n}) [{a}..{b}]\n", &txt[a..b])));
                    Some(n)
                } else {
                    match end {
                        Some(None) => return None,
                        Some(Some(from)) => {
                            due.push(Due::NoToken(from, txt[from..].into()));
                            Some("Error")
                        }
                        None => Some("Eof"),
                    }
                };
            }
            let name = pending.unwrap();
            let st = &self.auto.states[*states.last().unwrap()];
            let tno = match name {
                "Error" => None,
                "Eof" => Some(self.g.nt),
                n => Some(self.g.term_of_label(sym(n)).map(|s| self.g.tno(s)).expect("a terminal")),
            };
            let act = tno.and_then(|t| st.act[t].first().copied());
            match act {
                None => {
                    let (_, Answer::Unexpected(e)) = self.auto.see(&self.g, &mut states.clone(), tno) else { unreachable!() };
                    due.push(Due::Unexpected(name.into(), e.iter().map(|l| NAMES[*l as usize]).collect()));
                    break true;
                }
                Some(Act::Shift(k)) => {
                    let (n, a, b) = toks[at - 1];
                    items.push(Rc::new(Node { ty: n, at: (a, b), ast: Ast::Token(n) }));
                    states.push(k);
                    pending = None;
                }
                Some(Act::Acc) => {
                    due.push(Due::Text("OUTPUT: ()\n".into()));
                    break false;
                }
                Some(Act::Reduce(p)) => {
                    let p = &self.g.prods[p];
                    let k = items.len() - p.rhs.len();
                    let n = build(NAMES[self.g.label[p.lhs] as usize], &items[k..]);
                    items.truncate(k);
                    items.push(n);
                    states.truncate(states.len() - p.rhs.len());
                    let to = self.auto.states[*states.last().unwrap()].goto[&p.lhs];
                    states.push(to);
                }
            }
        };
        let verdict = due.len() - 1;
        due.push(Due::Text("PARSING OUTPUT:\n".into()));
        // of a text that is refused the part that came first, if any did
        if let Some(n) = items.first() {
            let mut s = String::new();
            print(n, "", 0, txt, &mut s);
            due.push(Due::Text(s));
        }
        let mut before_building = due.len();
        if !stray {
            due.push(Due::Text("BUILDING OUTPUT\n".into()));
            before_building += 1;
            due.push(Due::Elapsed);
            due.push(Due::Text("WRITING DUMP\n".into()));
            due.push(Due::Elapsed);
        }
        Some(Shown { due, reached: if stray { Reached::Refused } else { Reached::Parsed }, tokens: taken, steps, before_building, verdict })
    }
}

enum Step<'a> {
    Rest(&'a [u8]),
    Ended,
    No(String),
}

/// The text is what comes next, or its beginning and then the end.
fn literal<'a>(got: &'a [u8], want: &[u8]) -> Step<'a> {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if k == want.len() {
        Step::Rest(&got[k..])
    } else if k == got.len() {
        Step::Ended
    } else {
        let cut = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
        Step::No(format!("{:?} where {:?} is due", cut(&got[k..]), cut(&want[k..])))
    }
}

impl Shown {
    /// Whether a text that is right up to here is all that is due from a run that went well, or
    /// (`built`: whether the generator can have had its say) that ended on its own.
    pub fn enough(&self, shown: usize, ok: bool) -> bool {
        shown >= if ok { self.due.len() } else { self.before_building }
    }
    pub fn compare(&self, got: &[u8]) -> Verdict {
        let mut rest = got;
        let mut names: BTreeMap<usize, u64> = BTreeMap::new();
        let mut used: BTreeMap<u64, usize> = BTreeMap::new();
        for (k, d) in self.due.iter().enumerate() {
            if rest.is_empty() {
                return Verdict::Start(k);
            }
            let line = rest.iter().position(|b| *b == b'\n');
            let step = match d {
                Due::Text(t) => literal(rest, t.as_bytes()),
                Due::Stack(states, items) => match line {
                    None => Step::Ended,
                    Some(n) => {
                        let text = String::from_utf8_lossy(&rest[..n]).into_owned();
                        let words: Vec<&str> = text.strip_prefix('"').and_then(|t| t.strip_suffix('"')).map(|t| t.split(' ').collect()).unwrap_or_default();
                        let mut ok = words.len() == states.len() + items.len();
                        for (i, w) in words.iter().enumerate() {
                            if !ok {
                                break;
                            }
                            if i % 2 == 1 {
                                ok = *w == items[i / 2];
                            } else if let Ok(v) = w.parse::<u64>() {
                                let s = states[i / 2];
                                ok = *names.entry(s).or_insert(v) == v && *used.entry(v).or_insert(s) == s;
                            } else {
                                ok = false;
                            }
                        }
                        if ok {
                            Step::Rest(&rest[n + 1..])
                        } else {
                            Step::No(format!("the stack {text:.200} where {} is due", items.join(" ")))
                        }
                    }
                },
                Due::NoToken(from, text) => {
                    // how much of the text it covers is not said, and it may hold line ends
                    let mark = format!("\" (Error) [{from}..");
                    let mark = mark.as_bytes();
                    let same = rest[1..].iter().zip(text.as_bytes()).take_while(|(a, b)| a == b).count();
                    let over = (0..=same).rev().find(|k| rest[1 + k..].starts_with(mark));
                    let cut = (0..=same).rev().any(|k| mark.starts_with(&rest[1 + k..]));
                    let end = over.map(|k| (k, rest[1 + k..].iter().position(|b| *b == b'\n')));
                    match end {
                        _ if rest[0] != b'"' => Step::No(format!("no token starts at byte {from}, and it is not named")),
                        Some((k, Some(n))) => Step::Rest(&rest[1 + k + n + 1..]),
                        Some((_, None)) => Step::Ended,
                        None if cut => Step::Ended,
                        None => Step::No(format!("no token starts at byte {from}, and it is not named")),
                    }
                }
                Due::Unexpected(found, expected) => match literal(rest, format!("FATAL: unexpected token {found}. expected [").as_bytes()) {
                    Step::Rest(r) => match r.iter().position(|b| *b == b'\n') {
                        None => Step::Ended,
                        Some(n) => {
                            let text = String::from_utf8_lossy(&r[..n]).into_owned();
                            let mut have: Vec<&str> = text.strip_suffix(']').map(|t| t.split(", ").collect()).unwrap_or_default();
                            // the lrp that wop is built with (0.1.0 as published) lists rules too
                            have.retain(|n| !RULES.iter().any(|r| r.0 == *n));
                            have.sort_unstable();
                            let mut want = expected.clone();
                            want.sort_unstable();
                            if have == want {
                                literal(&r[n + 1..], b"source:\n")
                            } else {
                                Step::No(format!("expected are {want:?}, said to be {have:?}"))
                            }
                        }
                    },
                    s => s,
                },
                Due::Elapsed => match literal(rest, b"ELAPSED TIME: ") {
                    Step::Rest(r) => match r.iter().position(|b| *b == b'\n') {
                        Some(n) => Step::Rest(&r[n + 1..]),
                        None => Step::Ended,
                    },
                    s => s,
                },
            };
            match step {
                Step::Rest(r) => rest = r,
                Step::Ended => return Verdict::Start(k),
                Step::No(why) => return Verdict::Differs(format!("after {} bytes: {why}", got.len() - rest.len())),
            }
        }
        if rest.is_empty() {
            Verdict::Whole
        } else {
            let t = String::from_utf8_lossy(&rest[..rest.len().min(80)]).into_owned();
            Verdict::Differs(format!("more is shown than is due: {t:?}"))
        }
    }
    pub fn len(&self) -> usize {
        self.due.len()
    }
    /// A text that shows the run up to how it ended, and no more.
    pub fn judged(&self, got: &[u8]) -> Result<(), String> {
        match self.compare(got) {
            Verdict::Start(k) if k == self.verdict + 1 => Ok(()),
            Verdict::Whole if self.due.len() == self.verdict + 1 => Ok(()),
            Verdict::Start(k) => Err(format!("it shows {k} of the {} things up to the end of the parse", self.verdict + 1)),
            Verdict::Whole => Err("it shows more than the parse".into()),
            Verdict::Differs(why) => Err(why),
        }
    }
    /// A text that shows a beginning of the run, not how it ends.
    pub fn begun(&self, got: &[u8]) -> Result<(), String> {
        match self.compare(got) {
            Verdict::Start(k) if k <= self.verdict => Ok(()),
            Verdict::Differs(why) => Err(why),
            _ => Err("it shows an end of the parse".into()),
        }
    }
    /// A text that says only how the parse ended.
    pub fn ended(mut self, got: &[u8]) -> Result<(), String> {
        let d = self.due.swap_remove(self.verdict);
        self.due = vec![d];
        self.verdict = 0;
        self.judged(got)
    }
}
