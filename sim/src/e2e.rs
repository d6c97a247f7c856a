//! From a source to a running parser: wop generates, the compiler compiles, sessions run. What the
//! source says, by the reference reading and the automaton of its grammar, gives every line of the
//! log those sessions have to leave.
use crate::gram::{generate, Answer, Auto, GSpec, Want, G, MAX_LR1};
use crate::rng::Rng;
use crate::wopref::{self, Bound, Program};
use std::collections::BTreeMap;

/// The symbols of e2e/rt.rs, in their order.
pub const SYMS: [&str; 30] = [
    "Comma", "Expr2", "E", "Plus", "Word", "EXPR", "Eof", "NUM", "List", "Arrow", "Expr", "Quote", "Term", "Stmt", "Num", "Block", "Words", "EntryPoint", "Dot", "Semi", "Expr_", "Star", "Open",
    "Close", "Alias", "Use", "Item", "Arg", "Fun", "Neg",
];
fn sym(name: &str) -> Option<u16> {
    SYMS.iter().position(|s| *s == name).map(|i| i as u16)
}
const EOF: u16 = 6;
const ENTRY: u16 = 17;
/// Too many productions make the compiler slow.
const MOST: usize = 60;

const PRELUDES: [&str; 4] = ["", "let n = toks.len(); assert!(n > 0); ", "/* } | ; */ ", "let _ = \"; | -> } alias\"; "];
fn code(rule: &str, alt: usize, names: &[&str], style: usize) -> String {
    let list: Vec<String> = names.iter().map(|n| format!("(\"{n}\", crate::show(&{n}))")).collect();
    format!("{{ {}crate::rep(\"{rule}\", {alt}, toks, &[{}]) }}", PRELUDES[style], list.join(", "))
}

/// A code block as `code` makes them.
struct Block {
    rule: String,
    alt: usize,
    names: Vec<String>,
}
fn block(text: &str) -> Option<Block> {
    let text = text.trim();
    let (_, t) = text.split_once("crate::rep(\"")?;
    let (rule, t) = t.split_once("\", ")?;
    let (alt, t) = t.split_once(", toks, &[")?;
    let names: Vec<String> = t.split('"').skip(1).step_by(2).map(str::to_string).collect();
    let alt: usize = alt.parse().ok()?;
    let refs: Vec<&str> = names.iter().map(String::as_str).collect();
    // the mark of the end is not part of it
    let same = (0..PRELUDES.len()).any(|s| code(rule, alt, &refs, s) == text);
    same.then(|| Block { rule: rule.into(), alt, names })
}

/// What a source of the domain of C22 declares.
pub struct Declared {
    pub g: G,
    /// by number of the production
    what: Vec<(Block, BTreeMap<String, Bound>)>,
    autos: [Option<Auto>; 3],
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn symbol(text: &str, p: &Program) -> Option<u16> {
    let t = squeeze(text);
    let (path, name) = t.rsplit_once("::").map_or(("", t.as_str()), |(a, b)| (a, b));
    let fine = match path {
        "" | "crate::Sym" | "Sym" | "crate::Tok" => true,
        "Tok" => p.imports.iter().any(|i| squeeze(i) == "crate::Tok"),
        _ => false,
    };
    sym(name).filter(|_| fine)
}

/// None: not a source whose parser C22 judges.
pub fn declared(src: &[u8]) -> Option<Declared> {
    let p = wopref::read(src).ok()?;
    let imports: Vec<String> = p.imports.iter().map(|i| squeeze(i)).collect();
    if !imports.iter().any(|i| i == "crate::Sym::*") || !imports.iter().all(|i| matches!(i.as_str(), "crate::Sym::*" | "crate::Tok" | "crate::Ast")) {
        return None;
    }
    if imports.iter().filter(|i| *i == "crate::Tok").count() > 1 {
        return None;
    }
    let mut rules = Vec::new();
    let mut decl: BTreeMap<u16, Vec<(Block, BTreeMap<String, Bound>)>> = BTreeMap::new();
    for (name, r) in &p.rules {
        let lhs = symbol(name, &p)?;
        if !matches!(squeeze(&r.ty).as_str(), "Ast" | "crate::Ast") || decl.contains_key(&lhs) {
            return None;
        }
        let mut prods = Vec::new();
        let what = decl.entry(lhs).or_default();
        for ((syms, text), binds) in r.prods.iter().zip(&r.binds) {
            let (b, binds) = (block(text)?, binds.clone()?);
            let own = |n: &str| n.len() > 1 && n.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') && n.chars().any(|c| c.is_ascii_digit());
            if b.names.len() != binds.len() || !b.names.iter().all(|n| binds.contains_key(n) && own(n)) {
                return None;
            }
            prods.push(syms.iter().map(|s| symbol(s, &p)).collect::<Option<Vec<u16>>>()?);
            what.push((b, binds));
        }
        rules.push((lhs, prods));
    }
    let spec = GSpec { start: ENTRY, eof: EOF, rules };
    let g = spec.compile().ok()?;
    if g.prods.len() > MOST || g.cyclic() {
        return None;
    }
    let what = spec.rules.iter().flat_map(|(l, _)| decl.remove(l).unwrap()).collect();
    let autos = [0, 1, 2].map(|c| g.automaton(c, MAX_LR1));
    Some(Declared { g, what, autos })
}

fn shown(b: &Bound, vals: &[(u32, usize, usize)]) -> String {
    let Some((from, to)) = b.at else { return "None".into() };
    let amp = if b.copy { "" } else { "&" };
    let v = if b.group {
        let l: Vec<String> = vals[from..to].iter().map(|v| v.0.to_string()).collect();
        format!("{amp}[{}]", l.join(" "))
    } else {
        format!("{amp}{}", vals[from].0)
    };
    if b.option {
        format!("Some({v})")
    } else {
        v
    }
}

/// The log a session has to leave: `words` are class, entry point, failing callbacks, tokens.
/// None: not judged.
pub fn due(d: &Declared, words: &[&str]) -> Option<Vec<String>> {
    let class = ["slr", "lalr", "clr"].iter().position(|c| *c == words[0])?;
    let auto = d.autos[class].as_ref()?;
    let again = matches!(words[1], "start" | "trace");
    let fails: Vec<u32> = words[2].split(',').filter_map(|w| w.parse().ok()).collect();
    let plan = &words[3..];
    let (mut log, mut next, mut calls, mut at) = (Vec::new(), 0u32, 0u32, 0usize);
    let mut stack = vec![0];
    let mut vals: Vec<(u32, usize, usize)> = Vec::new();
    loop {
        // the next token
        let mut tok = None;
        while let Some(t) = plan.get(at) {
            at += 1;
            if *t != "!" {
                tok = Some(*t);
                break;
            }
            log.push("p".to_string());
            if !again {
                return Some(log);
            }
        }
        let label = match tok {
            None => {
                log.push("e".into());
                EOF
            }
            Some(t) => {
                log.push(format!("d {t}"));
                sym(t)?
            }
        };
        if tok.is_some() {
            next += 1;
        }
        let own = (next, at * 3, at * 3 + 2);
        let tno = if label == EOF { Some(d.g.nt) } else { d.g.index.get(&label).filter(|i| **i >= d.g.nn).map(|i| i - d.g.nn) };
        let (reduced, answer) = auto.see(&d.g, &mut stack, tno);
        for p in reduced {
            let args = vals.split_off(vals.len() - d.g.prods[p].rhs.len());
            let (b, binds) = &d.what[p];
            let toks: Vec<String> = args.iter().map(|(v, s, e)| format!("{v}@{s}-{e}")).collect();
            let bound: Vec<String> = b.names.iter().map(|n| format!("{n}={}", shown(&binds[n], &args))).collect();
            let line = format!("r {} {} {} | {}", b.rule, b.alt, toks.join(" "), bound.join(" "));
            loop {
                log.push(line.clone());
                calls += 1;
                if !fails.contains(&(calls - 1)) {
                    break;
                }
                log.push("p".into());
                if !again {
                    return Some(log);
                }
            }
            next += 1;
            vals.push((next, args[0].1, args[args.len() - 1].2));
        }
        match answer {
            Answer::Shifted => vals.push(own),
            Answer::Accepted if tok.is_some() => {
                log.push("o IncompleteExec".into());
                return Some(log);
            }
            Answer::Accepted => {
                // parse gives the last value on the stack
                let v = if again { vals.first() } else { vals.last() }?;
                log.push(format!("o ok {}@{}-{}", v.0, v.1, v.2));
                return Some(log);
            }
            Answer::Unexpected(e) => {
                let e: Vec<&str> = e.iter().map(|l| SYMS[*l as usize]).collect();
                log.push(format!("o unexpected {} [{}]", SYMS[label as usize], e.join(", ")));
                return Some(log);
            }
            Answer::Conflict(_) => {
                log.push("o conflict".into());
                return Some(log);
            }
        }
    }
}

// ------------------------------------------------------------------ sources

enum Part {
    Sym(u16),
    Group(Vec<Vec<It>>),
}
struct It {
    part: Part,
    optional: bool,
    alias: Option<(String, bool)>,
}
fn plain(s: &[u16]) -> Vec<It> {
    s.iter().map(|s| It { part: Part::Sym(*s), optional: false, alias: None }).collect()
}

/// Items that stand for exactly these sequences (which differ, and of which none is empty).
fn factor(rng: &mut Rng, seqs: &[Vec<u16>], depth: usize) -> Vec<It> {
    let first = &seqs[0];
    if seqs.len() == 1 {
        let mut v = plain(first);
        // some of it as a group of its own
        if depth < 2 && rng.chance(20) {
            let a = rng.below(v.len());
            let b = a + 1 + rng.below(v.len() - a);
            let inner: Vec<It> = v.splice(a..b, std::iter::empty()).collect();
            v.insert(a, It { part: Part::Group(vec![inner]), optional: false, alias: None });
        }
        return v;
    }
    let shortest = seqs.iter().map(Vec::len).min().unwrap();
    let mut pre = 0;
    while pre < shortest && seqs.iter().all(|s| s[pre] == first[pre]) {
        pre += 1;
    }
    if rng.chance(15) {
        pre = rng.below(pre + 1);
    }
    let mut suf = 0;
    while pre + suf < shortest && seqs.iter().all(|s| s[s.len() - 1 - suf] == first[first.len() - 1 - suf]) {
        suf += 1;
    }
    if pre > 0 && rng.chance(15) {
        suf = rng.below(suf + 1);
    }
    let mids: Vec<Vec<u16>> = seqs.iter().map(|s| s[pre..s.len() - suf].to_vec()).collect();
    let full: Vec<Vec<u16>> = mids.iter().filter(|m| !m.is_empty()).cloned().collect();
    let optional = full.len() < mids.len();
    let mid = if full.len() == 1 && full[0].len() == 1 && rng.chance(70) {
        It { part: Part::Sym(full[0][0]), optional, alias: None }
    } else {
        // alternatives, some of them factored in their turn
        let mut alts = Vec::new();
        let mut rest = &full[..];
        while !rest.is_empty() {
            let n = 1 + if depth < 2 && rest.len() < seqs.len() { rng.below(rest.len()) } else { 0 };
            alts.push(factor(rng, &rest[..n], depth + 1));
            rest = &rest[n..];
        }
        It { part: Part::Group(alts), optional, alias: None }
    };
    let mut v = plain(&first[..pre]);
    v.push(mid);
    v.extend(plain(&first[first.len() - suf..]));
    v
}

struct W<'a> {
    rng: &'a mut Rng,
    s: String,
    /// strings and words that stand for a symbol
    alias: BTreeMap<u16, Vec<String>>,
    rules: Vec<u16>,
    tok: bool,
    n: usize,
    names: Vec<String>,
}
impl W<'_> {
    fn ws(&mut self) {
        wopref::ws(self.rng, &mut self.s);
    }
    fn name(&mut self) -> String {
        self.n += 1;
        match self.rng.below(4) {
            0 => format!("a{}", self.n),
            1 => format!("_{}_", self.n),
            2 => format!("a{}a{}", self.n, self.n),
            _ => format!("v{}_", self.n),
        }
    }
    fn tag(&mut self, it: &mut It, shared: Option<&(String, bool)>) {
        it.alias = match shared {
            Some(s) => Some(s.clone()),
            None if self.rng.chance(45) => Some((self.name(), self.rng.chance(40))),
            None => None,
        };
        if let Some((n, _)) = &it.alias {
            if !self.names.contains(n) {
                self.names.push(n.clone());
            }
        }
    }
    fn symbol(&mut self, s: u16) {
        if let Some(v) = self.alias.get(&s).filter(|v| !v.is_empty()) {
            if self.rng.chance(60) {
                let t = self.rng.pick(v).clone();
                self.s.push_str(&t);
                return;
            }
        }
        let n = SYMS[s as usize];
        match self.rng.below(14) {
            0 => self.s.push_str(&format!("crate::Sym::{n}")),
            1 if self.tok => self.s.push_str(&format!("Tok::{n}")),
            2 if self.tok => self.s.push_str(&format!("Tok :: {n}")),
            3 => self.s.push_str(&format!("Sym::\n{n}")),
            _ => self.s.push_str(n),
        }
    }
    fn items(&mut self, mut its: Vec<It>, shared: Option<&(String, bool)>) {
        let syms: Vec<usize> = (0..its.len()).filter(|i| matches!(its[*i].part, Part::Sym(_))).collect();
        let which = if syms.is_empty() { usize::MAX } else { *self.rng.pick(&syms) };
        for (i, it) in its.iter_mut().enumerate() {
            self.ws();
            match std::mem::replace(&mut it.part, Part::Sym(0)) {
                Part::Sym(s) => self.symbol(s),
                Part::Group(alts) => {
                    // one name for a symbol in several alternatives, of one kind
                    let one = self.rng.chance(40).then(|| (self.name(), self.rng.chance(40)));
                    self.s.push('(');
                    for (k, a) in alts.into_iter().enumerate() {
                        if k > 0 {
                            self.ws();
                            self.s.push('|');
                        }
                        let here = self.rng.chance(75);
                        self.items(a, one.as_ref().filter(|_| here));
                    }
                    self.ws();
                    self.s.push(')');
                }
            }
            if it.optional {
                self.s.push('?');
            }
            self.tag(it, shared.filter(|_| i == which));
            if let Some((n, copy)) = &it.alias {
                self.s.push_str(if *copy { ":&" } else { ":" });
                self.s.push_str(n);
            }
        }
    }
}

/// A list of what a rule of many productions, some of them long, says.
fn broad(rng: &mut Rng) -> GSpec {
    let (start, eof, list, item, other) = (100, 101, 102, 103, 104);
    let mut pairs: Vec<Vec<u16>> = (1..=6).flat_map(|a| (1..=6).map(move |b| vec![a, b])).collect();
    rng.shuffle(&mut pairs);
    pairs.truncate(rng.range(11, 18));
    for p in &mut pairs {
        if rng.chance(30) {
            for _ in 0..rng.range(1, 14) {
                p.push(if rng.chance(30) { other } else { 1 + rng.below(8) as u16 });
            }
        }
    }
    let others = if rng.chance(50) { vec![vec![7], vec![8, 7]] } else { vec![vec![8, other, 7], vec![7]] };
    let mut rules = vec![(start, vec![vec![list]]), (list, vec![vec![list, item], vec![item]]), (item, pairs), (other, others)];
    rng.shuffle(&mut rules);
    GSpec { start, eof, rules }
}

fn attempt(rng: &mut Rng) -> Option<String> {
    let want = if rng.chance(20) { Want::Any } else { Want::Free(rng.below(3)) };
    let (spec, g) = if rng.chance(8) {
        let spec = broad(rng);
        let g = spec.compile().ok()?;
        (spec, g)
    } else {
        let (spec, g, _) = generate(rng, want);
        (spec, g)
    };
    if g.label.len() + 1 > SYMS.len() || g.prods.len() > MOST {
        return None;
    }
    // names
    let mut free: Vec<u16> = (0..SYMS.len() as u16).filter(|s| *s != EOF && *s != ENTRY).collect();
    rng.shuffle(&mut free);
    let mut to: BTreeMap<u16, u16> = BTreeMap::from([(spec.eof, EOF), (spec.start, ENTRY)]);
    for l in &g.label {
        if !to.contains_key(l) {
            to.insert(*l, free.pop()?);
        }
    }
    let rules: Vec<(u16, Vec<Vec<u16>>)> = spec.rules.iter().map(|(l, ps)| (to[l], ps.iter().map(|p| p.iter().map(|s| to[s]).collect()).collect())).collect();
    let names: Vec<u16> = rules.iter().map(|r| r.0).collect();
    let tok = rng.chance(50);
    let mut w = W { rng, s: String::new(), alias: BTreeMap::new(), rules: names, tok, n: 0, names: Vec::new() };
    let mut head = vec!["use crate::Sym::*;\n".to_string()];
    if tok {
        head.push("use crate :: Tok ;".into());
    }
    if w.rng.chance(20) {
        head.push("use crate::Ast;\n".into());
    }
    let mut strs = vec!["\"+\"", "\",\"", "\"\\\"\"", "\"=>\"", "\"];\"", "\"é\"", "\"}%\"", "\"or\"", "\"OR\"", "\"\"", "\"->{\"", "word", "\"Word\"", "plus", "_", "x1"];
    w.rng.shuffle(&mut strs);
    let mut labels: Vec<u16> = to.values().copied().filter(|l| *l != EOF && *l != ENTRY).collect();
    w.rng.shuffle(&mut labels);
    let some = w.rng.below(7);
    for s in strs.iter().take(some) {
        let l = *w.rng.pick(&labels);
        w.s.clear();
        // the aliases so far do not stand in an alias
        let kept = std::mem::take(&mut w.alias);
        w.symbol(l);
        w.alias = kept;
        head.push(format!("alias {s} {};\n", w.s));
        w.alias.entry(l).or_default().push((*s).to_string());
    }
    // imports first, `use` and `alias` in any order otherwise
    if w.rng.chance(50) {
        w.rng.shuffle(&mut head);
    }
    w.s = head.concat();
    let rough = w.rng.chance(20);
    for (l, prods) in &rules {
        let n = SYMS[*l as usize];
        match w.rng.below(25) {
            0 if w.tok => w.s.push_str(&format!("Tok::{n}")),
            1 => w.s.push_str(&format!("crate::Sym :: {n}")),
            _ => w.s.push_str(n),
        }
        w.s.push(':');
        w.s.push_str(*w.rng.pick(&[" Ast", "Ast", " crate::Ast"]));
        w.s.push_str(" =");
        let mut ps = prods.clone();
        w.rng.shuffle(&mut ps);
        // the same production by more than one way
        if rough && w.rng.chance(15) && *l != ENTRY {
            let p = w.rng.pick(&ps).clone();
            let at = w.rng.below(ps.len() + 1);
            ps.insert(at, p);
        }
        let mut rest = &ps[..];
        let mut alt = 0;
        while !rest.is_empty() {
            let k = 1 + w.rng.below(rest.len().min(4));
            let mut its = factor(w.rng, &rest[..k], 0);
            rest = &rest[k..];
            if rough && its.len() > 1 && w.rng.chance(25) {
                let i = w.rng.below(its.len());
                its[i].optional = true;
            }
            w.names.clear();
            if alt > 0 {
                w.s.push_str("\n\t|");
            }
            w.items(its, None);
            w.s.push_str(" ->");
            let mut names = w.names.clone();
            w.rng.shuffle(&mut names);
            let refs: Vec<&str> = names.iter().map(String::as_str).collect();
            let style = w.rng.below(PRELUDES.len());
            w.s.push_str(&code(n, alt, &refs, style));
            w.s.push('%');
            alt += 1;
        }
        w.s.push_str(";\n");
    }
    let _ = w.rules;
    Some(w.s)
}

/// A source whose parser C22 judges.
pub fn source(rng: &mut Rng) -> (String, Declared) {
    loop {
        let Some(s) = attempt(rng) else { continue };
        if let Some(d) = declared(s.as_bytes()) {
            return (s, d);
        }
    }
}

/// Sessions over a source, as lines for e2e/rt.rs.
pub fn sessions(rng: &mut Rng, module: usize, d: &Declared, out: &mut Vec<String>) {
    for _ in 0..1 + rng.below(2) {
        let c = rng.below(3);
        if d.autos[c].is_none() {
            continue;
        }
        for _ in 0..2 + rng.below(5) {
            let len = if rng.chance(5) { 200 } else { 25 };
            let target = 1 + rng.below(len);
            let mut toks: Vec<&str> = d.g.sentence(rng, target, false).into_iter().take(4 * len).map(|t| SYMS[t as usize]).collect();
            if rng.chance(40) {
                let any: Vec<&str> = if rng.chance(70) { d.g.label[d.g.nn..].iter().map(|l| SYMS[*l as usize]).collect() } else { SYMS.to_vec() };
                for _ in 0..1 + rng.below(2) {
                    if toks.is_empty() {
                        break;
                    }
                    let k = rng.below(toks.len());
                    match rng.below(7) {
                        0 => {
                            toks.remove(k);
                        }
                        1 => toks.insert(k, toks[k]),
                        2 => {
                            let m = rng.below(toks.len());
                            toks.swap(k, m);
                        }
                        3 => toks[k] = rng.pick(&any),
                        4 => toks.insert(k, rng.pick(&any)),
                        5 => toks.insert(k, "Eof"),
                        _ => toks.truncate(k),
                    }
                }
            }
            if rng.chance(15) {
                let k = rng.below(toks.len() + 1);
                toks.insert(k, "!");
            }
            let mut fails = "-".to_string();
            if rng.chance(20) {
                for _ in 0..1 + rng.below(3) {
                    fails.push_str(&format!(",{}", rng.below(2 * toks.len() + 2)));
                }
            }
            let api = rng.pick(&["start", "trace", "parse", "reuse", "reuse"]);
            out.push(format!("{module} {} {api} {fails} {}", ["slr", "lalr", "clr"][c], toks.join(" ")));
        }
    }
}
