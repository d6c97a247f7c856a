//! A reference reading of wop sources, written from the language and not from wop's code: lexer,
//! parser, expansion into productions, and what the generated file must then say. And a generator
//! of sources.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum T {
    Alias,
    Use,
    Assign,
    Pipe,
    Open,
    Close,
    Sc,
    PathAccess,
    TwoDots,
    Glob,
    Optional,
    Clone,
    Ident,
    Str,
    Code,
}

/// Why a source is refused, or that the reference cannot say.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    Refused(String),
    Unsure,
}
fn no<X>(s: &str, at: usize) -> Result<X, Bad> {
    Err(Bad::Refused(format!("{s} at byte {at}")))
}

type Tok = (T, usize, usize);

/// The tokens of a text up to where no token starts, and that place if there is one.
fn scan(s: &str) -> (Vec<Tok>, Option<(usize, Bad)>) {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let bad = |what: &str, from: usize, at: usize| Some((from, Bad::Refused(format!("{what} at byte {at}"))));
    // comments, strings and code blocks end where their automaton accepts; None: they do not
    let delimited = |from: usize, close: u8, end: u8| -> Option<usize> {
        let mut k = from;
        while k < b.len() {
            if b[k] == close {
                if *b.get(k + 1)? == end {
                    return Some(k + 2);
                }
                // the character after belongs to the block whatever it is
                k += 1;
                k += s[k..].chars().next()?.len_utf8();
            } else {
                k += 1;
            }
        }
        None
    };
    while i < b.len() {
        let c = b[i];
        let next = b.get(i + 1).copied();
        let one = |t: T| (t, i, i + 1);
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'=' | b'|' | b'(' | b')' | b';' | b'*' | b'?' | b'&' => {
                out.push(one(match c {
                    b'=' => T::Assign,
                    b'|' => T::Pipe,
                    b'(' => T::Open,
                    b')' => T::Close,
                    b';' => T::Sc,
                    b'*' => T::Glob,
                    b'?' => T::Optional,
                    _ => T::Clone,
                }));
                i += 1;
            }
            b':' => {
                let n = if next == Some(b':') { 2 } else { 1 };
                out.push((if n == 2 { T::PathAccess } else { T::TwoDots }, i, i + n));
                i += n;
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let mut k = i;
                while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'_') {
                    k += 1;
                }
                if k < b.len() && b[k] >= 0x80 {
                    // a letter of another script? what counts as one is not for us to say
                    return (out, Some((i, Bad::Unsure)));
                }
                out.push((
                    match &s[i..k] {
                        "alias" => T::Alias,
                        "use" => T::Use,
                        _ => T::Ident,
                    },
                    i,
                    k,
                ));
                i = k;
            }
            b'"' => {
                let mut k = i + 1;
                loop {
                    match b.get(k) {
                        None => return (out, bad("unclosed string", i, i)),
                        Some(b'"') => break,
                        Some(b'\\') => match s[k + 1..].chars().next() {
                            None | Some('\n') => return (out, bad("bad escape", i, k)),
                            Some(c) => k += 1 + c.len_utf8(),
                        },
                        _ => k += 1,
                    }
                }
                out.push((T::Str, i, k + 1));
                i = k + 1;
            }
            b'/' if next == Some(b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if next == Some(b'*') => match delimited(i + 2, b'*', b'/') {
                Some(e) => i = e,
                None => return (out, bad("unclosed comment", i, i)),
            },
            b'-' if next == Some(b'>') => match delimited(i + 2, b'}', b'%') {
                Some(e) => {
                    out.push((T::Code, i, e));
                    i = e;
                }
                None => return (out, bad("unclosed code block", i, i)),
            },
            _ => return (out, bad("no token starts here", i, i)),
        }
    }
    (out, None)
}

fn lex(s: &str) -> Result<Vec<Tok>, Bad> {
    match scan(s) {
        (t, None) => Ok(t),
        (_, Some((_, e))) => Err(e),
    }
}

/// Token names and places, and where they end for want of one (None: unsure).
pub type Tokens = (Vec<(&'static str, usize, usize)>, Option<Option<usize>>);
pub fn tokens(s: &str) -> Tokens {
    let (t, e) = scan(s);
    let name = |t| match t {
        T::Alias => "AliasWord",
        T::Use => "UseWord",
        T::Assign => "Assign",
        T::Pipe => "Pipe",
        T::Open => "OpenParen",
        T::Close => "CloseParen",
        T::Sc => "Sc",
        T::PathAccess => "PathAccess",
        T::TwoDots => "TwoDots",
        T::Glob => "Glob",
        T::Optional => "Optional",
        T::Clone => "Clone",
        T::Ident => "Ident",
        T::Str => "StrLit",
        T::Code => "CodeBlock",
    };
    (t.into_iter().map(|(t, a, b)| (name(t), a, b)).collect(), e.map(|(at, e)| (e != Bad::Unsure).then_some(at)))
}

struct Item<'a> {
    base: Base<'a>,
    optional: bool,
    /// name, and whether it is a copy
    alias: Option<(&'a str, bool)>,
}
enum Base<'a> {
    /// text, and whether an alias may replace it (always)
    Sym(&'a str),
    Group(Vec<Alt<'a>>),
}
type Alt<'a> = (Vec<Item<'a>>, Option<&'a str>);

struct P<'a> {
    s: &'a str,
    t: Vec<Tok>,
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<T> {
        self.t.get(self.i).map(|t| t.0)
    }
    fn at(&self) -> usize {
        self.t.get(self.i).map_or(self.s.len(), |t| t.1)
    }
    fn eat(&mut self, t: T) -> bool {
        let ok = self.peek() == Some(t);
        self.i += usize::from(ok);
        ok
    }
    fn need(&mut self, t: T) -> Result<&'a str, Bad> {
        match self.t.get(self.i) {
            Some(&(k, a, b)) if k == t => {
                self.i += 1;
                Ok(&self.s[a..b])
            }
            _ => no(&format!("{t:?} expected"), self.at()),
        }
    }
    /// Returns the text from the first to the last of its tokens.
    fn path(&mut self, glob: bool) -> Result<&'a str, Bad> {
        let from = self.at();
        self.need(T::Ident)?;
        while self.eat(T::PathAccess) {
            if glob && self.eat(T::Glob) {
                break;
            }
            self.need(T::Ident)?;
        }
        Ok(&self.s[from..self.t[self.i - 1].2])
    }
    fn rule(&mut self) -> Result<Vec<Alt<'a>>, Bad> {
        let mut alts = Vec::new();
        loop {
            let mut items = vec![self.item()?];
            while matches!(self.peek(), Some(T::Ident | T::Str | T::Open)) {
                items.push(self.item()?);
            }
            let code = if self.peek() == Some(T::Code) { Some(self.need(T::Code)?) } else { None };
            alts.push((items, code));
            if !self.eat(T::Pipe) {
                return Ok(alts);
            }
        }
    }
    fn item(&mut self) -> Result<Item<'a>, Bad> {
        let base = match self.peek() {
            Some(T::Ident) => Base::Sym(self.path(false)?),
            Some(T::Str) => Base::Sym(self.need(T::Str)?),
            Some(T::Open) => {
                self.i += 1;
                let r = self.rule()?;
                self.need(T::Close)?;
                Base::Group(r)
            }
            _ => return no("item expected", self.at()),
        };
        let optional = self.eat(T::Optional);
        let mut alias = None;
        if self.eat(T::TwoDots) {
            let copy = self.eat(T::Clone);
            alias = Some((self.need(T::Ident)?, copy));
        }
        Ok(Item { base, optional, alias })
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RuleDecl {
    pub ty: String,
    /// symbols as written in the generated code, and the code block without its marks
    pub prods: Vec<(Vec<String>, String)>,
    /// for each production what its aliases are bound to; None: the source names one thing twice
    pub binds: Vec<Option<Binds>>,
}
/// What an alias is bound to.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bound {
    pub copy: bool,
    /// all symbols of a group, not one symbol
    pub group: bool,
    pub option: bool,
    /// from which symbol of the production to which; None: absent
    pub at: Option<(usize, usize)>,
}
pub type Binds = BTreeMap<String, Bound>;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Program {
    pub imports: Vec<String>,
    pub rules: BTreeMap<String, RuleDecl>,
}

const MAX_PRODS: usize = 3000;

struct Expanded {
    syms: Vec<String>,
    binds: Binds,
}
/// The productions a list of items stands for, and whether every name in it is given once.
fn expand(items: &[Item], aliases: &BTreeMap<&str, &str>) -> Result<(Vec<Expanded>, bool), Bad> {
    let mut out = vec![Expanded { syms: Vec::new(), binds: Binds::new() }];
    let mut clear = true;
    for it in items {
        let mut choices: Vec<Expanded> = match &it.base {
            Base::Sym(s) => vec![Expanded { syms: vec![(*aliases.get(s).unwrap_or(s)).to_string()], binds: Binds::new() }],
            Base::Group(alts) => {
                let mut v = Vec::new();
                for (items, code) in alts {
                    if code.is_some() {
                        return Err(Bad::Refused("code block in a group".into()));
                    }
                    let (e, c) = expand(items, aliases)?;
                    clear &= c;
                    v.extend(e);
                }
                // a name of one alternative is absent in the others, and an option in all
                let mut all = Binds::new();
                for (n, b) in v.iter().flat_map(|e| &e.binds) {
                    let o = all.entry(n.clone()).or_insert_with(|| Bound { option: true, at: None, ..b.clone() });
                    clear &= o.copy == b.copy && o.group == b.group;
                }
                for e in &mut v {
                    for b in e.binds.values_mut() {
                        b.option = true;
                    }
                    for (n, b) in &all {
                        e.binds.entry(n.clone()).or_insert_with(|| b.clone());
                    }
                }
                v
            }
        };
        if let Some((n, copy)) = it.alias {
            let group = matches!(it.base, Base::Group(_));
            for c in &mut choices {
                let at = Some((0, c.syms.len()));
                clear &= c.binds.insert(n.to_string(), Bound { copy, group, option: it.optional, at }).is_none();
            }
        }
        if it.optional {
            let binds = choices[0].binds.iter().map(|(n, b)| (n.clone(), Bound { option: true, at: None, ..b.clone() })).collect();
            choices.push(Expanded { syms: Vec::new(), binds });
        }
        if out.len() * choices.len() > MAX_PRODS {
            return Err(Bad::Unsure);
        }
        let mut next = Vec::new();
        for p in &out {
            for c in &choices {
                let mut e = Expanded { syms: p.syms.clone(), binds: p.binds.clone() };
                let k = e.syms.len();
                e.syms.extend(c.syms.iter().cloned());
                for (n, b) in &c.binds {
                    let b = Bound { at: b.at.map(|(x, y)| (x + k, y + k)), ..b.clone() };
                    clear &= e.binds.insert(n.clone(), b).is_none();
                }
                next.push(e);
            }
        }
        out = next;
    }
    Ok((out, clear))
}

/// What the source declares.
pub fn read(src: &[u8]) -> Result<Program, Bad> {
    let Ok(s) = std::str::from_utf8(src) else {
        return Err(Bad::Refused("not text".into()));
    };
    let mut p = P { s, t: lex(s)?, i: 0 };
    let mut out = Program::default();
    let mut aliases: BTreeMap<&str, &str> = BTreeMap::new();
    let mut refused = None;
    loop {
        match p.peek() {
            Some(T::Use) => {
                p.i += 1;
                out.imports.push(p.path(true)?.to_string());
            }
            Some(T::Alias) => {
                p.i += 1;
                let name = if p.peek() == Some(T::Str) { p.need(T::Str)? } else { p.need(T::Ident)? };
                let to = p.path(false)?;
                if aliases.insert(name, to).is_some() {
                    refused = refused.or(Some(Bad::Refused(format!("alias {name} twice"))));
                }
            }
            Some(T::Ident) => {
                let name = p.path(false)?;
                p.need(T::TwoDots)?;
                let ty = p.path(false)?.to_string();
                p.need(T::Assign)?;
                let (mut prods, mut binds) = (Vec::new(), Vec::new());
                for (items, code) in p.rule()? {
                    let Some(code) = code else {
                        refused = refused.or(Some(Bad::Refused(format!("no code block in {name}"))));
                        continue;
                    };
                    let code = code[2..code.len() - 1].to_string();
                    match expand(&items, &aliases) {
                        Ok((v, clear)) => {
                            for e in v {
                                prods.push((e.syms, code.clone()));
                                binds.push(clear.then_some(e.binds));
                            }
                        }
                        Err(Bad::Unsure) => return Err(Bad::Unsure),
                        Err(e) => refused = refused.or(Some(e)),
                    }
                }
                if out.rules.insert(name.to_string(), RuleDecl { ty, prods, binds }).is_some() {
                    refused = refused.or(Some(Bad::Refused(format!("rule {name} twice"))));
                }
            }
            _ => return no("declaration expected", p.at()),
        }
        p.need(T::Sc)?;
        if p.peek().is_none() {
            break;
        }
    }
    match refused {
        Some(e) => Err(e),
        None => Ok(out),
    }
}

/// A text of Rust without what says nothing: blanks, commas before a closing bracket, and where
/// lrp's items are named from.
fn squeeze(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars().filter(|c| !c.is_whitespace()) {
        if matches!(c, ']' | ')' | '}') && out.ends_with(',') {
            out.pop();
        }
        out.push(c);
    }
    out.replace("lrp::", "").replace("grammar::", "")
}

/// Whether a generated file says exactly what the source declares. None: it does.
pub fn compare(out: &[u8], want: &Program) -> Option<String> {
    let Ok(text) = std::str::from_utf8(out) else {
        return Some("not text".into());
    };
    let all = squeeze(text);
    let Some(cut) = all.find("pubfnreduct_map()") else {
        return Some("no reduct_map".into());
    };
    let (head, tail) = all.split_at(cut);
    let Some(g) = head.find("pubfngrammar()->Grammar<Sym>{").map(|i| &head[i..]) else {
        return Some("no grammar".into());
    };
    // balanced braces would be upset by code blocks; what is cut before this brace lacks a rule
    if !tail.ends_with('}') {
        return Some(format!("the file ends with {:?}", &tail[tail.char_indices().rev().nth(20).map_or(0, |x| x.0)..]));
    }
    for (part, name) in [(g, "grammar"), (tail, "reduct_map")] {
        let want: String = want.imports.iter().map(|i| format!("use{};", squeeze(i))).collect();
        if !want.is_empty() && !part.contains(&want) {
            return Some(format!("{name} lacks the imports {want}"));
        }
    }
    let n = g.matches(".insert(").count();
    if n != want.rules.len() {
        return Some(format!("{n} rules in grammar, {} declared", want.rules.len()));
    }
    let n = tail.matches(".insert(").count();
    if n != want.rules.len() {
        return Some(format!("{n} rules in reduct_map, {} declared", want.rules.len()));
    }
    let n = tail.matches("(toks:&[Gramem])->").count();
    let m: usize = want.rules.values().map(|r| r.prods.len()).sum();
    if n != m {
        return Some(format!("{n} callbacks, {m} productions declared"));
    }
    for (name, r) in &want.rules {
        let name = squeeze(name);
        let mut s = format!(".insert({name},Rule::new({name},vec![");
        for (p, _) in &r.prods {
            s.push_str("vec![");
            for x in p {
                s.push_str(&squeeze(x));
                s.push(',');
            }
            s.push_str("],");
        }
        s.push_str("]));");
        let s = squeeze(&s);
        if !g.contains(&s) {
            return Some(format!("rule {name} is not in grammar as declared: {s}"));
        }
        let list = callbacks(tail, &name);
        if list.len() != r.prods.len() {
            return Some(format!("reduct_map lists {list:?} for the {} productions of {name}", r.prods.len()));
        }
        for (i, ((_, code), f)) in r.prods.iter().zip(list).enumerate() {
            if tail.matches(&format!("fn{f}(")).count() != 1 {
                return Some(format!("{f}, listed for {name}, is not one callback"));
            }
            let f = format!("fn{f}(toks:&[Gramem])->Meta<{}>{{", squeeze(&r.ty));
            let Some(at) = tail.find(&f) else {
                return Some(format!("no callback {f}"));
            };
            let body = &tail[at + f.len()..];
            let end = [body.find("(toks:&[Gramem])->"), body.find(".insert(")].into_iter().flatten().min().unwrap_or(body.len());
            if !body[..end].contains(&squeeze(code)) || !text.contains(code.trim()) {
                return Some(format!("callback {i} of {name} lacks its code block {code:?}"));
            }
        }
    }
    None
}

/// The callbacks listed for a rule, in a text without blanks.
fn callbacks<'t>(tail: &'t str, name: &str) -> Vec<&'t str> {
    let list = tail.split_once(&format!(".insert({name},vec![")).and_then(|(_, t)| t.split_once("])"));
    list.map_or(Vec::new(), |(l, _)| l.split(',').filter(|f| !f.is_empty()).collect())
}

/// A value of the generated code: what a name is bound to.
fn value(e: &str) -> Option<Bound> {
    let e = e.trim();
    if let Some(x) = e.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')) {
        let b = value(x)?;
        return (!b.option).then_some(Bound { option: true, ..b });
    }
    let (e, by_ref) = e.strip_prefix('&').map_or((e, false), |x| (x.trim(), true));
    let rest = e.strip_prefix("toks[")?;
    let (index, rest) = rest.split_once(']')?;
    let copy = match rest.trim() {
        "" if by_ref => false,
        ".clone()" | ".to_vec()" | ".to_owned()" if !by_ref => true,
        _ => return None,
    };
    let num = |s: &str| s.trim().parse::<usize>().ok();
    let (group, at) = match index.split_once("..") {
        Some((a, b)) => (true, (num(a)?, num(b)?)),
        None => (false, (num(index)?, num(index)? + 1)),
    };
    if group != (rest.trim() == ".to_vec()") && copy {
        return None;
    }
    Some(Bound { copy, group, option: false, at: Some(at) })
}

/// What the statements before a code block bind. None: they are not of a form known here.
fn bindings(text: &str) -> Option<Binds> {
    let mut env = Binds::new();
    for st in text.split(';').map(str::trim).filter(|s| !s.is_empty()) {
        let (l, r) = st.split_once('=')?;
        let (l, r) = (l.trim(), r.trim());
        let (name, declared) = match l.strip_prefix("let ") {
            Some(n) => (n.trim().strip_prefix("mut ").unwrap_or(n.trim()).trim(), true),
            None => (l, false),
        };
        if declared {
            let v = match env.get(r) {
                Some(v) => v.clone(),
                None => value(r)?,
            };
            env.insert(name.to_string(), v);
        } else {
            let v = env.get_mut(name)?;
            if r != "None" || !v.option {
                return None;
            }
            v.at = None;
        }
    }
    Some(env)
}

/// Whether every callback binds its aliases as declared. Ok: how many were found to, and how many
/// could not be judged.
pub fn compare_binds(out: &[u8], want: &Program) -> Result<(u64, u64), String> {
    let text = String::from_utf8_lossy(out);
    let (mut good, mut unsure) = (0, 0);
    let squeezed = squeeze(&text);
    let tail = squeezed.split_once("pubfnreduct_map()").map_or("", |x| x.1);
    for (name, r) in &want.rules {
        let list = callbacks(tail, &squeeze(name));
        for (i, ((_, code), b)) in r.prods.iter().zip(&r.binds).enumerate() {
            let Some(b) = b else {
                unsure += 1;
                continue;
            };
            let found = list.get(i).and_then(|f| text.split_once(&format!("fn {f}("))).and_then(|(_, t)| t.split_once("Meta::new({")).and_then(|(_, t)| t.split_once(code.as_str()));
            let Some(have) = found.and_then(|(t, _)| bindings(t)) else {
                unsure += 1;
                continue;
            };
            if have != *b {
                let off: Vec<String> = b
                    .iter()
                    .filter(|(n, v)| have.get(*n) != Some(v))
                    .map(|(n, v)| format!("{n} should be {v:?} and is {:?}", have.get(n)))
                    .chain(have.keys().filter(|n| !b.contains_key(*n)).map(|n| format!("{n} is bound and not declared")))
                    .collect();
                return Err(format!("callback {i} of {name} ({:?}): {}", r.prods[i].0, off.join("; ")));
            }
            good += 1;
        }
    }
    Ok((good, unsure))
}

/// The text before the first function and from each function's name on.
fn functions(all: &str) -> Vec<&str> {
    let mut cuts = vec![(0, 0)];
    for (i, _) in all.match_indices("fn") {
        let rest = &all[i + 2..];
        let name = rest.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(0);
        if name > 0 && rest[name..].starts_with("(toks:") && all[..i].ends_with([';', '}', '{']) {
            cuts.push((i, i + 2));
        }
    }
    cuts.push((all.len(), all.len()));
    cuts.windows(2).map(|w| &all[w[0].1..w[1].0]).collect()
}

/// The generated file up to the order of its rules and of the bindings in a callback.
pub fn canonical(out: &[u8]) -> BTreeMap<String, u32> {
    let all = squeeze(&String::from_utf8_lossy(out));
    let mut m = BTreeMap::new();
    for (i, f) in functions(&all).into_iter().enumerate() {
        let name = if i == 0 { "" } else { f.split('(').next().unwrap_or("") };
        // the first piece of a callback starts with its header
        let f = if i == 0 { f.to_string() } else { f.replacen("Meta::new({", "Meta::new({;", 1) };
        // what follows a callback depends on the order of the rules
        for piece in f.split(';') {
            let piece = if piece.contains(".insert(") { piece.trim_start_matches('}') } else { piece };
            let key = if piece.contains(".insert(") { piece.to_string() } else { format!("{name}: {piece}") };
            *m.entry(key).or_insert(0) += 1;
        }
    }
    // the end of the last callback of each rule is followed by that rule's insertion: split() left
    // "}}" with it, trimmed above; imports and the frame are outside any callback
    let last = |k: &str| k.split_once(": ").is_some_and(|(_, p)| p.trim_end_matches('}').chars().all(|c| c.is_alphanumeric() || c == '_'));
    let keys: BTreeSet<String> = m.keys().filter(|k| last(k)).cloned().collect();
    for k in keys {
        m.remove(&k);
    }
    m
}

// ------------------------------------------------------------------ sources

pub fn ws(rng: &mut Rng, out: &mut String) {
    match rng.below(24) {
        0 => out.push_str("\n"),
        1 => out.push_str("\t "),
        2 => out.push_str(" /* a } comment -> */ "),
        3 => out.push_str(" // until; the end | of line\n"),
        4 => out.push_str("\r\n"),
        5 => out.push_str("  "),
        _ => out.push(' '),
    }
}

/// Names that a careless comparison takes for each other are together on purpose.
const TOKENS: &[&str] = &["Num", "Plus", "Word", "word", "WORD", "Words", "_", "LBrace", "Comma", "Tok::Semi", "Tok :: Semi", "Sym::Dot", "Use", "aliases", "user", "x1", "x"];
const STRS: &[&str] = &[
    "\"+\"", "\",\"", "\"\\\"\"", "\"=>\"", "\"];\"", "\"é\"", "\"}%\"", "\"or\"", "\"OR\"", "\"Or\"", "\" or\"", "\"Word\"", "\"\"", "\"\\\\\"", "\"// no comment\"", "\"/*\"", "\"->{\"", "\"use\"",
];
const TARGETS: &[&str] = &["Plus", "plus", "Tok::Comma", "Quote", "Arrow", "Dot", "crate::Sym::Dot", "Word", "_q", "word", "WORD", "Num", "Expr", "_"];
const CODES: &[&str] = &[
    "{ Ast::A }%",
    "{ let x = toks[0].clone(); Ast::B(x) }%",
    "{ if true { Ast::C } else { Ast::D } }%",
    "{\n\t\tmatch 1 {\n\t\t_ => Ast::E(vec![toks.len()]),\n\t}\n}%",
    "{ Ast::F(\"; | -> alias\".len(), 10 % 3) }%",
    "{ /* ü */ Ast::G }%",
    "-> -> Ast::H }%",
    "->{ Ast::I }%",
];

/// How aliases of items are named.
struct Names {
    /// every name once (but for alternatives of a group)
    once: bool,
    n: usize,
    /// at most so many items in a production, and groups in groups
    items: usize,
    depth: usize,
    /// how long some names are
    long: usize,
    /// strings with aliases, beside the usual ones
    more: usize,
}
impl Names {
    fn next(&mut self, rng: &mut Rng) -> String {
        self.n += 1;
        if self.long > 0 && rng.chance(30) {
            return format!("{}{}", "n".repeat(self.long), if self.once { self.n } else { 0 });
        }
        if !self.once {
            return rng.pick(&["x", "y", "lhs", "alias_", "v1"]).to_string();
        }
        match rng.below(3) {
            0 => format!("a{}", self.n),
            1 => "x".repeat(self.n),
            _ => format!("_{}_", self.n),
        }
    }
}

fn items(rng: &mut Rng, out: &mut String, names: &[String], depth: usize, al: &mut Names, shared: Option<&str>) {
    let n = 1 + rng.below(if depth == 0 { al.items } else { 2 });
    // many items or deep groups, but not so many productions
    let (groups, options) = if al.items > 4 && rng.chance(80) { (3, 4) } else { (20, 20) };
    let which = rng.below(n);
    for i in 0..n {
        ws(rng, out);
        let mut group = false;
        let deeper = al.depth > 2 && depth < al.depth && i == which;
        match if deeper || rng.chance(groups) { 10 } else { rng.below(8) } {
            0..=2 => out.push_str(rng.pick(names).as_str()),
            3..=5 => out.push_str(rng.pick(TOKENS)),
            6 | 7 if al.more > 0 => out.push_str(&format!("\"more{}\"", rng.below(al.more))),
            6 | 7 => out.push_str(rng.pick(STRS)),
            _ if deeper || depth < 2 => {
                group = true;
                out.push('(');
                let k = 1 + rng.below(if deeper { 2 } else { 3 });
                let one = (al.once && rng.chance(50)).then(|| format!("{}{}", if rng.chance(50) { ":" } else { ":&" }, al.next(rng)));
                for i in 0..k {
                    if i > 0 {
                        out.push_str(" |");
                    }
                    let here = rng.chance(70);
                    items(rng, out, names, depth + 1, al, one.as_deref().filter(|_| here));
                }
                ws(rng, out);
                out.push(')');
            }
            _ => out.push_str(rng.pick(names).as_str()),
        }
        if rng.chance(options) {
            out.push('?');
        }
        if let Some(a) = shared.filter(|_| i == which && !group) {
            out.push_str(a);
        } else if rng.chance(if al.once { 50 } else { 30 }) {
            out.push(':');
            if rng.chance(40) {
                out.push('&');
            }
            let n = al.next(rng);
            out.push_str(&n);
        }
    }
}

/// A rule of many productions: what it makes of the output is larger than any buffer.
fn crowd(rng: &mut Rng, out: &mut String, al: &mut Names) {
    let n = rng.range(3, 7);
    for i in 0..n {
        ws(rng, out);
        if i % 2 == 0 {
            out.push_str(&format!("TheTokenWithTheLongName{i}"));
        } else {
            out.push_str(&format!("(TheOther{i} | TheThirdOfTheGroup{i}:&{})", al.next(rng)));
        }
        if rng.chance(70) {
            out.push('?');
        }
        if rng.chance(20) {
            out.push_str(&format!(":{}", al.next(rng)));
        }
    }
}

/// A source the reference accepts.
pub fn source(rng: &mut Rng, big: bool, once: bool) -> String {
    loop {
        let mut al_names = Names { once, n: 0, items: 4, depth: 2, long: 0, more: 0 };
        let mut s = String::new();
        let mut nr = 1 + rng.below(if big { 8 } else { 4 });
        let (mut alts, mut uses, mut more) = (3, 4, 0);
        // some sources are outsized, in a way of their own
        if rng.chance(15) {
            match rng.below(7) {
                0 => al_names.items = rng.range(6, 20),
                1 => al_names.depth = rng.range(3, 7),
                2 => al_names.long = rng.range(60, 300),
                3 => nr = rng.range(9, 40),
                4 => alts = rng.range(8, 40),
                5 => uses = rng.range(8, 30),
                _ => more = rng.range(10, 60),
            }
            al_names.more = more;
        }
        let crowded = big && rng.chance(25);
        let mut names: Vec<String> = ["Entry", "Expr", "Term", "List", "Stmt", "Use", "Alias", "Block", "expr", "EXPR", "Expr2", "Expr_", "E", "a::B"].iter().map(ToString::to_string).collect();
        names.extend((names.len()..nr).map(|i| format!("Rule{i}")));
        rng.shuffle(&mut names);
        names.truncate(nr);
        if al_names.long > 0 {
            names[0] = format!("L{}", "o".repeat(al_names.long));
        }
        if rng.chance(15) {
            s.push_str(*rng.pick(&["/* head */\n", "/***/", "/* * / } */\n", "// a line\n//\n", "\r\n\r\n", "/* é */ "]));
        }
        for _ in 0..rng.below(uses) {
            s.push_str(*rng.pick(&["use crate::Sym::*;\n", "use crate::Ast ;\n", "use std::collections;", "use  crate /* in */ ::Tok;\n", "use Ast;\n", "use a::b::c::d::*;", "use a::b::c::d::e::f::g::h::i::j::k::l::m::n::o::p;\n"]));
        }
        let mut al: Vec<String> = Vec::new();
        let mut strs: Vec<&str> = STRS.to_vec();
        rng.shuffle(&mut strs);
        let some = rng.below(7);
        al.extend(strs.iter().take(some).map(|a| format!("alias {a} {};\n", rng.pick(TARGETS))));
        for w in ["Word", "word", "WORD", "Num", "Expr", "_", "Plus", "plus", "Dot"] {
            if rng.chance(15) {
                al.push(format!("alias {w} {};\n", rng.pick(TARGETS)));
            }
        }
        al.extend((0..more).map(|i| format!("alias \"more{i}\" {};\n", rng.pick(TARGETS))));
        rng.shuffle(&mut al);
        for n in &names {
            // an alias holds for what comes after it
            for _ in 0..rng.below(5 + more) {
                if let Some(a) = al.pop() {
                    s.push_str(&a);
                }
            }
            s.push_str(n);
            ws(rng, &mut s);
            s.push(':');
            ws(rng, &mut s);
            s.push_str(*rng.pick(&["Ast", "Ast", "crate::Ast", "ast"]));
            s.push_str(" =");
            for i in 0..=rng.below(alts) {
                if i > 0 {
                    s.push_str("\n\t|");
                }
                if crowded && rng.chance(30) {
                    crowd(rng, &mut s, &mut al_names);
                } else {
                    items(rng, &mut s, &names, 0, &mut al_names, None);
                }
                s.push_str(" ->");
                ws(rng, &mut s);
                if rng.chance(if big { 30 } else { 3 }) {
                    let k = 200 + rng.below(6000);
                    s.push_str("{ /*");
                    for i in 0..k / 8 {
                        s.push_str(if i % 9 == 0 { " padding\n" } else { " padding" });
                    }
                    s.push_str(" */ Ast::H }%");
                } else {
                    s.push_str(rng.pick(CODES));
                }
            }
            ws(rng, &mut s);
            s.push(';');
            if rng.chance(80) {
                s.push('\n');
            }
        }
        if rng.chance(10) {
            s.push_str(*rng.pick(&["// the end", "\n\n", "/* the end */", " \t"]));
        }
        if let Ok(p) = read(s.as_bytes()) {
            if p.rules.values().map(|r| r.prods.len()).sum::<usize>() <= if crowded { 400 } else { 120 } {
                return s;
            }
        }
    }
}
