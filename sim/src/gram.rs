//! Grammars: the generator, and the reference models that the oracles use. Nothing here calls
//! lrp: recognition is Earley's algorithm, and the class of a grammar (SLR(1), LALR(1), LR(1))
//! comes from textbook item-set constructions over small integers.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct GSpec {
    pub start: u16,
    pub eof: u16,
    /// (rule, productions), in any order; symbols without a rule are terminals
    pub rules: Vec<(u16, Vec<Vec<u16>>)>,
}

#[derive(Clone, Debug)]
pub struct Prod {
    pub lhs: usize,
    pub rhs: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct G {
    pub nn: usize,
    pub nt: usize,
    pub prods: Vec<Prod>,
    pub of: Vec<Vec<usize>>,
    /// label of each symbol (nonterminals first, then terminals)
    pub label: Vec<u16>,
    pub index: BTreeMap<u16, usize>,
    pub eof: u16,
    pub start: usize,
}

impl GSpec {
    /// The grammar in reference form, or why it is outside the domain of the properties.
    pub fn compile(&self) -> Result<G, String> {
        let mut names: Vec<u16> = self.rules.iter().map(|r| r.0).collect();
        names.sort_unstable();
        let before = names.len();
        names.dedup();
        if names.len() != before {
            return Err("rule defined twice".into());
        }
        let mut terms = BTreeSet::new();
        for (_, ps) in &self.rules {
            if ps.is_empty() {
                return Err("rule without production".into());
            }
            for p in ps {
                if p.is_empty() {
                    return Err("empty production".into());
                }
                for s in p {
                    if !names.contains(s) {
                        terms.insert(*s);
                    }
                }
            }
        }
        if names.contains(&self.eof) || terms.contains(&self.eof) {
            return Err("eof used as a grammar symbol".into());
        }
        let mut label = names.clone();
        label.extend(terms.iter().copied());
        let index: BTreeMap<u16, usize> = label.iter().enumerate().map(|(i, l)| (*l, i)).collect();
        let nn = names.len();
        let mut prods = Vec::new();
        let mut of = vec![Vec::new(); nn];
        for (n, ps) in &self.rules {
            let lhs = index[n];
            for p in ps {
                of[lhs].push(prods.len());
                prods.push(Prod {
                    lhs,
                    rhs: p.iter().map(|s| index[s]).collect(),
                });
            }
        }
        let Some(&start) = index.get(&self.start) else {
            return Err("no start".into());
        };
        if start >= nn {
            return Err("start has no rule".into());
        }
        let g = G {
            nn,
            nt: terms.len(),
            prods,
            of,
            label,
            index,
            eof: self.eof,
            start,
        };
        g.domain()?;
        Ok(g)
    }
}

impl G {
    fn domain(&self) -> Result<(), String> {
        if self.of[self.start].len() != 1 {
            return Err("start has more than one production".into());
        }
        if self.nt > 60 || self.prods.len() > crate::val::MAX_PRODS {
            return Err("too large".into());
        }
        for p in &self.prods {
            if p.rhs.contains(&self.start) {
                return Err("recursive start".into());
            }
        }
        // productive
        if self.min_size().iter().any(|s| *s == usize::MAX) {
            return Err("unproductive rule".into());
        }
        Ok(())
    }

    /// A rule derives itself alone.
    pub fn cyclic(&self) -> bool {
        // A =>+ A (no production is empty, so only unit productions count)
        let mut reach = vec![vec![false; self.nn]; self.nn];
        for p in &self.prods {
            if p.rhs.len() == 1 && p.rhs[0] < self.nn {
                reach[p.lhs][p.rhs[0]] = true;
            }
        }
        for k in 0..self.nn {
            for i in 0..self.nn {
                if reach[i][k] {
                    for j in 0..self.nn {
                        if reach[k][j] {
                            reach[i][j] = true;
                        }
                    }
                }
            }
        }
        (0..self.nn).any(|i| reach[i][i])
    }

    /// What grammars seldom have: productions given twice, rules nothing reaches.
    pub fn oddities(&self) -> (bool, bool) {
        let twice = self.of.iter().any(|ps| ps.iter().enumerate().any(|(i, a)| ps[i + 1..].iter().any(|b| self.prods[*a].rhs == self.prods[*b].rhs)));
        let mut seen = vec![false; self.nn];
        let mut todo = vec![self.start];
        seen[self.start] = true;
        while let Some(n) = todo.pop() {
            for p in &self.of[n] {
                for s in &self.prods[*p].rhs {
                    if *s < self.nn && !seen[*s] {
                        seen[*s] = true;
                        todo.push(*s);
                    }
                }
            }
        }
        (twice, seen.iter().any(|s| !s))
    }

    pub fn is_nt(&self, s: usize) -> bool {
        s < self.nn
    }
    /// Terminal number of a symbol; `nt` stands for end of input.
    pub fn tno(&self, s: usize) -> usize {
        s - self.nn
    }
    /// The number of the terminal with this label, if it is one.
    pub fn term_of_label(&self, l: u16) -> Option<usize> {
        self.index.get(&l).copied().filter(|s| *s >= self.nn)
    }
    pub fn terminals(&self) -> Vec<u16> {
        self.label[self.nn..].to_vec()
    }

    /// Least number of terminals a nonterminal derives.
    pub fn min_size(&self) -> Vec<usize> {
        self.shortest().0
    }
    /// And by which production.
    fn shortest(&self) -> (Vec<usize>, Vec<usize>) {
        let mut by = vec![0; self.nn];
        let mut m = vec![usize::MAX; self.nn];
        loop {
            let mut change = false;
            for (k, p) in self.prods.iter().enumerate() {
                let mut t = 0usize;
                for s in &p.rhs {
                    let x = if self.is_nt(*s) { m[*s] } else { 1 };
                    t = t.saturating_add(x);
                }
                if t < m[p.lhs] {
                    m[p.lhs] = t;
                    by[p.lhs] = k;
                    change = true;
                }
            }
            if !change {
                return (m, by);
            }
        }
    }

    /// Rules whose derivations can be as long as one likes.
    fn endless(&self) -> Vec<bool> {
        let mut reach = vec![vec![false; self.nn]; self.nn];
        for p in &self.prods {
            for s in p.rhs.iter().filter(|s| self.is_nt(**s)) {
                reach[p.lhs][*s] = true;
            }
        }
        for k in 0..self.nn {
            for i in 0..self.nn {
                if reach[i][k] {
                    for j in 0..self.nn {
                        reach[i][j] = reach[i][j] || reach[k][j];
                    }
                }
            }
        }
        (0..self.nn).map(|i| reach[i][i] || (0..self.nn).any(|j| reach[i][j] && reach[j][j])).collect()
    }

    /// A random sentence of about `target` tokens (labels); a persistent one doesn't end before
    /// where it can be made longer.
    pub fn sentence(&self, rng: &mut Rng, target: usize, persistent: bool) -> Vec<u16> {
        let (m, by) = self.shortest();
        let more = if persistent { self.endless() } else { Vec::new() };
        let size = |p: &Prod| -> usize {
            p.rhs
                .iter()
                .map(|s| if self.is_nt(*s) { m[*s] } else { 1 })
                .sum()
        };
        let mut out = Vec::new();
        let mut stack = vec![self.start];
        let mut pending = m[self.start];
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            if !self.is_nt(s) {
                out.push(self.label[s]);
                pending -= 1;
                continue;
            }
            steps += 1;
            let fits: Vec<usize> = self.of[s]
                .iter()
                .copied()
                .filter(|p| out.len() + pending - m[s] + size(&self.prods[*p]) <= target)
                .collect();
            let on: Vec<usize> = if persistent {
                fits.iter().copied().filter(|p| self.prods[*p].rhs.iter().any(|x| self.is_nt(*x) && more[*x])).collect()
            } else {
                Vec::new()
            };
            let p = if fits.is_empty() || steps > 400 && !persistent || steps > 400 + 8 * target {
                by[s]
            } else if !on.is_empty() && rng.chance(97) {
                *rng.pick(&on)
            } else if out.len() + pending < target / 2 && rng.chance(60) {
                *fits.iter().max_by_key(|p| size(&self.prods[**p])).unwrap()
            } else {
                *rng.pick(&fits)
            };
            // choices of the shortest end, also where rules derive themselves
            pending = pending - m[s] + size(&self.prods[p]);
            for x in self.prods[p].rhs.iter().rev() {
                stack.push(*x);
            }
        }
        out
    }

    /// FIRST of each nonterminal as a set of terminal numbers.
    pub fn first(&self) -> Vec<u64> {
        let mut f = vec![0u64; self.nn];
        loop {
            let mut change = false;
            for p in &self.prods {
                let s = p.rhs[0];
                let add = if self.is_nt(s) { f[s] } else { 1 << self.tno(s) };
                if f[p.lhs] | add != f[p.lhs] {
                    f[p.lhs] |= add;
                    change = true;
                }
            }
            if !change {
                return f;
            }
        }
    }

    pub fn follow(&self) -> Vec<u64> {
        let f = self.first();
        let mut w = vec![0u64; self.nn];
        w[self.start] = 1 << self.nt;
        loop {
            let mut change = false;
            for p in &self.prods {
                for (i, s) in p.rhs.iter().enumerate() {
                    if !self.is_nt(*s) {
                        continue;
                    }
                    let add = match p.rhs.get(i + 1) {
                        Some(n) if self.is_nt(*n) => f[*n],
                        Some(n) => 1 << self.tno(*n),
                        None => w[p.lhs],
                    };
                    if w[*s] | add != w[*s] {
                        w[*s] |= add;
                        change = true;
                    }
                }
            }
            if !change {
                return w;
            }
        }
    }

    /// The LR(1) item sets, and where each symbol leads from them. None when there are more than
    /// `max`.
    fn lr1(&self, max: usize) -> Option<(Vec<Items>, Vec<BTreeMap<usize, usize>>)> {
        let first = self.first();
        let closure = |kernel: BTreeMap<(usize, usize), u64>| {
            let mut set = kernel;
            let mut todo: Vec<(usize, usize)> = set.keys().copied().collect();
            while let Some(k) = todo.pop() {
                let look = set[&k];
                let p = &self.prods[k.0];
                let Some(&s) = p.rhs.get(k.1) else { continue };
                if !self.is_nt(s) {
                    continue;
                }
                let la = match p.rhs.get(k.1 + 1) {
                    Some(n) if self.is_nt(*n) => first[*n],
                    Some(n) => 1 << self.tno(*n),
                    None => look,
                };
                for q in &self.of[s] {
                    let e = set.entry((*q, 0)).or_insert(0);
                    if *e | la != *e {
                        *e |= la;
                        todo.push((*q, 0));
                    }
                }
            }
            set
        };
        let start = closure(BTreeMap::from([((self.of[self.start][0], 0), 1u64 << self.nt)]));
        let mut ids: BTreeMap<BTreeMap<(usize, usize), u64>, usize> = BTreeMap::new();
        ids.insert(start.clone(), 0);
        let mut sets = vec![start];
        let mut to = Vec::new();
        let mut i = 0;
        while i < sets.len() {
            let mut from = BTreeMap::new();
            for s in 0..self.nn + self.nt {
                let kernel: BTreeMap<(usize, usize), u64> = sets[i]
                    .iter()
                    .filter(|(k, _)| self.prods[k.0].rhs.get(k.1) == Some(&s))
                    .map(|(k, l)| ((k.0, k.1 + 1), *l))
                    .collect();
                if kernel.is_empty() {
                    continue;
                }
                let c = closure(kernel);
                let k = if let Some(k) = ids.get(&c) {
                    *k
                } else {
                    ids.insert(c.clone(), sets.len());
                    sets.push(c);
                    if sets.len() > max {
                        return None;
                    }
                    sets.len() - 1
                };
                from.insert(s, k);
            }
            to.push(from);
            i += 1;
        }
        Some((sets, to))
    }

    /// The automaton of a class (0 = SLR(1), 1 = LALR(1), 2 = LR(1)) for this grammar, in it or
    /// not: every action that competes for a cell is kept. None when it has too many states.
    pub fn automaton(&self, class: usize, max: usize) -> Option<Auto> {
        let (sets, to) = self.lr1(max)?;
        let follow = self.follow();
        // which state of the automaton each LR(1) set is in
        let mut core_of = Vec::new();
        let mut merged: Vec<Items> = Vec::new();
        if class == 2 {
            core_of = (0..sets.len()).collect();
            merged = sets;
        } else {
            let mut ids: BTreeMap<Vec<(usize, usize)>, usize> = BTreeMap::new();
            for s in &sets {
                let core: Vec<_> = s.keys().copied().collect();
                let k = *ids.entry(core).or_insert_with(|| {
                    merged.push(Items::new());
                    merged.len() - 1
                });
                core_of.push(k);
                for (i, l) in s {
                    *merged[k].entry(*i).or_insert(0) |= l;
                }
            }
        }
        let mut states: Vec<AutoState> = merged
            .iter()
            .map(|_| AutoState { act: vec![BTreeSet::new(); self.nt + 1], goto: BTreeMap::new() })
            .collect();
        for (i, from) in to.iter().enumerate() {
            for (s, k) in from {
                let (i, k) = (core_of[i], core_of[*k]);
                if self.is_nt(*s) {
                    states[i].goto.insert(*s, k);
                } else {
                    states[i].act[self.tno(*s)].insert(Act::Shift(k));
                }
            }
        }
        for (i, items) in merged.iter().enumerate() {
            for (k, look) in items {
                let p = &self.prods[k.0];
                if k.1 < p.rhs.len() {
                    continue;
                }
                let look = if class == 0 { follow[p.lhs] } else { *look };
                for t in 0..=self.nt {
                    if look & (1 << t) != 0 {
                        states[i].act[t].insert(if p.lhs == self.start { Act::Acc } else { Act::Reduce(k.0) });
                    }
                }
            }
        }
        Some(Auto { states, items: merged })
    }

    fn conflict_free<'a>(&self, sets: impl Iterator<Item = &'a Items>, follow: Option<&[u64]>) -> bool {
        for set in sets {
            let mut shift = 0u64;
            let mut red = 0u64;
            for (k, look) in set {
                let p = &self.prods[k.0];
                match p.rhs.get(k.1) {
                    Some(s) if !self.is_nt(*s) => shift |= 1 << self.tno(*s),
                    Some(_) => {}
                    None => {
                        let l = follow.map_or(*look, |f| f[p.lhs]);
                        if red & l != 0 {
                            return false;
                        }
                        red |= l;
                    }
                }
            }
            if shift & red != 0 {
                return false;
            }
        }
        true
    }

    /// (in SLR(1), in LALR(1), in LR(1), number of LR(1) sets); None when it has too many sets.
    pub fn classes(&self, max: usize) -> Option<Classes> {
        let (sets, _) = self.lr1(max)?;
        let mut merged: BTreeMap<Vec<(usize, usize)>, Items> = BTreeMap::new();
        for s in &sets {
            let core: Vec<_> = s.keys().copied().collect();
            let m = merged.entry(core).or_default();
            for (k, l) in s {
                *m.entry(*k).or_insert(0) |= l;
            }
        }
        let follow = self.follow();
        Some(Classes {
            slr: self.conflict_free(merged.values(), Some(&follow)),
            lalr: self.conflict_free(merged.values(), None),
            lr1: self.conflict_free(sets.iter(), None),
            states: sets.len(),
        })
    }
}

/// An item set: (production, place of the dot) and the lookaheads.
pub type Items = BTreeMap<(usize, usize), u64>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Acc,
}

pub struct AutoState {
    /// the actions for each terminal number (the last one is the end of input)
    pub act: Vec<BTreeSet<Act>>,
    pub goto: BTreeMap<usize, usize>,
}

/// What a parser of some class is, by the book.
pub struct Auto {
    pub states: Vec<AutoState>,
    /// (production, position) and the lookaheads (SLR: as merged, not yet FOLLOW)
    pub items: Vec<Items>,
}

/// How the automaton answers one lookahead.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Shifted,
    Accepted,
    /// the labels of the tokens that have an action in the state reached, sorted
    Unexpected(Vec<u16>),
    /// the actions competing, as productions to reduce (sorted), and whether a shift and the
    /// acceptance are among them
    Conflict(Competing),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Competing {
    pub shift: bool,
    pub accept: bool,
    pub reduce: Vec<usize>,
}

impl Competing {
    pub fn of(acts: &BTreeSet<Act>) -> Competing {
        let mut c = Competing::default();
        for a in acts {
            match a {
                Act::Shift(_) => c.shift = true,
                Act::Acc => c.accept = true,
                Act::Reduce(p) => c.reduce.push(*p),
            }
        }
        c
    }
}

impl Auto {
    /// The sets of actions that compete anywhere.
    pub fn conflicts(&self) -> BTreeSet<Competing> {
        self.states.iter().flat_map(|s| &s.act).filter(|a| a.len() > 1).map(Competing::of).collect()
    }
    /// Lets a machine with these states on its stack see a lookahead (`None`: no terminal of the
    /// grammar): the productions it reduces, and how it ends.
    pub fn see(&self, g: &G, stack: &mut Vec<usize>, tno: Option<usize>) -> (Vec<usize>, Answer) {
        let mut reduced = Vec::new();
        loop {
            let st = &self.states[*stack.last().unwrap()];
            let none = BTreeSet::new();
            let acts = tno.map_or(&none, |t| &st.act[t]);
            let a = match acts.len() {
                0 => {
                    let mut e: Vec<u16> = (0..=g.nt).filter(|t| !st.act[*t].is_empty()).map(|t| if t == g.nt { g.eof } else { g.label[g.nn + t] }).collect();
                    e.sort_unstable();
                    return (reduced, Answer::Unexpected(e));
                }
                1 => *acts.first().unwrap(),
                _ => return (reduced, Answer::Conflict(Competing::of(acts))),
            };
            match a {
                Act::Shift(k) => {
                    stack.push(k);
                    return (reduced, Answer::Shifted);
                }
                Act::Acc => return (reduced, Answer::Accepted),
                Act::Reduce(p) => {
                    reduced.push(p);
                    let p = &g.prods[p];
                    stack.truncate(stack.len() - p.rhs.len());
                    let to = self.states[*stack.last().unwrap()].goto[&p.lhs];
                    stack.push(to);
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Classes {
    pub slr: bool,
    pub lalr: bool,
    pub lr1: bool,
    pub states: usize,
}

/// One set of the recogniser: the items, and of a large one also an index.
#[derive(Default)]
struct EarleySet {
    items: Vec<(usize, usize, usize)>,
    seen: std::collections::HashSet<(usize, usize, usize)>,
}

impl EarleySet {
    const SMALL: usize = 48;
    fn contains(&self, n: &(usize, usize, usize)) -> bool {
        if self.items.len() < Self::SMALL {
            self.items.contains(n)
        } else {
            self.seen.contains(n)
        }
    }
    fn add(&mut self, n: (usize, usize, usize)) {
        if self.contains(&n) {
            return;
        }
        self.items.push(n);
        if self.items.len() == Self::SMALL {
            self.seen.extend(self.items.iter().copied());
        } else if self.items.len() > Self::SMALL {
            self.seen.insert(n);
        }
    }
}

/// Earley recogniser, fed one token at a time.
pub struct Earley<'g> {
    g: &'g G,
    sets: Vec<EarleySet>,
}

impl<'g> Earley<'g> {
    pub fn new(g: &'g G) -> Self {
        let mut first = EarleySet::default();
        first.add((g.of[g.start][0], 0, 0));
        let mut e = Earley { g, sets: vec![first] };
        e.close();
        e
    }
    fn close(&mut self) {
        let k = self.sets.len() - 1;
        let mut i = 0;
        let mut new = Vec::new();
        while i < self.sets[k].items.len() {
            let (p, d, o) = self.sets[k].items[i];
            i += 1;
            match self.g.prods[p].rhs.get(d) {
                Some(&s) if self.g.is_nt(s) => {
                    for q in &self.g.of[s] {
                        new.push((*q, 0, k));
                    }
                }
                Some(_) => {}
                None => {
                    let lhs = self.g.prods[p].lhs;
                    for &(q, e, oo) in &self.sets[o].items {
                        if self.g.prods[q].rhs.get(e) == Some(&lhs) {
                            new.push((q, e + 1, oo));
                        }
                    }
                }
            }
            for n in new.drain(..) {
                self.sets[k].add(n);
            }
        }
    }
    /// Scans one token label. False (and no change) when no sentence starts with what came so far
    /// followed by it.
    pub fn push(&mut self, label: u16) -> bool {
        let Some(sym) = self.g.term_of_label(label) else {
            return false;
        };
        let k = self.sets.len() - 1;
        let next: Vec<_> = self.sets[k]
            .items
            .iter()
            .filter(|(p, d, _)| self.g.prods[*p].rhs.get(*d) == Some(&sym))
            .map(|(p, d, o)| (*p, d + 1, *o))
            .collect();
        if next.is_empty() {
            return false;
        }
        let mut set = EarleySet::default();
        for n in next {
            set.add(n);
        }
        self.sets.push(set);
        self.close();
        true
    }
    /// The tokens so far are a sentence.
    pub fn complete(&self) -> bool {
        let sp = self.g.of[self.g.start][0];
        let n = self.g.prods[sp].rhs.len();
        self.sets.last().unwrap().contains(&(sp, n, 0))
    }
    /// Labels that may come next (the end-of-input label included when complete).
    pub fn next(&self) -> BTreeSet<u16> {
        let mut out = BTreeSet::new();
        for (p, d, _) in &self.sets.last().unwrap().items {
            if let Some(s) = self.g.prods[*p].rhs.get(*d) {
                if !self.g.is_nt(*s) {
                    out.insert(self.g.label[*s]);
                }
            }
        }
        if self.complete() {
            out.insert(self.g.eof);
        }
        out
    }
}

// ---------------------------------------------------------------- generation

/// Grammars from practice, as text: "start; rule -> a b | c; ...", first rule is the start.
const TEMPLATES: &[&str] = &[
    // the six of the test suite
    "S -> C C; C -> c C | d",
    "Z -> A; A -> A + F | F; F -> F * T | T; T -> ( A ) | i | n",
    "S -> E; E -> d D | D | F; F -> e C | C; D -> d e B b | e A c; C -> e d B c | d A b; B -> a; A -> a",
    "S -> E; E -> E * B | E + B | B; B -> 0 | 1",
    "Z -> S; S -> ( S ) | [ S ] | { S } | ( ) | [ ] | { }",
    "S -> P; P -> I | P _ I; I -> N | W; N -> D | N D; W -> A | W A; D -> 0 | 1 | 2; A -> a | b | c",
    // json
    "Z -> V; V -> { } | { M } | [ ] | [ L ] | s | n; M -> P | M , P; P -> s : V; L -> V | L , V",
    // statements, dangling constructs resolved by terminators, indirect right recursion
    "Z -> L; L -> S | L S; S -> i E t B f | i E t B e B f | w E d B o | a = E SC; B -> L; E -> E + T | T; T -> a | n | ( E )",
    // three-step indirect right recursion (statement chains)
    "Z -> S; S -> i ( x ) T | x SC | { S }; T -> w U | x SC; U -> d S | x ,",
    // three-step indirect left recursion
    "Z -> A; A -> B x | a; B -> C y | b; C -> A z | c",
    // four-step indirect left recursion with unit steps
    "Z -> A; A -> B | a x; B -> C y | b; C -> D | c; D -> A z | d",
    // LALR but not SLR (pointers)
    "Z -> S; S -> L = R | R; L -> * R | i; R -> L",
    // LR(1) but not LALR
    "Z -> S; S -> a E c | a F d | b F c | b E d; E -> e; F -> e",
    // LALR not SLR, from Appel
    "Z -> S; S -> A a | b A c | d c | b d a; A -> d",
    // lambda calculus-like
    "Z -> E; E -> l i . E | A; A -> A T | T; T -> i | ( E )",
    // declarations
    "Z -> P; P -> D | P D; D -> t L SC; L -> V | L , V; V -> i | * V | V [ n ] | ( V )",
    // operators of mixed associativity
    "Z -> E; E -> T ^ E | T; T -> T - F | F; F -> ! F | ( E ) | i",
    // right-nested with shared prefixes, lookaheads decided late
    "Z -> S; S -> a S b | a T c; T -> a T | x",
    "Z -> A; A -> B C A | e; B -> b | b B2; B2 -> x; C -> c | c C2; C2 -> y | y C2",
    // lookahead propagation through several levels and two contexts
    "Z -> S; S -> ( X ) | [ X ] | X e; X -> Y; Y -> W; W -> Q | W q; Q -> k | k Q",
    "Z -> S; S -> a A d | b B d | a B e | b A f; A -> c; B -> c",
    // s-expressions with quotes
    "Z -> F; F -> X | F X; X -> a | ( ) | ( F ) | ' X",
    // wop's own grammar
    "Z -> P; P -> P D SC | D SC; D -> u I : * | u I | A | R; I -> I : i | i; A -> a i I | a s I; R -> I t I = L; L -> L | Q c | L | Q | Q c | Q; Q -> Q M | M; M -> I ? | I | s | ( L ) | ( L ) ?",
    // LALR merges with lookaheads arriving late through loops
    "Z -> S; S -> A x | c B y; A -> B; B -> g C | g; C -> h D; D -> B | k",
    "Z -> L; L -> E SC L | E SC; E -> E o E2 | E2; E2 -> n E2 | P; P -> i | i ( ) | i ( G ); G -> E | G , E",
];

/// The template `text` as rules over names.
fn parse_template(text: &str) -> Vec<(String, Vec<Vec<String>>)> {
    let mut out: Vec<(String, Vec<Vec<String>>)> = Vec::new();
    let toks: Vec<String> = text
        .split_whitespace()
        .flat_map(|w| {
            if w != ";" && w.ends_with(';') {
                vec![w[..w.len() - 1].to_string(), ";".to_string()]
            } else {
                vec![w.to_string()]
            }
        })
        .collect();
    let mut i = 0;
    while i < toks.len() {
        let name = toks[i].clone();
        assert_eq!(toks[i + 1], "->", "{text}");
        i += 2;
        let mut prods = vec![Vec::new()];
        while i < toks.len() && toks[i] != ";" {
            if toks[i] == "|" {
                prods.push(Vec::new());
            } else {
                prods.last_mut().unwrap().push(toks[i].clone());
            }
            i += 1;
        }
        i += 1;
        out.push((name, prods));
    }
    out
}

type Raw = Vec<Vec<Vec<usize>>>; // per nonterminal (0 = start): productions over 0..nn, terminals from 1000

fn template(rng: &mut Rng) -> Raw {
    let t = parse_template(rng.pick(TEMPLATES));
    let names: Vec<&String> = t.iter().map(|r| &r.0).collect();
    let mut terms: Vec<&String> = Vec::new();
    t.iter()
        .map(|(_, ps)| {
            ps.iter()
                .map(|p| {
                    p.iter()
                        .map(|s| {
                            names.iter().position(|n| *n == s).unwrap_or_else(|| {
                                1000 + terms.iter().position(|x| *x == s).unwrap_or_else(|| {
                                    terms.push(s);
                                    terms.len() - 1
                                })
                            })
                        })
                        .collect()
                })
                .collect()
        })
        .collect()
}

/// Small random edits of a grammar.
fn mutate(rng: &mut Rng, g: &mut Raw) {
    let nn = g.len();
    let maxt = g.iter().flatten().flatten().filter(|s| **s >= 1000).max().map_or(1000, |m| m + 1);
    let n = rng.range(1, 3);
    for _ in 0..n {
        let sym = |rng: &mut Rng| {
            if nn > 1 && rng.chance(50) {
                rng.range(1, nn - 1)
            } else {
                rng.range(1000, maxt)
            }
        };
        let a = rng.range(if nn > 1 { 1 } else { 0 }, nn - 1);
        match rng.below(5) {
            0 => {
                let len = rng.range(1, 3);
                let p = (0..len).map(|_| sym(rng)).collect();
                g[a].push(p);
            }
            1 => {
                if g[a].len() > 1 {
                    let i = rng.below(g[a].len());
                    g[a].remove(i);
                }
            }
            2 => {
                let i = rng.below(g[a].len());
                let j = rng.below(g[a][i].len());
                g[a][i][j] = sym(rng);
            }
            3 => {
                let i = rng.below(g[a].len());
                let j = rng.below(g[a][i].len() + 1);
                let s = sym(rng);
                g[a][i].insert(j, s);
            }
            _ => {
                let i = rng.below(g[a].len());
                if g[a][i].len() > 1 {
                    let j = rng.below(g[a][i].len());
                    g[a][i].remove(j);
                }
            }
        }
    }
}

fn random_raw(rng: &mut Rng) -> Raw {
    let nn = rng.range(2, 7);
    let nt = rng.range(1, 7);
    let t = |rng: &mut Rng| 1000 + rng.below(nt);
    let mut g: Raw = vec![Vec::new(); nn];
    g[0].push(if rng.chance(80) {
        vec![1]
    } else {
        (0..rng.range(2, 3)).map(|_| if rng.chance(60) { rng.range(1, nn - 1) } else { t(rng) }).collect()
    });
    let dense = rng.range(1, 3);
    for a in 1..nn {
        // a chain or ring through the rules keeps most of them reachable
        let next = if a + 1 < nn { a + 1 } else { rng.range(1, nn - 1) };
        let np = rng.range(1, dense + 1);
        for i in 0..np {
            let style = if i == 0 { rng.below(6) } else { rng.below(10) };
            let other = rng.range(1, nn - 1);
            let p = match style {
                0 => vec![next],
                1 => vec![next, t(rng)],
                2 => vec![t(rng), next],
                3 => vec![t(rng), next, t(rng)],
                4 => vec![next, t(rng), other],
                5 => vec![next, other],
                6 => vec![t(rng)],
                7 => vec![a, t(rng)],
                8 => vec![t(rng), a],
                _ => {
                    let len = rng.range(1, 4);
                    (0..len)
                        .map(|_| if rng.chance(45) { rng.range(1, nn - 1) } else { t(rng) })
                        .collect()
                }
            };
            g[a].push(p);
        }
        if rng.chance(70) {
            g[a].push(vec![t(rng)]);
        }
    }
    g
}

/// Levels of operators, as deep as grammars of programming languages go.
fn layered(rng: &mut Rng) -> Raw {
    let k = if rng.chance(70) { rng.range(3, 8) } else { rng.range(8, 16) };
    let shared = rng.chance(20);
    let mut nt = 0;
    let mut t = || {
        nt += 1;
        999 + nt
    };
    let (open, close, leaf, one) = (t(), t(), t(), t());
    let mut g: Raw = vec![vec![vec![1]]];
    for a in 1..=k {
        let (n, op) = (a + 1, if shared && rng.chance(50) { one } else { t() });
        g.push(match rng.below(9) {
            0 | 1 => vec![vec![a, op, n], vec![n]],
            2 | 3 => vec![vec![n, op, a], vec![n]],
            4 => vec![vec![op, a], vec![n]],
            5 => vec![vec![a, op], vec![n]],
            6 => vec![vec![n, op, n], vec![n]],
            7 => vec![vec![n], vec![n, op], vec![n, t()]],
            _ => vec![vec![n]],
        });
    }
    let mut last = vec![vec![leaf]];
    if rng.chance(70) {
        last.push(vec![open, rng.range(1, k), close]);
    }
    if rng.chance(30) {
        last.push(vec![leaf, open, close]);
    }
    g.push(last);
    g
}

/// A long chain of rules that each lead on by several ways: what is worked out along every path, or
/// only so far, shows here.
fn ladder(rng: &mut Rng) -> Raw {
    let k = rng.range(12, 40);
    let ways = rng.range(1, 3);
    let side = rng.below(4);
    let mut g: Raw = vec![vec![vec![1]]];
    for a in 1..=k {
        let n = a + 1;
        let left = match side {
            0 => true,
            1 => false,
            _ => rng.chance(50),
        };
        let mut ps: Vec<Vec<usize>> = (0..ways).map(|w| if left { vec![n, 1001 + w] } else { vec![1001 + w, n] }).collect();
        if rng.chance(if ways == 1 { 60 } else { 15 }) {
            // by itself too, or by nothing else
            if rng.chance(50) {
                ps.clear();
            }
            ps.push(vec![n]);
        }
        if rng.chance(5) {
            ps.push(vec![1005, rng.range(1, k + 1), 1006]);
        }
        g.push(ps);
    }
    let mut last = vec![vec![1000]];
    if rng.chance(40) {
        last.push(vec![1004, rng.range(1, k), 1004 + 2 * rng.below(2)]);
    }
    g.push(last);
    g
}

/// Many alternatives, long productions, lists.
fn wide(rng: &mut Rng) -> Raw {
    // sometimes more symbols than a word has bits
    let (nt, nn) = if rng.chance(15) { (rng.range(40, 58), rng.range(5, 14)) } else { (rng.range(6, 20), rng.range(3, 6)) };
    let t = |rng: &mut Rng| 1000 + rng.below(nt);
    let mut g: Raw = vec![Vec::new(); nn];
    g[0].push(vec![1]);
    g[1] = if rng.chance(50) { vec![vec![2], vec![1, 2]] } else { vec![vec![2], vec![2, 1]] };
    for a in 2..nn {
        let np = if a == 2 { if nt > 20 { rng.range(20, 60) } else { rng.range(4, 24) } } else { rng.range(1, 6) };
        for i in 0..np {
            let len = if rng.chance(15) { rng.range(5, 14) } else { rng.range(1, 4) };
            let mut p = vec![if a == 2 && i < nt { 1000 + i } else { t(rng) }];
            for _ in 1..len {
                p.push(if rng.chance(30) { rng.range(2, nn - 1) } else { t(rng) });
            }
            g[a].push(p);
        }
    }
    let n = rng.range(0, nn - 3);
    for a in 3..3 + n {
        let x = rng.below(g[2].len());
        let at = rng.range(1, g[2][x].len());
        g[2][x].insert(at, a);
    }
    g
}

/// States in which very many tokens can come: a list of items that each begin with a token of its own.
fn fan(rng: &mut Rng) -> Raw {
    let nt = rng.range(12, 55);
    let end = 1000 + nt;
    let mut g: Raw = vec![vec![vec![1]]];
    g.push(match rng.below(4) {
        0 => vec![vec![2], vec![1, 2]],
        1 => vec![vec![2], vec![2, 1]],
        2 => vec![vec![2, end], vec![1, 2, end]],
        _ => vec![vec![end, 2, end + 1], vec![end, 1, end + 1]],
    });
    let items = if rng.chance(30) { vec![3, 3] } else { vec![3] };
    g.push(vec![items]);
    let mut ps: Vec<Vec<usize>> = Vec::new();
    for i in 0..nt {
        let mut p = vec![1000 + i];
        if rng.chance(15) {
            p.push(1000 + rng.below(nt));
        } else if rng.chance(3) {
            p.push(3);
        }
        ps.push(p);
    }
    g.push(ps);
    g
}

/// More states than fit in a byte: productions of hundreds of symbols.
fn huge(rng: &mut Rng) -> Raw {
    let nt = rng.range(3, 7);
    let nn = rng.range(3, 4);
    let t = |rng: &mut Rng| 1000 + rng.below(nt);
    let mut g: Raw = vec![Vec::new(); nn];
    g[0].push(vec![1]);
    g[1] = match rng.below(3) {
        0 => vec![vec![2]],
        1 => vec![vec![2], vec![1, 2]],
        _ => vec![vec![2], vec![2, 1]],
    };
    for i in 0..rng.range(1, 2) {
        let len = if i == 0 { rng.range(240, 300) } else { rng.range(2, 60) };
        let mut p: Vec<usize> = (0..len).map(|_| if nn > 3 && rng.chance(4) { 3 } else { t(rng) }).collect();
        p[0] = 1000 + i;
        g[2].push(p);
    }
    if nn > 3 {
        g[3] = vec![vec![t(rng)], vec![t(rng), t(rng)]];
    }
    g
}

/// More productions in a rule, or more rules, than fit in a byte.
fn crowd(rng: &mut Rng) -> Raw {
    let mut g: Raw = vec![vec![vec![1]]];
    let nt = rng.range(17, 30);
    g.push(if rng.chance(50) { vec![vec![2], vec![1, 2]] } else { vec![vec![2], vec![2, 1]] });
    let mut pairs: Vec<Vec<usize>> = (0..nt * nt).map(|i| vec![1000 + i / nt, 1000 + i % nt]).collect();
    rng.shuffle(&mut pairs);
    pairs.truncate(rng.range(257, 289));
    if rng.chance(60) {
        g.push(pairs);
    } else {
        g.push((0..pairs.len()).map(|i| vec![3 + i]).collect());
        g.extend(pairs.into_iter().map(|p| vec![p]));
    }
    g
}

/// Gives random labels (so that no code can depend on how symbols compare) and keeps the rules
/// and productions in random order.
fn label(rng: &mut Rng, g: &Raw) -> GSpec {
    let nn = g.len();
    let mut terms: Vec<usize> = g.iter().flatten().flatten().copied().filter(|s| *s >= 1000).collect();
    terms.sort_unstable();
    terms.dedup();
    let mut labels: Vec<u16> = (1..=(nn + terms.len() + 1) as u16).collect();
    rng.shuffle(&mut labels);
    let lab = |s: usize| {
        if s < 1000 {
            labels[s]
        } else {
            labels[nn + terms.iter().position(|t| *t == s).unwrap()]
        }
    };
    let eof = labels[nn + terms.len()];
    let mut rules: Vec<(u16, Vec<Vec<u16>>)> = g
        .iter()
        .enumerate()
        .map(|(n, ps)| {
            let mut ps: Vec<Vec<u16>> =
                ps.iter().map(|p| p.iter().map(|s| lab(*s)).collect()).collect();
            rng.shuffle(&mut ps);
            (lab(n), ps)
        })
        .collect();
    rng.shuffle(&mut rules);
    GSpec { start: lab(0), eof, rules }
}

/// What a generated grammar must be.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    /// without conflicts in the given class: 0 = SLR, 1 = LALR, 2 = LR(1)
    Free(usize),
    /// any grammar of the domain
    Any,
    /// also with rules that derive themselves alone
    Cyclic,
}

pub const MAX_LR1: usize = 220;

pub fn generate(rng: &mut Rng, want: Want) -> (GSpec, G, Classes) {
    let cyclic = want == Want::Cyclic;
    let want = if cyclic { Want::Any } else { want };
    loop {
        let mut max = MAX_LR1;
        let mut raw = match rng.below(30) {
            _ if rng.one_in(200) => {
                max *= 4;
                if rng.chance(50) {
                    huge(rng)
                } else {
                    crowd(rng)
                }
            }
            0..=8 => template(rng),
            9..=15 => {
                let mut t = template(rng);
                mutate(rng, &mut t);
                t
            }
            16 => match rng.below(5) {
                0 => wide(rng),
                4 => fan(rng),
                1 => ladder(rng),
                2 => layered(rng),
                _ => {
                    let mut t = layered(rng);
                    mutate(rng, &mut t);
                    t
                }
            },
            _ => random_raw(rng),
        };
        if raw.is_empty() {
            continue;
        }
        let (twice, stray) = (rng.chance(15), rng.chance(15));
        for r in raw.iter_mut().filter(|_| !twice || want != Want::Any) {
            let mut ps = Vec::new();
            for p in r.drain(..) {
                if !ps.contains(&p) {
                    ps.push(p);
                }
            }
            *r = ps;
        }
        if cyclic && raw.len() > 1 && rng.chance(50) {
            let a = rng.range(1, raw.len() - 1);
            let b = if rng.chance(50) { a } else { rng.range(1, raw.len() - 1) };
            raw[a].push(vec![b]);
        }
        if twice && want == Want::Any && rng.chance(30) {
            let a = rng.below(raw.len());
            let (i, j) = (rng.below(raw[a].len()), rng.below(raw[a].len() + 1));
            let p = raw[a][i].clone();
            raw[a].insert(j, p);
        }
        let spec = label(rng, &raw);
        let Ok(g) = spec.compile() else { continue };
        let odd = g.oddities();
        if g.cyclic() && !cyclic {
            continue;
        }
        if odd.0 && !twice || odd.1 && !stray {
            continue;
        }
        let Some(c) = g.classes(max) else { continue };
        let ok = match want {
            Want::Any | Want::Cyclic => true,
            Want::Free(0) => c.slr,
            Want::Free(1) => c.lalr,
            Want::Free(_) => c.lr1,
        };
        if ok {
            return (spec, g, c);
        }
    }
}
