//! What the demo shows: its three tables at the start and, for each line, one row per step. The
//! automaton of its bracket grammar by the book says what has to be there.
use crate::gram::{Act, Auto, GSpec, G};
use std::collections::{BTreeMap, BTreeSet};

const NAMES: [&str; 9] = ["$", "'S", "(", ")", "S", "[", "]", "{", "}"];

pub struct Demo {
    g: G,
    auto: Auto,
}

/// A table as printed: the cells of its title and of its rows.
struct Shown {
    title: Vec<String>,
    rows: Vec<Vec<String>>,
}

/// The tables in a stretch of output.
fn tables(text: &str) -> Vec<Shown> {
    let mut out: Vec<Shown> = Vec::new();
    let mut last: Vec<Vec<String>> = Vec::new();
    for l in text.lines() {
        if l.starts_with("+=") {
            // what came just before is the title
            let title = last.pop().unwrap_or_default();
            if let Some(t) = out.last_mut() {
                t.rows = std::mem::take(&mut last);
            }
            out.push(Shown { title, rows: Vec::new() });
            last.clear();
        } else if let Some(l) = l.strip_prefix('|') {
            last.push(l.trim_end().trim_end_matches('|').split('|').map(|c| c.trim().to_string()).collect());
        }
    }
    if let Some(t) = out.last_mut() {
        t.rows = last;
    }
    out
}

/// The quoted names in a text, in order.
fn quoted(t: &str) -> Vec<String> {
    t.split('"').skip(1).step_by(2).map(str::to_string).collect()
}

type Item = (String, Vec<String>, usize, BTreeSet<String>);

/// Items as they are printed: `"S" = "(" . ")"  {"$", ")"}`, any number of them.
fn items(t: &str) -> Option<BTreeSet<Item>> {
    let mut out = BTreeSet::new();
    let mut c = t.chars().peekable();
    let word = |c: &mut std::iter::Peekable<std::str::Chars>| {
        let mut w = String::new();
        for x in c.by_ref() {
            if x == '"' {
                return w;
            }
            w.push(x);
        }
        w
    };
    loop {
        while c.peek().is_some_and(|x| matches!(x, ' ' | ',' | '{' | '}')) {
            c.next();
        }
        if c.next() != Some('"') {
            return c.peek().is_none().then_some(out);
        }
        let rule = word(&mut c);
        let (mut body, mut point, mut look) = (Vec::new(), None, BTreeSet::new());
        loop {
            match c.next()? {
                '"' => body.push(word(&mut c)),
                '.' => point = Some(body.len()),
                '{' => break,
                _ => {}
            }
        }
        loop {
            match c.next()? {
                '"' => {
                    look.insert(word(&mut c));
                }
                '}' => break,
                _ => {}
            }
        }
        out.insert((rule, body, point?, look));
    }
}

impl Demo {
    pub fn new() -> Demo {
        let n = |s: &str| NAMES.iter().position(|x| *x == s).unwrap() as u16;
        let mut prods = Vec::new();
        for (a, b) in [("(", ")"), ("[", "]"), ("{", "}")] {
            prods.push(vec![n(a), n(b)]);
            prods.push(vec![n(a), n("S"), n(b)]);
        }
        let spec = GSpec { rules: vec![(n("'S"), vec![vec![n("S")]]), (n("S"), prods)], start: n("'S"), eof: n("$") };
        let g = spec.compile().expect("the demo's grammar");
        let auto = g.automaton(1, 1000).expect("its automaton");
        Demo { g, auto }
    }
    fn name(&self, s: usize) -> &'static str {
        NAMES[self.g.label[s] as usize]
    }
    fn term(&self, t: usize) -> &'static str {
        if t == self.g.nt {
            "$"
        } else {
            self.name(self.g.nn + t)
        }
    }
    fn set(&self, bits: u64) -> BTreeSet<String> {
        (0..=self.g.nt).filter(|t| bits & (1 << t) != 0).map(|t| self.term(t).to_string()).collect()
    }
    /// The text of an action, but for the number of the state it leads to.
    fn reduce_text(&self, p: usize) -> String {
        let pr = &self.g.prods[p];
        let rhs: Vec<&str> = pr.rhs.iter().map(|s| self.name(*s)).collect();
        let nth = self.g.of[pr.lhs].iter().position(|q| *q == p).unwrap();
        format!("Reduce({:?}, ({rhs:?}, {nth}))", self.name(pr.lhs))
    }

    /// Compares the tables printed at the start; gives the cells of the action table by state.
    pub fn start(&self, text: &str) -> Result<Vec<BTreeMap<String, String>>, String> {
        let t = tables(text);
        let [sets, states, actions] = &t[..] else {
            return Err(format!("{} tables before the first line and not 3", t.len()));
        };
        let (first, follow) = (self.g.first(), self.g.follow());
        if sets.title != ["non terminal", "first tokens", "follow tokens"] || sets.rows.len() != self.g.nn {
            return Err(format!("the table of tokens has the title {:?} and {} rows", sets.title, sets.rows.len()));
        }
        for n in 0..self.g.nn {
            let row = sets.rows.iter().find(|r| r[0] == self.name(n)).ok_or_else(|| format!("no row for {} in the table of tokens", self.name(n)))?;
            for (k, due) in [(1, self.set(first[n])), (2, self.set(follow[n]))] {
                if quoted(&row[k]).into_iter().collect::<BTreeSet<_>>() != due {
                    return Err(format!("{} of {}: {}, due: {due:?}", sets.title[k], row[0], row[k]));
                }
            }
        }
        // the actions, walked along with the automaton
        let terms: Vec<&str> = NAMES.iter().copied().filter(|n| !matches!(*n, "'S" | "S")).collect();
        let order: Vec<String> = terms.iter().chain(&["'S", "S"]).map(|t| format!("{t:?}")).collect();
        if actions.title.iter().filter(|t| !t.is_empty()).ne(&order) {
            return Err(format!("the table of actions has the title {:?}", actions.title));
        }
        let mut cells: Vec<BTreeMap<String, String>> = Vec::new();
        for (i, r) in actions.rows.iter().enumerate() {
            if r.len() != order.len() + 1 || r[terms.len()] != i.to_string() {
                return Err(format!("row {i} of the table of actions is {r:?}"));
            }
            let mut m = BTreeMap::new();
            for (k, name) in terms.iter().chain(&["'S", "S"]).enumerate() {
                let c = &r[if k < terms.len() { k } else { k + 1 }];
                if !c.is_empty() {
                    m.insert((*name).to_string(), c.clone());
                }
            }
            cells.push(m);
        }
        let mut is: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
        let mut todo = vec![(0, 0)];
        while let Some((at, want)) = todo.pop() {
            let row = cells.get(at).ok_or_else(|| format!("an action leads to state {at} of {}", cells.len()))?;
            let mut due: BTreeMap<String, (String, Option<usize>)> = BTreeMap::new();
            for t in 0..=self.g.nt {
                for a in &self.auto.states[want].act[t] {
                    let x = match a {
                        Act::Shift(k) => ("Shift".to_string(), Some(*k)),
                        Act::Acc => ("Acc".to_string(), None),
                        Act::Reduce(p) => (self.reduce_text(*p), None),
                    };
                    due.insert(self.term(t).to_string(), x);
                }
            }
            for (n, k) in &self.auto.states[want].goto {
                due.insert(self.name(*n).to_string(), ("Goto".to_string(), Some(*k)));
            }
            if row.keys().ne(due.keys()) {
                return Err(format!("state {at} has actions for {:?}, due: {:?}", row.keys(), due.keys()));
            }
            for (sym, (text, to)) in due {
                let c = &row[&sym];
                let Some(k) = to else {
                    if *c != text {
                        return Err(format!("the action in state {at} on {sym} is shown as {c}, due: {text}"));
                    }
                    continue;
                };
                let n: usize = c
                    .strip_prefix(&format!("{text}("))
                    .and_then(|x| x.strip_suffix(')'))
                    .and_then(|x| x.parse().ok())
                    .ok_or_else(|| format!("the action in state {at} on {sym} is shown as {c}, due: a {text}"))?;
                match is.insert(n, k) {
                    None => todo.push((n, k)),
                    Some(old) if old != k => return Err(format!("state {n} is shown as where two different states lead")),
                    _ => {}
                }
            }
        }
        self.states(states, &cells, &is)?;
        Ok(cells)
    }

    fn states(&self, t: &Shown, cells: &[BTreeMap<String, String>], is: &BTreeMap<usize, usize>) -> Result<(), String> {
        if t.title != ["goto(idx, term)", "kernel", "state", "closure"] {
            return Err(format!("the table of states has the title {:?}", t.title));
        }
        let mut seen = BTreeSet::new();
        for (i, r) in t.rows.iter().enumerate() {
            if r.len() != 4 {
                return Err(format!("row {i} of the table of states is {r:?}"));
            }
            let state: usize = r[2].parse().map_err(|_| format!("state {:?} in the table of states", r[2]))?;
            if i == 0 {
                if state != 0 || r[0] != format!("last state: {}", cells.len() - 1) {
                    return Err(format!("the table of states begins with {r:?}, there are {} states", cells.len()));
                }
            } else {
                let inner = r[0].strip_prefix("goto(").and_then(|x| x.strip_suffix(')')).and_then(|x| x.split_once(", "));
                let (from, sym) = inner.ok_or_else(|| format!("row {:?} in the table of states", r[0]))?;
                let from: usize = from.parse().map_err(|_| format!("row {:?} in the table of states", r[0]))?;
                let due = cells.get(from).and_then(|c| c.get(sym));
                // acceptance goes nowhere
                if !due.is_some_and(|d| *d == format!("Shift({state})") || *d == format!("Goto({state})")) {
                    return Err(format!("{} is shown to be state {state}, the table of actions says {due:?}", r[0]));
                }
                if !seen.insert((from, sym.to_string())) {
                    return Err(format!("{} is shown twice", r[0]));
                }
            }
            let Some(k) = is.get(&state) else { continue };
            let due = |kernel: bool| -> BTreeSet<Item> {
                self.auto.items[*k]
                    .iter()
                    .filter(|((p, dot), _)| !kernel || *dot > 0 || self.g.prods[*p].lhs == self.g.start)
                    .map(|((p, dot), look)| {
                        let pr = &self.g.prods[*p];
                        (self.name(pr.lhs).to_string(), pr.rhs.iter().map(|s| self.name(*s).to_string()).collect(), *dot, self.set(*look))
                    })
                    .collect()
            };
            for (col, kernel) in [(1, true), (3, false)] {
                let (have, due) = (items(&r[col]), due(kernel));
                if have.as_ref() != Some(&due) {
                    return Err(format!("{} of {} is shown as {}, due: {due:?}", t.title[col], r[0], r[col]));
                }
            }
        }
        let due = cells.iter().flatten().filter(|(_, c)| c.starts_with("Shift") || c.starts_with("Goto")).count();
        if seen.len() != due {
            return Err(format!("{} ways between states are shown, the table of actions has {due}", seen.len()));
        }
        Ok(())
    }

    /// Compares what is shown for a line: as many rows as the machine makes steps, each with the
    /// stack, the rest of the input and the action there, and the outcome.
    pub fn line(&self, text: &str, cells: &[BTreeMap<String, String>], line: &str) -> Result<usize, String> {
        let t = tables(text);
        let [t] = &t[..] else {
            return Err(format!("{} tables and not one", t.len()));
        };
        if t.title != ["step", "stack", "buffer", "action address", "action"] {
            return Err(format!("its table has the title {:?}", t.title));
        }
        let toks: Vec<String> = line.chars().map(|c| c.to_string()).chain([String::from("$")]).collect();
        let mut states = vec![(0usize, 0usize)];
        let mut syms: Vec<&str> = Vec::new();
        let mut at = 0;
        let mut due: Vec<Vec<String>> = Vec::new();
        let outcome = loop {
            let (shown, k) = *states.last().unwrap();
            let tok = &toks[at];
            let mut stack = states[0].0.to_string();
            for (s, n) in syms.iter().zip(&states[1..]) {
                stack = format!("{stack} {s:?} {}", n.0);
            }
            let action = cells.get(shown).and_then(|c| c.get(tok)).cloned();
            due.push(vec![(due.len() + 1).to_string(), stack, format!("{:?}", &toks[at..]), format!("{shown}:{tok:?}"), action.clone().unwrap_or_else(|| "n/a".into())]);
            let tno = (0..=self.g.nt).find(|t| self.term(*t) == tok);
            let acts: Vec<Act> = tno.map_or(Vec::new(), |t| self.auto.states[k].act[t].iter().copied().collect());
            // where the shown table leads; `start` has compared it with the automaton
            let to = |c: Option<&String>| -> usize { c.and_then(|c| c.split(['(', ')']).nth(1)).and_then(|n| n.parse().ok()).unwrap_or(usize::MAX) };
            match acts.first() {
                None => break "unexpected",
                Some(Act::Acc) => break "ok",
                Some(Act::Shift(n)) => {
                    states.push((to(action.as_ref()), *n));
                    syms.push(self.term(tno.unwrap()));
                    at += 1;
                }
                Some(Act::Reduce(p)) => {
                    let p = &self.g.prods[*p];
                    states.truncate(states.len() - p.rhs.len());
                    syms.truncate(syms.len() - p.rhs.len());
                    let (shown, k) = *states.last().unwrap();
                    let sym = self.name(p.lhs);
                    states.push((to(cells.get(shown).and_then(|c| c.get(sym))), self.auto.states[k].goto[&p.lhs]));
                    syms.push(sym);
                }
            }
        };
        for (i, d) in due.iter().enumerate() {
            let have = t.rows.get(i);
            if have != Some(d) {
                return Err(format!("row {} is {have:?}, due: {d:?}", i + 1));
            }
        }
        let rest: Vec<Vec<&str>> = t.rows[due.len()..].iter().map(|r| r.iter().map(String::as_str).filter(|c| !c.is_empty()).collect()).collect();
        let [last] = &rest[..] else {
            return Err(format!("{} rows after its {} steps", rest.len(), due.len()));
        };
        let [label, said] = last[..] else {
            return Err(format!("it ends with {last:?}"));
        };
        let fine = label == "state"
            && if outcome == "ok" {
                said == "ok"
            } else {
                let k = states.last().unwrap().1;
                let want: BTreeSet<String> = (0..=self.g.nt).filter(|t| !self.auto.states[k].act[*t].is_empty()).map(|t| self.term(t).to_string()).collect();
                said.split_once(". expected ").is_some_and(|(a, b)| a == format!("unexpected token {:?}", toks[at]) && quoted(b).into_iter().collect::<BTreeSet<_>>() == want && quoted(b).len() == want.len())
            };
        if fine {
            Ok(due.len())
        } else {
            Err(format!("it ends with {last:?} where the automaton says {outcome}"))
        }
    }
}
