//! Minimises a failing scenario: drops tasks, operations, stream items, faults, schedule entries
//! and grammar productions as long as the same kind of violation remains.
use crate::check::evaluate;
use crate::world::{Item, OnError, Op, Scenario, Session};
use std::time::{Duration, Instant};

pub type Signature = (String, String);

pub fn signature(f: &crate::world::Flaw) -> Signature {
    (format!("{:?}", f.kind), f.sub.to_string())
}

struct Shrinker {
    best: Scenario,
    want: Signature,
    until: Instant,
    tried: u64,
}

impl Shrinker {
    fn try_it(&mut self, s: Scenario) -> bool {
        if Instant::now() > self.until || s == self.best {
            return false;
        }
        self.tried += 1;
        let e = evaluate(&s, false);
        if e.result.harness_error.is_none() && e.violations.iter().any(|f| signature(f) == self.want) {
            self.best = s;
            return true;
        }
        false
    }
    fn edit(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut s = self.best.clone();
        f(&mut s);
        self.try_it(s)
    }
    /// Removes elements of a list reachable by `get`, in chunks of falling size.
    fn list<T>(&mut self, get: impl Fn(&mut Scenario) -> Option<&mut Vec<T>>) -> bool {
        let mut any = false;
        let mut s = self.best.clone();
        let Some(n) = get(&mut s).map(|v| v.len()) else { return false };
        let mut chunk = n;
        while chunk > 0 {
            let mut i = 0;
            loop {
                let mut s = self.best.clone();
                let Some(v) = get(&mut s) else { break };
                if i >= v.len() {
                    break;
                }
                let end = (i + chunk).min(v.len());
                v.drain(i..end);
                if self.try_it(s) {
                    any = true;
                } else {
                    i += chunk;
                }
                if Instant::now() > self.until {
                    return any;
                }
            }
            chunk /= 2;
        }
        any
    }
    fn session(&mut self, t: usize, o: usize, f: impl FnOnce(&mut Session)) -> bool {
        self.edit(|s| {
            if let Some(Op::Run(x)) = s.tasks.get_mut(t).and_then(|t| t.get_mut(o)) {
                f(x);
            }
        })
    }
    fn pass(&mut self) -> bool {
        let mut any = self.list(|s| Some(&mut s.tasks));
        let mut t = 0;
        while t < self.best.tasks.len() {
            any |= self.list(|s| s.tasks.get_mut(t));
            let mut o = 0;
            while o < self.best.tasks.get(t).map_or(0, Vec::len) {
                if let Op::Run(x) = self.best.tasks[t][o].clone() {
                    macro_rules! field {
                        ($f:ident) => {
                            self.list(|s| match s.tasks.get_mut(t).and_then(|t| t.get_mut(o)) {
                                Some(Op::Run(x)) => Some(&mut x.$f),
                                _ => None,
                            })
                        };
                    }
                    any |= field!(stream);
                    any |= field!(forks);
                    any |= field!(cb);
                    for k in 0..x.forks.len() {
                        any |= self.list(|s| match s.tasks.get_mut(t).and_then(|t| t.get_mut(o)) {
                            Some(Op::Run(x)) => x.forks.get_mut(k).map(|f| &mut f.stream),
                            _ => None,
                        });
                        any |= self.session(t, o, |x| {
                            if let Some(f) = x.forks.get_mut(k) {
                                f.at /= 2;
                            }
                        });
                    }
                    any |= self.session(t, o, |x| x.on_error = OnError::Stop);
                    any |= self.session(t, o, |x| {
                        x.on_error = match x.on_error {
                            OnError::Retry(_) => OnError::Retry(1),
                            OnError::Skip(_) => OnError::Skip(1),
                            OnError::RetrySkip(_) => OnError::Skip(1),
                            OnError::Stop => OnError::Stop,
                        }
                    });
                    any |= self.session(t, o, |x| {
                        x.cb_yield = false;
                        x.observe_yield = false;
                    });
                    any |= self.session(t, o, |x| x.retry_panic = false);
                    any |= self.session(t, o, |x| x.cancel = None);
                    any |= self.session(t, o, |x| x.stop_after = None);
                    any |= self.session(t, o, |x| x.blind = false);
                    any |= self.session(t, o, |x| {
                        for i in &mut x.stream {
                            if let Item::Tok(_, f) = i {
                                *f = None;
                            }
                        }
                    });
                }
                o += 1;
            }
            t += 1;
        }
        // schedule: none, a prefix, zeroes
        any |= self.edit(|s| s.sched.clear());
        let mut n = self.best.sched.len();
        while n > 0 {
            n /= 2;
            let k = self.best.sched.len().saturating_sub(n.max(1));
            if n == 0 || !self.edit(|s| s.sched.truncate(k)) {
                break;
            }
            any = true;
        }
        if self.best.sched.len() < 400 {
            for i in 0..self.best.sched.len() {
                if self.best.sched[i] != 0 {
                    any |= self.edit(|s| s.sched[i] = 0);
                }
            }
        }
        // grammars: productions, then unused parsers and grammars
        for g in 0..self.best.grammars.len() {
            for r in 0..self.best.grammars[g].rules.len() {
                any |= self.list(|s| s.grammars.get_mut(g).and_then(|g| g.rules.get_mut(r)).map(|r| &mut r.1));
            }
            any |= self.list(|s| s.grammars.get_mut(g).map(|g| &mut g.rules));
        }
        let mut p = 0;
        while p < self.best.parsers.len() {
            let used = self.best.tasks.iter().flatten().any(|o| match o {
                Op::Run(x) => x.parser == p,
                Op::Compact { parser } | Op::Swap { parser } | Op::Conflicts { parser } => *parser == p,
                Op::Sleep(_) => false,
            });
            if !used && self.best.parsers.len() > 1 {
                let ok = self.edit(|s| {
                    s.parsers.remove(p);
                    for o in s.tasks.iter_mut().flatten() {
                        match o {
                            Op::Run(x) if x.parser > p => x.parser -= 1,
                            Op::Compact { parser } | Op::Swap { parser } | Op::Conflicts { parser } if *parser > p => *parser -= 1,
                            _ => {}
                        }
                    }
                });
                if ok {
                    any = true;
                    continue;
                }
            }
            p += 1;
        }
        let mut g = 0;
        while g < self.best.grammars.len() {
            if !self.best.parsers.iter().any(|p| p.0 == g) {
                let ok = self.edit(|s| {
                    s.grammars.remove(g);
                    for p in &mut s.parsers {
                        if p.0 > g {
                            p.0 -= 1;
                        }
                    }
                });
                if ok {
                    any = true;
                    continue;
                }
            }
            g += 1;
        }
        any
    }
}

/// The smallest scenario found in the given time, and how many were tried.
pub fn shrink(s: Scenario, want: Signature, time: Duration) -> (Scenario, u64) {
    let mut sh = Shrinker { best: s, want, until: Instant::now() + time, tried: 0 };
    while sh.pass() && Instant::now() < sh.until {}
    (sh.best, sh.tried)
}
