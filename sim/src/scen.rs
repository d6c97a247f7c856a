//! Seeded scenarios: one seed gives one scenario for a property. Which fault kinds and which APIs
//! are in play is drawn per seed (swarm), so that runs differ in kind and not only in detail.
use crate::gram::{generate, Classes, Want, G};
use crate::rng::{Fnv, Rng};
use crate::world::{Api, CbFault, Class, Fault, Fork, Item, OnError, Op, Scenario, Session};

pub const PROPERTIES: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C16", "C18", "C20"];

/// What the runs of a property are made of.
struct Mix {
    parsers: (usize, usize),
    tasks: (usize, usize),
    ops: (usize, usize),
    /// percentage of grammars that may have conflicts
    any: usize,
    classes: &'static [Class],
    apis: &'static [Api],
    /// percentage of sessions whose stream is damaged
    damage: usize,
    /// per-run probability (percent) that the fault kind is in play at all
    stalls: usize,
    false_end: usize,
    src_panic: usize,
    cb_panic: usize,
    cancel: usize,
    retry_panic: usize,
    forks: usize,
    compact: usize,
    swap: usize,
    yields: usize,
    list: usize,
    errors: &'static [u8], // 0 stop, 1 retry, 2 skip, 3 both
    len: usize,
}

const ALL: &[Class] = &[Class::Slr, Class::Lalr, Class::Lalr, Class::Clr];
const EACH: &[Class] = &[Class::Slr, Class::Lalr, Class::Clr];
const EVERY: &[Api] = &[
    Api::Parse,
    Api::Validate,
    Api::Cloned,
    Api::Simple,
    Api::Start,
    Api::Trace,
    Api::Travel,
    Api::DfaParse,
    Api::ReuseParse,
    Api::ReuseReset,
];

fn mix(p: &str) -> Mix {
    let base = Mix {
        parsers: (1, 3),
        tasks: (1, 4),
        ops: (1, 3),
        any: 0,
        classes: ALL,
        apis: EVERY,
        damage: 50,
        stalls: 50,
        false_end: 20,
        src_panic: 0,
        cb_panic: 0,
        cancel: 0,
        retry_panic: 0,
        forks: 0,
        compact: 0,
        swap: 0,
        yields: 50,
        list: 0,
        errors: &[0],
        len: 24,
    };
    match p {
        "C01" => Mix { any: 30, damage: 55, false_end: 30, ..base },
        "C02" => Mix {
            apis: &[Api::Parse, Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::ReuseParse],
            damage: 25,
            yields: 70,
            tasks: (2, 5),
            ..base
        },
        "C03" => Mix {
            apis: &[Api::Parse, Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::Simple, Api::ReuseParse, Api::Validate, Api::Cloned],
            damage: 35,
            stalls: 90,
            false_end: 60,
            ..base
        },
        "C04" => Mix {
            apis: &[Api::Parse, Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::ReuseReset],
            classes: &[Class::Slr, Class::Lalr, Class::Lalr, Class::Clr, Class::Clr, Class::Clr],
            damage: 90,
            false_end: 40,
            ..base
        },
        "C05" => Mix {
            apis: &[Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::ReuseReset],
            classes: &[Class::Slr, Class::Lalr, Class::Clr, Class::Clr],
            damage: 85,
            errors: &[1, 2, 2, 3, 3],
            ..base
        },
        "C06" => Mix {
            apis: &[
                Api::Start,
                Api::Trace,
                Api::Travel,
                Api::DfaParse,
                Api::ReuseParse,
                Api::ReuseParse,
                Api::ReuseParse,
                Api::ReuseReset,
                Api::ReuseReset,
            ],
            parsers: (1, 2),
            tasks: (1, 3),
            ops: (3, 7),
            src_panic: 30,
            cb_panic: 40,
            cancel: 30,
            errors: &[0, 0, 0, 1, 2],
            len: 16,
            ..base
        },
        "C07" => Mix {
            apis: &[Api::Parse, Api::Start, Api::Trace, Api::Travel, Api::Trace, Api::Travel],
            tasks: (2, 5),
            forks: 80,
            swap: 40,
            damage: 40,
            yields: 80,
            len: 18,
            ..base
        },
        "C08" => Mix {
            apis: &[Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::ReuseParse],
            src_panic: 80,
            cb_panic: 80,
            retry_panic: 90,
            damage: 35,
            ..base
        },
        "C09" => Mix { any: 15, compact: 100, swap: 20, tasks: (2, 5), damage: 50, ops: (1, 4), ..base },
        "C10" => Mix {
            apis: &[Api::Parse, Api::Start, Api::Trace, Api::Travel, Api::DfaParse, Api::ReuseParse, Api::ReuseReset],
            src_panic: 30,
            cb_panic: 40,
            cancel: 30,
            retry_panic: 50,
            errors: &[0, 0, 1, 2],
            ops: (1, 5),
            len: 16,
            ..base
        },
        "C11" => Mix { any: 40, parsers: (1, 3), tasks: (1, 2), ops: (1, 2), len: 60, damage: 35, errors: &[0, 1, 2], ..base },
        "C16" => Mix { any: 80, classes: EACH, list: 70, compact: 20, swap: 10, damage: 25, false_end: 10, len: 20, ..base },
        "C18" => Mix {
            any: 25,
            classes: EACH,
            damage: 75,
            false_end: 35,
            src_panic: 10,
            cb_panic: 15,
            retry_panic: 90,
            cancel: 10,
            forks: 20,
            compact: 15,
            list: 30,
            errors: &[0, 0, 1, 2],
            ..base
        },
        "C20" => Mix {
            any: 15,
            apis: &[Api::Trace, Api::Trace, Api::Travel],
            classes: EACH,
            damage: 50,
            src_panic: 20,
            cb_panic: 30,
            retry_panic: 90,
            cancel: 15,
            compact: 15,
            swap: 10,
            yields: 60,
            errors: &[0, 0, 1, 2],
            ..base
        },
        _ => base,
    }
}

/// The damage kinds in play in this run.
struct Dam {
    kinds: Vec<Fault>,
    rate: usize,
}

fn damage(rng: &mut Rng, g: &G, toks: &[u16], d: &Dam) -> Vec<Item> {
    let terms = g.terminals();
    let mut out: Vec<Item> = toks.iter().map(|t| Item::Tok(*t, None)).collect();
    let hits = 1 + rng.below(d.rate);
    for _ in 0..hits {
        if out.is_empty() {
            break;
        }
        let i = rng.below(out.len());
        let f = *rng.pick(&d.kinds);
        match f {
            Fault::Lost => out[i] = Item::Gone(Fault::Lost),
            Fault::Duplicated => {
                if let Item::Tok(t, _) = out[i] {
                    out.insert(i + 1, Item::Tok(t, Some(f)));
                }
            }
            Fault::Swapped => {
                // delivered late, by a few places
                let j = (i + 1 + rng.below(3)).min(out.len() - 1);
                if let Item::Tok(t, _) = out.remove(i) {
                    out.insert(j.min(out.len()), Item::Tok(t, Some(f)));
                }
            }
            Fault::Corrupted => out[i] = Item::Tok(*rng.pick(&terms), Some(f)),
            Fault::Unknown => {
                // sometimes the label of a rule: no source should send one, some do
                let x = if rng.chance(40) { g.label[rng.below(g.nn)] } else { 900 + rng.below(50) as u16 };
                out[i] = Item::Tok(x, Some(f));
            }
            Fault::InBandEof => out.insert(i, Item::Tok(g.eof, Some(f))),
            Fault::Inserted => out.insert(i, Item::Tok(*rng.pick(&terms), Some(f))),
            Fault::Truncated => {
                out.truncate(i);
                out.push(Item::Gone(Fault::Truncated));
            }
        }
    }
    out
}

struct Env<'a> {
    m: &'a Mix,
    gs: &'a [(G, Classes)],
    parsers: &'a [(usize, Class)],
    dam: Dam,
    stalls: bool,
    false_end: bool,
    src_panic: bool,
    cb_panic: bool,
    cancel: bool,
    forks: bool,
    yields: bool,
    long: bool,
    endless: bool,
    share: bool,
    retry_panic: usize,
    apis: Vec<Api>,
}

fn stream(rng: &mut Rng, e: &Env, g: &G, clean: bool) -> Vec<Item> {
    // a few sessions are long: deep stacks, many reductions in a row
    let endless = e.endless && rng.chance(25);
    let len = if endless {
        if rng.one_in(100) { 12000 } else { *rng.pick(&[300, 1000, 1000, 3000]) }
    } else if e.long && rng.chance(40) || g.prods.iter().any(|p| p.rhs.len() > 100) { 400 } else { e.m.len };
    let target = 1 + rng.below(len);
    let mut toks = g.sentence(rng, target, endless);
    if toks.len() > 4 * len {
        toks.truncate(4 * len);
    }
    let mut s: Vec<Item> = if clean || !rng.chance(e.m.damage) {
        toks.iter().map(|t| Item::Tok(*t, None)).collect()
    } else if rng.chance(8) {
        // noise
        let terms = g.terminals();
        (0..rng.below(8)).map(|_| Item::Tok(*rng.pick(&terms), Some(Fault::Corrupted))).collect()
    } else {
        damage(rng, g, &toks, &e.dam)
    };
    if rng.chance(4) {
        s.push(Item::Tok(g.eof, Some(Fault::InBandEof)));
    }
    if e.stalls {
        for _ in 0..rng.below(4) {
            let i = rng.below(s.len() + 1);
            s.insert(i, Item::Delay(1 + rng.below(20) as u16));
        }
    }
    if e.false_end && rng.chance(35) {
        let i = rng.below(s.len() + 1);
        s.insert(i, Item::FalseEnd);
    }
    if e.src_panic && rng.chance(50) {
        for _ in 0..=rng.below(2) {
            let i = rng.below(s.len() + 1);
            s.insert(i, Item::Panic);
        }
    }
    s
}

fn session(rng: &mut Rng, e: &Env, parser: usize, first: bool) -> Session {
    let g = &e.gs[e.parsers[parser].0].0;
    let api = *rng.pick(&e.apis);
    let stream0 = stream(rng, e, g, false);
    let n = stream0.len();
    let mut cb = Vec::new();
    if e.cb_panic && rng.chance(60) {
        for _ in 0..=rng.below(3) {
            cb.push(CbFault { nth: rng.below(2 * n + 2) as u32, after: rng.chance(50) });
        }
    }
    let mut forks = Vec::new();
    if e.forks && matches!(api, Api::Trace | Api::Travel) && rng.chance(70) {
        for _ in 0..=rng.below(2) {
            // a fork that goes on as the parent would, or on another stream
            let at = rng.below(2 * n + 3) as u16;
            let st = if rng.chance(50) {
                let k = rng.below(n + 1);
                stream0[k..].to_vec()
            } else {
                let s = stream(rng, e, g, false);
                let k = rng.below(s.len() + 1);
                s[k..].to_vec()
            };
            forks.push(Fork { at, stream: st, via: if rng.chance(30) { 1 + rng.below(3) as u8 } else { 0 } });
        }
        forks.sort_by_key(|f| f.at);
    }
    let on_error = match rng.pick(e.m.errors) {
        0 => OnError::Stop,
        1 => OnError::Retry(1 + rng.below(3) as u8),
        2 => OnError::Skip(1 + rng.below(6) as u8),
        _ => OnError::RetrySkip(1 + rng.below(4) as u8),
    };
    // a few callers insist
    let on_error = match on_error {
        OnError::Retry(_) if rng.one_in(40) => OnError::Retry(20),
        OnError::Skip(_) if rng.one_in(40) => OnError::Skip(40),
        o => o,
    };
    let _ = first;
    Session {
        parser,
        api,
        stream: stream0,
        forks,
        cb,
        cb_yield: e.yields && rng.chance(50),
        observe_yield: e.yields && rng.chance(40),
        on_error,
        share: if e.share && rng.chance(70) { *rng.pick(&[1, 1, 2, 3]) } else { 0 },
        retry_panic: rng.chance(e.retry_panic),
        cancel: (e.cancel && rng.chance(35)).then(|| rng.below(2 * n + 3) as u16),
        stop_after: (api == Api::Travel && e.cancel && rng.chance(35)).then(|| rng.below(3 * n + 3) as u16),
        blind: api == Api::Travel && rng.chance(40),
    }
}

pub fn generate_for(property: &str, seed: u64) -> Scenario {
    let mut f = Fnv::new();
    f.bytes(property.as_bytes());
    f.u64(seed);
    let mut rng = Rng::new(f.0);
    let m = mix(property);
    let rng = &mut rng;
    let np = rng.range(m.parsers.0, m.parsers.1);
    let mut gs: Vec<(G, Classes)> = Vec::new();
    let mut specs = Vec::new();
    let mut parsers: Vec<(usize, Class)> = Vec::new();
    for _ in 0..np {
        // sometimes another parser class for a grammar already there
        if !gs.is_empty() && rng.chance(35) {
            let gi = rng.below(gs.len());
            let c = gs[gi].1;
            let class = *rng.pick(m.classes);
            let ok = match class {
                Class::Slr => c.slr,
                Class::Lalr => c.lalr,
                Class::Clr => c.lr1,
            };
            if (ok || rng.chance(m.any)) && !(class == Class::Slr && gs[gi].0.cyclic()) {
                parsers.push((gi, class));
                continue;
            }
        }
        let class = *rng.pick(m.classes);
        let want = if rng.chance(m.any) {
            if class != Class::Slr && rng.chance(20) {
                Want::Cyclic
            } else {
                Want::Any
            }
        } else {
            Want::Free(match class {
                Class::Slr => 0,
                Class::Lalr => 1,
                Class::Clr => 2,
            })
        };
        let (spec, g, c) = generate(rng, want);
        parsers.push((gs.len(), class));
        specs.push(spec);
        gs.push((g, c));
    }
    let all = [
        Fault::Lost,
        Fault::Duplicated,
        Fault::Swapped,
        Fault::Corrupted,
        Fault::Unknown,
        Fault::InBandEof,
        Fault::Inserted,
        Fault::Truncated,
    ];
    let mut kinds: Vec<Fault> = all.into_iter().filter(|_| rng.chance(55)).collect();
    if kinds.is_empty() {
        kinds.push(*rng.pick(&all));
    }
    let mut apis: Vec<Api> = m.apis.iter().copied().filter(|_| rng.chance(60)).collect();
    if apis.is_empty() {
        apis.push(*rng.pick(m.apis));
    }
    let e = Env {
        gs: &gs,
        parsers: &parsers,
        dam: Dam { kinds, rate: 1 + rng.below(3) },
        stalls: rng.chance(m.stalls),
        false_end: rng.chance(m.false_end),
        src_panic: rng.chance(m.src_panic),
        cb_panic: rng.chance(m.cb_panic),
        cancel: rng.chance(m.cancel),
        forks: rng.chance(m.forks),
        yields: rng.chance(m.yields),
        long: rng.chance(3),
        endless: rng.chance(5),
        share: rng.chance(25),
        retry_panic: m.retry_panic,
        apis,
        m: &m,
    };
    let nt = rng.range(m.tasks.0, m.tasks.1);
    let mut tasks = Vec::new();
    for _ in 0..nt {
        // a few clients live long
        let no = if rng.one_in(500) {
            120
        } else if rng.one_in(60) {
            20
        } else {
            rng.range(m.ops.0, m.ops.1)
        };
        let mut ops = Vec::new();
        // tasks tend to stay with one parser, so that machines get reused
        let home = rng.below(parsers.len());
        for i in 0..no {
            let parser = if rng.chance(75) { home } else { rng.below(parsers.len()) };
            ops.push(Op::Run(session(rng, &e, parser, i == 0)));
            if rng.chance(15) {
                ops.push(Op::Sleep(rng.below(15) as u16));
            }
        }
        tasks.push(ops);
    }
    if rng.chance(m.compact) {
        let mut ops = Vec::new();
        let n = if rng.one_in(40) { 20 } else { 1 + rng.below(3) };
        for _ in 0..n {
            ops.push(Op::Sleep(rng.below(40) as u16));
            ops.push(Op::Compact { parser: rng.below(parsers.len()) });
        }
        let at = rng.below(tasks.len() + 1);
        if rng.chance(60) {
            tasks.insert(at, ops);
        } else {
            // by the client itself, between its sessions
            let t = rng.below(tasks.len());
            let p = rng.below(tasks[t].len() + 1);
            tasks[t].splice(p..p, ops.into_iter().filter(|o| !matches!(o, Op::Sleep(_))));
        }
    }
    if rng.chance(m.swap) {
        let ops = vec![Op::Sleep(rng.below(30) as u16), Op::Swap { parser: rng.below(parsers.len()) }];
        let at = rng.below(tasks.len() + 1);
        tasks.insert(at, ops);
    }
    if rng.chance(m.list) {
        for _ in 0..=rng.below(2) {
            let t = rng.below(tasks.len());
            let at = rng.below(tasks[t].len() + 1);
            tasks[t].insert(at, Op::Conflicts { parser: rng.below(parsers.len()) });
        }
    }
    let style = rng.below(4);
    let len = 60 + rng.below(240);
    let mut last = 0;
    let sched = (0..len)
        .map(|_| {
            // uniform, or bursts of one task, or round robin with hiccups
            match style {
                0 | 1 => rng.below(64) as u16,
                2 => {
                    if rng.chance(15) {
                        last = rng.below(64) as u16;
                    }
                    last
                }
                _ => {
                    last = if rng.chance(10) { rng.below(64) as u16 } else { last + 1 };
                    last % 60
                }
            }
        })
        .collect();
    Scenario { property: property.to_string(), grammars: specs, parsers, tasks, sched }
}
