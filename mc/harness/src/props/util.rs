
//! Broadcast, sources and sinks, event combination, adapters.
use super::core::prog_job;
use super::device::Dev;
use super::progs::{self, e, ef};
use crate::dsl::*;
use crate::job::*;
use crate::oracle::{self, Ghost};
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::channel::ChannelElement;
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::Time;
use dam::utility_contexts::*;
use std::rc::Rc;

fn cs(c: &Ch) -> String {
    match c.cap {
        _ if c.void => "void".into(),
        Some(n) => format!("b{n},{},{}", c.lat, c.resp),
        None => format!("u{}", c.lat),
    }
}

// ---------------------------------------------------------------- C09

pub fn broadcast(input: Ch, outs: &[Ch], feed: Vec<Op>, sinks: Vec<Vec<Op>>) -> Dev {
    let n = outs.len();
    let chans = [vec![input], outs.to_vec()].concat();
    let voids: Vec<bool> = outs.iter().map(|c| c.void).collect();
    let mut ctxs = vec![feed];
    ctxs.extend(sinks);
    let mut g = vec![Op::Deq(0)];
    g.extend((1..=n).map(|j| e(j, 0)));
    Dev {
        p: Prog::new(chans, ctxs),
        ghosts: vec![g],
        make: Rc::new(move |pb, tx, rx| {
            let mut b = BroadcastContext::new(rx[0].take().unwrap());
            for j in 1..=n {
                b.add_target(tx[j].take().unwrap());
            }
            pb.add_child(b);
        }),
        model: Rc::new(move |p, vs| {
            let mut g = Ghost::new(p, vs);
            while let Some((_, v)) = g.deq(0) {
                for j in 1..=n {
                    if !voids[j - 1] {
                        g.wait(j);
                    }
                }
                let at = g.now + 1;
                for j in 1..=n {
                    if voids[j - 1] {
                        continue;
                    }
                    g.enq_at(j, at, v);
                }
            }
            Ok(vec![g.end()?])
        }),
        det: true,
    }
}

pub fn c09(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let k = if th { 3 } else { 2 };
    let mut out = vec![];
    let mut add = |id: String, d: Dev, d2: u16| {
        out.push(d.job(format!("{id} | {d2} delays"), delay(d2).max(400_000)));
        out.push(d.infer().job(format!("{id} infer | {d2} delays"), delay(d2).max(400_000)));
    };
    let ins = if th { vec![b(1, 1, 1), b(2, 3, 2), u(2)] } else { vec![b(1, 1, 1), u(2)] };
    for i in &ins {
        for (pat, n) in [("burst", 3), ("paced", 2), ("mixed", 2)] {
            let f = progs::sender(0, n, pat);
            for o in [b(1, 1, 1), b(2, 1, 3), u(1), b(1, 3, 1), u(4)] {
                if th || pat != "mixed" {
                    add(format!("one target {} -> {} {pat}", cs(i), cs(&o)), broadcast(*i, &[o], f.clone(), vec![vec![Op::Drain(1, 2)]]), k);
                }
            }
            for (x, y) in [(b(1, 1, 1), b(1, 1, 1)), (b(1, 1, 1), u(1)), (b(1, 2, 1), b(2, 1, 3)), (u(3), u(1))] {
                // sinks of different speed
                if th || (pat == "burst" && n == 3) {
                    let d = broadcast(*i, &[x, y], f[..f.len().min(3)].to_vec(), vec![vec![Op::Drain(1, 0)], vec![Op::Drain(2, 5)]]);
                    add(format!("two targets {} -> {} {} {pat}", cs(i), cs(&x), cs(&y)), d, 2);
                }
            }
        }
        // a script that reads both targets in turn
        let d = broadcast(*i, &[b(1, 1, 1), b(2, 1, 1)], progs::sender(0, 2, "burst"), vec![vec![Op::Deq(2), Op::Deq(1), Op::Incr(3), Op::Deq(1), Op::Deq(2)]]);
        add(format!("both targets in one context {}", cs(i)), d, k);
        let d = broadcast(*i, &[], progs::sender(0, 3, "burst"), vec![]);
        add(format!("no target {}", cs(i)), d, k);
        let d = broadcast(*i, &[void(), u(1)], progs::sender(0, 2, "burst"), vec![vec![Op::Drain(2, 0)]]);
        add(format!("a void target {}", cs(i)), d, k);
    }
    // many targets, long streams, long latencies; every single delay
    for (i, n) in [(b(1, 1, 1), 6u64), (b(12, 2, 1), 20), (u(300), 3)] {
        let outs: Vec<Ch> = (0..if th { 20 } else { 11 }).map(|j| [b(1, 1, 1), u(1), b(3, 2, 5), b(1, 400, 1), b(9, 1, 300)][(j * 3) % 5]).collect();
        for slow in [0, outs.len() - 1] {
            let sinks = (0..outs.len()).map(|j| vec![Op::Drain(j + 1, if j == slow { 40 } else { j as u64 % 3 })]).collect();
            let d = broadcast(i, &outs, progs::sender(0, n.min(7), "burst"), sinks);
            add(format!("{} targets {} slow {slow}", outs.len(), cs(&i)), d, 1);
        }
        // exactly one target decides when the next element goes out, in every position
        for slow in if th { (0..outs.len()).collect() } else { vec![3, 7, 10] } {
            let k = outs.len();
            let outs: Vec<Ch> = (0..k).map(|j| [b(1, 1, 1), u(1), b(3, 2, 1)][if j == slow { 0 } else { j % 3 }]).collect();
            let sinks = (0..k).map(|j| vec![Op::Drain(j + 1, if j == slow { 9 } else { 0 })]).collect();
            let d = broadcast(i, &outs, progs::sender(0, n.min(5), "burst"), sinks);
            add(format!("{k} targets {} only {slow} slow", cs(&i)), d, 1);
        }
        let m = if th { 3 * n } else { 2 * n };
        let d = broadcast(i, &[b(1, 1, 1), b(10, 2, 3)], progs::sender(0, m, "mixed"), vec![vec![Op::Drain(1, 3)], vec![Op::Incr(70), Op::Drain(2, 0)]]);
        add(format!("long {m} {}", cs(&i)), d, 1);
    }
    // a target that leaves: the others get a prefix, nobody hangs, and at most the broadcast fails
    for o in [b(1, 1, 1), u(1)] {
        for left in 0..2usize {
            let d = broadcast(b(1, 1, 1), &[o, b(2, 1, 1)], progs::sender(0, 3, "burst"), vec![
                [(0..left).map(|_| Op::Deq(1)).collect::<Vec<_>>(), vec![Op::DropRx(1)]].concat(),
                vec![Op::Drain(2, 0)],
            ]);
            out.push(Job::new(format!("target leaves after {left} {} | 2 delays", cs(&o)), move |cx| {
                let d = d.clone();
                let d2 = d.clone();
                every_schedule(cx, delay(2).max(400_000), false, move || run_prog_with(&d2.p, |pb, tx, rx| (d2.make)(pb, tx, rx), RunOptions::default()), |r| {
                    finished(r, &mut |o| {
                        let got: Vec<u64> = o.logs[2].iter().filter_map(|e| match e.res { Res::Elem(_, v) => Some(v), _ => None }).collect();
                        let sent: Vec<u64> = (0..3).map(|i| 10 + i).collect();
                        if !sent.starts_with(&got) {
                            return Err(format!("the remaining target received {got:?}"));
                        }
                        if o.failures.len() > 1 || o.passed != o.failures.is_empty() {
                            return Err(format!("failures {:?} passed {}", o.failures, o.passed));
                        }
                        if o.passed && got.len() < 3 {
                            return Err(format!("no failure although the remaining target only received {got:?}"));
                        }
                        Ok(hash(&(got, o.passed)))
                    })
                })
            }).cost(8));
        }
    }
    out
}

// ---------------------------------------------------------------- C16

fn ev_of(i: usize, n: u64) -> EventTime {
    // 0..n ready, n..2n nothing, 2n closed
    let i = i as u64;
    if i < n {
        EventTime::Ready(Time::new(i))
    } else if i < 2 * n {
        EventTime::Nothing(Time::new(i - n))
    } else {
        EventTime::Closed
    }
}
/// which first-event times are still possible, given a verdict: (is `t` possible) for t in 0..=n+1 and "never"
fn possible(e: EventTime, n: u64) -> Vec<bool> {
    let mut v: Vec<bool> = (0..n + 2)
        .map(|t| match e {
            EventTime::Ready(x) => t == x.time(),
            EventTime::Nothing(x) => t > x.time(),
            EventTime::Closed => false,
        })
        .collect();
    v.push(matches!(e, EventTime::Nothing(_) | EventTime::Closed));
    v
}
pub fn c16(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    // Every combination of component verdicts: the combined verdict must be exactly what they imply.
    out.push(Job::new("combined verdicts follow from the parts", move |cx| {
        cases(cx, |ta| {
            // (times, parts): few parts with many times, many parts with few times
            let runs: Vec<(u64, u32)> = if th {
                (0..=4).map(|l| (5, l)).chain([(2, 5), (2, 6), (1, 7), (1, 8)]).collect()
            } else {
                (0..=3).map(|l| (4, l)).chain([(2, 4), (2, 5), (1, 6), (1, 7)]).collect()
            };
            for (n, len) in runs {
                let k = 2 * n as usize + 1;
                let total = k.pow(len);
                for code in 0..total {
                    let evs: Vec<EventTime> = (0..len).map(|i| ev_of(code / k.pow(i) % k, n)).collect();
                    let any = evs.clone().any_event().next_event();
                    let all = evs.clone().all_events().next_event();
                    // possible times of the earliest / latest component event
                    let never = n + 2;
                    let mut pa = vec![false; n as usize + 3];
                    let mut pl = vec![false; n as usize + 3];
                    let doms: Vec<Vec<u64>> = evs
                        .iter()
                        .map(|e| possible(*e, n).iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u64).collect())
                        .collect();
                    let mut idx = vec![0usize; len as usize];
                    'o: loop {
                        let ts: Vec<u64> = (0..len as usize).map(|i| doms[i][idx[i]]).collect();
                        let mn = ts.iter().min().copied().unwrap_or(never);
                        let mx = ts.iter().max().copied().unwrap_or(never);
                        pa[mn as usize] = true;
                        pl[mx as usize] = true;
                        let mut i = 0;
                        loop {
                            if i == len as usize {
                                break 'o;
                            }
                            idx[i] += 1;
                            if idx[i] < doms[i].len() {
                                break;
                            }
                            idx[i] = 0;
                            i += 1;
                        }
                    }
                    for (what, got, p) in [("any", any, &pa), ("all", all, &pl)] {
                        let q = possible(got, n);
                        // a verdict may not exclude a possible time; Ready must be certain; Nothing must be tight
                        let r = match got {
                            EventTime::Ready(x) => (0..p.len()).all(|t| p[t] == (t as u64 == x.time())) || {
                                // "something is ready at x" is also right when x is the earliest and certain for one part
                                what == "any" && evs.contains(&EventTime::Ready(x)) && (0..x.time() as usize).all(|t| !p[t])
                            },
                            EventTime::Nothing(_) | EventTime::Closed => (0..p.len()).all(|t| !p[t] || q[t]),
                        };
                        let tight = match got {
                            EventTime::Nothing(x) => {
                                // the first time not excluded is possible
                                p.iter().position(|b| *b) == Some(x.time() as usize + 1)
                            }
                            EventTime::Closed => len == 0 || (0..never as usize).all(|t| !p[t]) || evs.contains(&EventTime::Closed) && what == "all",
                            _ => true,
                        };
                        if !ta.case(if r && tight { Ok(hash(&format!("{what}{got:?}"))) } else { Err(format!("{what} of {evs:?} is {got:?}")) }) {
                            return;
                        }
                    }
                }
            }
        })
    }));
    out.push(Job::new("event order", |cx| {
        cases(cx, |ta| {
            let n = 6;
            let k = 2 * n as usize + 1;
            let key = |e: EventTime| match e {
                EventTime::Ready(x) => x.time(),
                EventTime::Nothing(x) => x.time() + 1,
                EventTime::Closed => u64::MAX,
            };
            for a in 0..k {
                for b in 0..k {
                    let (x, y) = (ev_of(a, n), ev_of(b, n));
                    let ok = x.cmp(&y) == key(x).cmp(&key(y)) && x.partial_cmp(&y) == Some(x.cmp(&y)) && (x == y) == (a == b);
                    if !ta.case(if ok { Ok(hash(&(a, b))) } else { Err(format!("{x:?} compared with {y:?} is {:?}", x.cmp(&y))) }) {
                        return;
                    }
                }
            }
        })
    }));
    // many receivers
    let many = progs::large_graphs(tier).into_iter().filter(|x| x.name.starts_with("arbiter") || x.name.starts_with("events")).collect();
    out.extend(super::core::large_jobs(many, true));
    // live receivers
    let chs = if th { vec![b(1, 1, 1), b(2, 3, 1), u(1), u(3)] } else { vec![b(2, 1, 1), u(2)] };
    for c in chs {
        for (i, s0) in [vec![e(0, 1)], vec![Op::Incr(3), e(0, 1)], vec![ef(0, 6, 1), e(0, 2)], vec![Op::Incr(1), Op::DropTx(0), Op::Incr(9)]].into_iter().enumerate() {
            for (j, s1) in [vec![e(1, 5)], vec![Op::Incr(4), e(1, 5)], vec![Op::Incr(2), Op::DropTx(1), Op::Incr(3)]].into_iter().enumerate() {
                for (k, op) in [Op::Any(vec![0, 1]), Op::All(vec![0, 1])].into_iter().enumerate() {
                    let uses0 = s0.iter().any(|o| matches!(o, Op::Enq(..)));
                    let rx = vec![op.clone(), Op::Incr(2), op.clone(), Op::Incr(3), op.clone(), if uses0 { Op::Deq(0) } else { Op::Incr(1) }, op.clone()];
                    let p = Prog::new(vec![c, c], vec![s0.clone(), s1.clone(), rx]);
                    let n = format!("{} {i}{j}{k} {}", if k == 0 { "any" } else { "all" }, cs(&c));
                    let x = progs::p(n, p);
                    for y in [Some(x.inferred()).filter(|_| !x.stuck_peek()), Some(x)].into_iter().flatten() {
                        let d = if th { 3 } else { 2 };
                        out.push(prog_job(format!("{} | {d} delays", y.name), y.p, y.det, delay(d).max(300_000)).cost(5));
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C17

fn source(c: Ch, rx: Vec<Op>, make: super::device::Extra, model: Rc<dyn Fn(&mut Ghost)>) -> Dev {
    Dev {
        p: Prog::new(vec![c], vec![rx]),
        ghosts: vec![vec![e(0, 0)]],
        make,
        model: Rc::new(move |p, vs| {
            let mut g = Ghost::new(p, vs);
            model(&mut g);
            Ok(vec![g.end()?])
        }),
        det: true,
    }
}
pub fn c17(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let k = if th { 4 } else { 3 };
    let mut out = vec![];
    // every step of a random trace is within its limits; from many states of the generator behind it
    out.push(Job::new("random traces", move |cx| {
        cases(cx, |ta| {
            for (min, max) in [(0u64, 0u64), (0, 1), (1, 1), (1, 2), (2, 5), (0, 7), (5, 5), (1_000_000_000_000, 1_000_000_000_001)] {
                for len in [0usize, 1, 2, 9, 40] {
                    for seed in 0..if th { 400 } else { 60 } {
                        fastrand::seed(seed);
                        let v: Vec<(usize, Time)> = dam::utility_contexts::random_trace(len, min, max).collect();
                        let mut last = 0;
                        let mut bad = v.len() != len;
                        for (i, (x, t)) in v.iter().enumerate() {
                            let step = t.time().checked_sub(last);
                            bad |= *x != i || step.is_none() || !(min..=max).contains(&step.unwrap()) || t.is_infinite();
                            last = t.time();
                        }
                        if !ta.case(if bad { Err(format!("random_trace({len}, {min}, {max}) is {v:?}")) } else { Ok(last) }) {
                            return;
                        }
                    }
                }
            }
        })
    }));
    let chs = if th { vec![b(1, 1, 1), b(2, 1, 1), b(1, 2, 3), b(2, 4, 1), u(1), u(3)] } else { vec![b(1, 1, 1), b(2, 2, 3), u(1), u(3)] };
    for c in &chs {
        for r in ["drain", "drain3", "late", "peeky"] {
            for n in [0u64, 1, 3] {
                let d = source(
                    *c,
                    if r == "peeky" { vec![Op::PeekNext(0), Op::Drain(0, 0)] } else { progs::receiver(0, n, r) },
                    Rc::new(move |pb, tx, _| pb.add_child(GeneratorContext::new(move || (0..n as usize).map(|i| i * 3 + 1), tx[0].take().unwrap()))),
                    Rc::new(move |g| {
                        for i in 0..n {
                            g.enq_at(0, g.now + 1, i * 3 + 1);
                            g.incr(1);
                        }
                    }),
                );
                out.push(d.job(format!("generator {n} {} {r} | {k} delays", cs(c)), delay(k).max(60_000)));
                out.push(d.infer().job(format!("generator {n} {} {r} infer | {k} delays", cs(c)), delay(k).max(60_000)));
            }
            for (m, tr) in [vec![(5u64, 1u64), (6, 2), (7, 3)], vec![(5, 4), (6, 4), (7, 9)], vec![(5, 0), (6, 0), (7, 5)], vec![(1, 7), (2, 3)], vec![]].into_iter().enumerate() {
                let tr2 = tr.clone();
                let d = source(
                    *c,
                    if r == "peeky" { vec![Op::PeekNext(0), Op::Drain(0, 0)] } else { progs::receiver(0, tr.len() as u64, r) },
                    Rc::new(move |pb, tx, _| {
                        let tr = tr2.clone();
                        pb.add_child(TraceContext::new(move || tr.into_iter().map(|(v, t)| (v as E, Time::new(t))), tx[0].take().unwrap()))
                    }),
                    Rc::new(move |g| {
                        for (v, t) in &tr {
                            g.adv(t.saturating_sub(1));
                            // the space is awaited before the element is stamped, but its own stamp is the one before
                            g.enq_at(0, g.now + 1, *v);
                        }
                    }),
                );
                out.push(d.job(format!("trace {m} {} {r} | {k} delays", cs(c)), delay(k).max(60_000)));
                out.push(d.infer().job(format!("trace {m} {} {r} infer | {k} delays", cs(c)), delay(k).max(60_000)));
            }
        }
        for (pat, n) in [("burst", 3), ("slow", 2), ("mixed", 3), ("burst", 0)] {
            let tx = if n == 0 { vec![Op::Incr(4), Op::DropTx(0)] } else { progs::sender(0, n, pat) };
            for printer in [false, true] {
                let d = Dev {
                    p: Prog::new(vec![*c], vec![tx.clone()]),
                    ghosts: vec![vec![Op::Deq(0)]],
                    make: Rc::new(move |pb, _, rx| {
                        if printer {
                            pb.add_child(PrinterContext::new(rx[0].take().unwrap()))
                        } else {
                            pb.add_child(ConsumerContext::new(rx[0].take().unwrap()))
                        }
                    }),
                    model: Rc::new(|p, vs| {
                        let mut g = Ghost::new(p, vs);
                        while g.deq(0).is_some() {
                            g.incr(1);
                        }
                        Ok(vec![g.end()?])
                    }),
                    det: true,
                };
                let k = if printer { 1 } else { k };
                let most = if printer { 2_000 } else { 60_000 };
                let nm = format!("{} {pat} {n} {}", if printer { "printer" } else { "consumer" }, cs(c));
                out.push(d.job(format!("{nm} | {k} delays"), delay(k).max(most)));
                out.push(d.infer().job(format!("{nm} infer | {k} delays"), delay(k).max(most)));
            }
        }
    }
    for c in [b(1, 1, 1), b(3, 2, 4), u(2)] {
        for n in [0usize, 1, 3, 40] {
            out.push(Job::new(format!("what a printer prints of {n} {} | 1 delay", cs(&c)), move |cx| prints(cx, c, n)).cost(2));
        }
        for what in ["generator", "trace"] {
            for n in [Some(1usize), Some(2), Some(5), None] {
                for takes in [0usize, 1, 3] {
                    let nm = n.map_or("no end".to_string(), |n| format!("{n} items"));
                    if n.is_none() && c.cap.is_none() {
                        // the receiver has to leave before memory does
                        continue;
                    }
                    out.push(Job::new(format!("{what} of {nm}, of which {takes} are taken {} | 2 delays", cs(&c)), move |cx| left(cx, c, what == "trace", n, takes)).cost(1));
                }
            }
        }
    }
    // long sequences and late times; every single delay
    // a very long sequence, in one schedule
    for (long, k) in [(if th { 150u64 } else { 60 }, 1u16), (if th { 2000 } else { 400 }, 0)] {
    for c in [b(1, 1, 1), b(9, 2, 3), b(2, 300, 1), u(1)] {
        for r in ["drain", "drain3"] {
            let d = source(
                c,
                progs::receiver(0, long, r),
                Rc::new(move |pb, tx, _| pb.add_child(GeneratorContext::new(move || (0..long as usize).map(|i| i * 3 + 1), tx[0].take().unwrap()))),
                Rc::new(move |g| {
                    for i in 0..long {
                        g.enq_at(0, g.now + 1, i * 3 + 1);
                        g.incr(1);
                    }
                }),
            );
            out.push(d.job(format!("generator {long} {} {r} | {k} delay", cs(&c)), delay(k)).cost(20));
            out.push(d.infer().job(format!("generator {long} {} {r} infer | {k} delay", cs(&c)), delay(k)).cost(20));
            for (m, tr) in [
                (0..long * 2 / 3).map(|i| (5 + i, i * i / 2 + 1)).collect::<Vec<_>>(),
                vec![(5, 300), (6, 70_000), (7, 70_000), (8, 5_000_000_000), (9, 5_000_000_001)],
                (0..long / 2).map(|i| (5 + i, 9 + 10 * (i / 10))).collect(),
            ]
            .into_iter()
            .enumerate()
            {
                let tr2 = tr.clone();
                let d = source(
                    c,
                    progs::receiver(0, tr.len() as u64, r),
                    Rc::new(move |pb, tx, _| {
                        let tr = tr2.clone();
                        pb.add_child(TraceContext::new(move || tr.into_iter().map(|(v, t)| (v as E, Time::new(t))), tx[0].take().unwrap()))
                    }),
                    Rc::new(move |g| {
                        for (v, t) in &tr {
                            g.adv(t.saturating_sub(1));
                            g.enq_at(0, g.now + 1, *v);
                        }
                    }),
                );
                out.push(d.job(format!("long trace {m} {} {r} | {k} delay", cs(&c)), delay(k)).cost(20));
                out.push(d.infer().job(format!("long trace {m} {} {r} infer | {k} delay", cs(&c)), delay(k)).cost(20));
            }
        }
        for (nm, feed) in [("burst", progs::sender(0, long, "burst")), ("mixed", progs::sender(0, long, "mixed")), ("late", vec![e(0, 1), Op::Incr(70_000), e(0, 2), Op::Incr(5_000_000_000), ef(0, 4, 3), e(0, 4)])] {
            let d = Dev {
                p: Prog::new(vec![c], vec![feed]),
                ghosts: vec![vec![Op::Deq(0)]],
                make: Rc::new(move |pb, _, rx| pb.add_child(ConsumerContext::new(rx[0].take().unwrap()))),
                model: Rc::new(|p, vs| {
                    let mut g = Ghost::new(p, vs);
                    while g.deq(0).is_some() {
                        g.incr(1);
                    }
                    Ok(vec![g.end()?])
                }),
                det: true,
            };
            out.push(d.job(format!("long consumer {nm} {} | {k} delay", cs(&c)), delay(k)).cost(20));
            out.push(d.infer().job(format!("long consumer {nm} {} infer | {k} delay", cs(&c)), delay(k)).cost(20));
        }
    }
    }
    {
        let want: Vec<usize> = (0..24).map(|i| i * 7 % 5).collect();
        for bad in 0..=want.len() {
            // a wrong element at each position, and a stream that ends there
            let mut wrong = want.clone();
            if bad < wrong.len() {
                wrong[bad] += 1;
            }
            for (nm, got) in [("wrong", wrong), ("short", want[..bad].to_vec())] {
                for approx in [false, true] {
                    if approx && bad % 6 != 5 {
                        continue;
                    }
                    let (want, got) = (want.clone(), got.clone());
                    let c = if bad % 2 == 0 { b(3, 1, 1) } else { u(1) };
                    out.push(Job::new(format!("{} of {} elements, {nm} at {bad} | 1 delay", if approx { "approximate checker" } else { "checker" }, want.len()), move |cx| checker(cx, c, if approx { Some(same) } else { None }, want.clone(), got.clone())).cost(2));
                }
            }
        }
    }
    // Checkers: every pair of expected and actual streams
    let lists: Vec<Vec<usize>> = {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..if th { 3 } else { 2 } {
            last = last.iter().flat_map(|w| (0..2).map(move |x| [w.clone(), vec![x + 4]].concat())).collect();
            v.extend(last.clone());
        }
        v
    };
    for c in [b(1, 1, 1), u(1)] {
        for approx in [false, true] {
            for want in &lists {
                for got in &lists {
                    let (want, got) = (want.clone(), got.clone());
                    let id = format!("{} {want:?} against {got:?} {} | 1 delay", if approx { "approximate checker" } else { "checker" }, cs(&c));
                    out.push(Job::new(id, move |cx| checker(cx, c, if approx { Some(same) } else { None }, want.clone(), got.clone())).cost(0));
                }
            }
        }
    }
    // comparisons that are not symmetric, not exact, or accept or refuse anything
    let hows: [(&str, fn(&usize, &usize) -> bool); 5] = [
        ("at least", |want, got| got >= want),
        ("at most", |want, got| got <= want),
        ("one more is fine", |want, got| *got == *want || *got == want + 1),
        ("anything", |_, _| true),
        ("nothing", |_, _| false),
    ];
    for (nm, how) in hows {
        for c in [b(1, 1, 1), u(2)] {
            for want in &lists {
                for got in &lists {
                    if want.len() < 2 && !th && c.cap.is_none() {
                        continue;
                    }
                    let (want, got) = (want.clone(), got.clone());
                    out.push(Job::new(format!("checker that accepts {nm} {want:?} against {got:?} {} | 1 delay", cs(&c)), move |cx| checker(cx, c, Some(how), want.clone(), got.clone())).cost(0));
                }
            }
        }
    }
    // function contexts do what their function does, when it does it
    for x in progs::shapes(tier).into_iter().chain(progs::closing(tier)).filter(|x| !x.name.ends_with("rev")) {
        let x = x.styled(Style::Func);
        let n = format!("{} | 1 delay", x.name);
        out.push(prog_job(n, x.p, x.det, delay(1)).cost(x.cost));
    }
    out.push(Job::new("a context that has already run refuses to run again", |cx| {
        every_schedule(
            cx,
            dpor(),
            true,
            || {
                let mut pb = ProgramBuilder::default();
                let f = FunctionContext::<fn(&mut dam::structures::TimeManager)>::new();
                let id = ident(&f);
                pb.add_child(f);
                let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
                (id, ex.passed(), ex.run_failures(|f| f.iter().map(|e| e.to_string()).collect::<Vec<_>>()))
            },
            |r| {
                finished(r, &mut |(id, passed, fs)| {
                    let want = vec![format!("Simulation of {id} failed with message Cannot execute a context more than once!")];
                    if passed || fs != want {
                        return Err(format!("reported {fs:?}"));
                    }
                    Ok(0)
                })
            },
        )
    }));
    out
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
/// A printer shows every element once, in order, on the standard output.
fn prints(cx: &Ctx, c: Ch, n: usize) -> crate::job::Outcome {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    let path = std::env::temp_dir().join(format!("printer-{}", std::process::id()));
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch file");
    let _ = std::fs::remove_file(&path);
    let _ = std::io::stdout().flush();
    let file = Rc::new(file);
    let (f2, items) = (file.clone(), (0..n).map(|i| 1000 + (i * 37 + 5) % 101).collect::<Vec<usize>>());
    let want = items.clone();
    let old = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let out = every_schedule(
        cx,
        delay(1).max(2_000),
        true,
        move || {
            let mut f: &std::fs::File = &f2;
            f.set_len(0).unwrap();
            f.rewind().unwrap();
            let mut pb = ProgramBuilder::default();
            let (s, r) = chan::<E>(&mut pb, c);
            let it = items.clone();
            pb.add_child(GeneratorContext::new(move || it.into_iter(), s));
            pb.add_child(PrinterContext::new(r.unwrap()));
            let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
            let _ = std::io::stdout().flush();
            f.rewind().unwrap();
            let mut t = String::new();
            f.read_to_string(&mut t).unwrap();
            (ex.passed(), t)
        },
        |r| {
            finished(r, &mut |(passed, t)| {
                let lines: Vec<Vec<&str>> = t.lines().map(|l| l.split(|c: char| !c.is_ascii_digit()).collect()).collect();
                let right = lines.len() == want.len() && lines.iter().zip(&want).all(|(l, w)| l.contains(&w.to_string().as_str()));
                if !passed || !right {
                    return Err(format!("passed {passed}, printed {t:?}, expected {want:?}"));
                }
                Ok(0)
            })
        },
    );
    let _ = std::io::stdout().flush();
    unsafe { dup2(old, 1) };
    drop(unsafe { <std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(old) });
    out
}
/// A source whose receiver leaves: what was sent arrives, and it fails, rather than finish before its stream is done.
fn left(cx: &Ctx, c: Ch, trace: bool, n: Option<usize>, takes: usize) -> crate::job::Outcome {
    every_schedule(
        cx,
        delay(2).max(60_000),
        false,
        move || {
            let mut pb = ProgramBuilder::default();
            let (s, r) = chan::<E>(&mut pb, c);
            let r = r.unwrap();
            let items = move || (0..n.unwrap_or(usize::MAX)).map(|i| i * 3 + 1);
            let id;
            if trace {
                let src = TraceContext::new(move || items().map(|x| (x, Time::new(x as u64))), s);
                id = ident(&src);
                pb.add_child(src);
            } else {
                let src = GeneratorContext::new(items, s);
                id = ident(&src);
                pb.add_child(src);
            }
            let log = Sh::new(vec![]);
            let l2 = log.clone();
            let mut f = FunctionContext::new();
            r.attach_receiver(&f);
            f.set_run(move |tm: &mut dam::structures::TimeManager| {
                for _ in 0..takes {
                    match r.dequeue(tm) {
                        Ok(e) => l2.with(|l| l.push(e.data)),
                        Err(_) => break,
                    }
                }
            });
            pb.add_child(f);
            let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
            (id, log.get(), ex.passed(), ex.run_failures(|f| f.iter().map(|e| e.to_string()).collect::<Vec<_>>()))
        },
        move |r| {
            finished(r, &mut |(id, got, passed, fs)| {
                let all = n.unwrap_or(usize::MAX);
                let m = takes.min(all);
                if got != (0..m).map(|i| i * 3 + 1).collect::<Vec<_>>() {
                    return Err(format!("received {got:?}"));
                }
                // items that fit nowhere cannot be sent; those that do may or may not be before the receiver leaves
                let must = c.cap.is_some_and(|k| all > takes.saturating_add(k));
                let may = all > takes;
                if passed != fs.is_empty() || fs.is_empty() && must || !fs.is_empty() && !may {
                    return Err(format!("{takes} of {n:?} items were taken: passed {passed}, failures {fs:?}"));
                }
                if fs.len() > 1 || fs.iter().any(|f| !f.starts_with(&format!("Simulation of {id} failed"))) {
                    return Err(format!("failures are {fs:?}, the source is {id}"));
                }
                Ok(0)
            })
        },
    )
}
fn same(a: &usize, b: &usize) -> bool {
    a == b
}
/// `how`: what the approximate checker is told to accept; None is the exact one
fn checker(cx: &Ctx, c: Ch, how: Option<fn(&usize, &usize) -> bool>, want: Vec<usize>, got: Vec<usize>) -> crate::job::Outcome {
    let accepts = how.unwrap_or(|a, b| a == b);
    let approx = how.is_some();
    let first_bad = want.iter().zip(got.iter()).position(|(a, b)| !accepts(a, b));
    let short = first_bad.is_none() && got.len() < want.len();
    let (w2, g2) = (want.clone(), got.clone());
    every_schedule(
        cx,
        delay(1),
        true,
        move || {
            let mut pb = ProgramBuilder::default();
            let (s, r) = chan::<E>(&mut pb, c);
            let mut f = FunctionContext::new();
            s.attach_sender(&f);
            let g = g2.clone();
            f.set_run(move |tm: &mut dam::structures::TimeManager| {
                for x in g {
                    if s.enqueue(tm, ChannelElement::new(tm.tick(), x)).is_err() {
                        return;
                    }
                    tm.incr_cycles(1);
                }
            });
            pb.add_child(f);
            let w = w2.clone();
            let id;
            if let Some(f) = how {
                let ch = ApproxCheckerContext::new(move || w.into_iter(), r.unwrap(), f);
                id = ident(&ch);
                pb.add_child(ch);
            } else {
                let ch = CheckerContext::new(move || w.into_iter(), r.unwrap());
                id = ident(&ch);
                pb.add_child(ch);
            }
            let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
            (id, ex.passed(), ex.run_failures(|f| f.iter().map(|e| format!("{e}; {e:#?}")).collect::<Vec<_>>()))
        },
        |r| {
            if approx && first_bad.is_some() {
                // reported by a panic
                return match r.end {
                    dam_mc::rt::End::Panicked(_) => Ok(1),
                    dam_mc::rt::End::Done => match r.value.unwrap() {
                        (_, false, f) if !f.is_empty() => Ok(1),
                        v => Err(format!("{got:?} accepted for {want:?}: {v:?}")),
                    },
                    e => Err(format!("{e:?}")),
                };
            }
            finished(r, &mut |(id, passed, fs)| {
                let ok = first_bad.is_none() && !short;
                if passed != ok || passed != fs.is_empty() {
                    return Err(format!("{got:?} against the expected {want:?}: passed {passed}, failures {fs:?}"));
                }
                if !ok {
                    let named = fs.len() == 1 && fs[0].starts_with(&format!("Simulation of {id} failed"));
                    let says = match first_bad {
                        Some(i) => fs[0].contains(&format!("iteration {i}:")) && fs[0].contains("Mismatch"),
                        None => fs[0].contains("prematurely closed") && fs[0].contains(&format!("iteration: {},", got.len())),
                    };
                    if !named || !says {
                        return Err(format!("{got:?} against the expected {want:?} reported as {fs:?}"));
                    }
                }
                Ok(0)
            })
        },
    )
}

// ---------------------------------------------------------------- C23

pub fn c23(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    v.extend(progs::pc(tier));
    v.extend(progs::peeking(tier));
    v.extend(progs::closing(tier));
    v.extend(progs::pressure(tier));
    let mut out = vec![];
    for x in v {
        let x = x.styled(Style::Adapt);
        let k = if th { 3 } else { 2 };
        if !x.stuck_peek() {
            let y = x.inferred();
            out.push(prog_job(format!("{} | {k} delays", y.name), y.p, y.det, delay(k).max(200_000)));
        }
        out.push(prog_job(format!("{} | {k} delays", x.name), x.p, x.det, delay(k).max(200_000)));
    }
    let mut large = progs::large_streams(tier);
    large.extend(progs::large_times(tier));
    large.extend(progs::large_closing(tier));
    out.extend(super::core::large_jobs(large.into_iter().map(|x| x.styled(Style::Adapt)).collect(), true));
    if th {
        for x in progs::shapes(tier) {
            let x = x.styled(Style::Adapt);
            out.push(prog_job(format!("{} | 2 delays", x.name), x.p, x.det, delay(2)).cost(x.cost));
        }
    }
    // a value that does not convert is a failure of the context, not a wrong value
    for op in ["dequeue", "peek", "peek_next"] {
        for v in [7usize, 255, 256, 70000] {
            out.push(Job::new(format!("adapter {op} of {v} as u8"), move |cx| {
                every_schedule(
                    cx,
                    delay(2),
                    true,
                    move || {
                        let mut pb = ProgramBuilder::default();
                        let (s, r) = pb.unbounded::<E>();
                        pb.add_child(GeneratorContext::new(move || [v].into_iter(), s));
                        let log = Sh::new(vec![]);
                        pb.add_child(Narrow::new(op, r, log.clone()));
                        let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
                        (log.get(), ex.passed())
                    },
                    move |r| {
                        finished(r, &mut |(log, passed)| {
                            let fits = v < 256;
                            if passed != fits || fits && log != vec![v as u8] || !fits && !log.is_empty() {
                                return Err(format!("{op} of {v}: got {log:?}, passed {passed}"));
                            }
                            Ok(0)
                        })
                    },
                )
            }));
        }
    }
    out
}
#[context_macro]
pub struct Narrow {
    op: &'static str,
    r: Receiver<E>,
    log: Sh<Vec<u8>>,
}
impl Narrow {
    fn new(op: &'static str, r: Receiver<E>, log: Sh<Vec<u8>>) -> Self {
        let s = Self { op, r, log, context_info: Default::default() };
        dam::channel::adapters::RecvAdapter::<u8>::attach_receiver(&s.r, &s);
        s
    }
}
impl Context for Narrow {
    fn run(&mut self) {
        use dam::channel::adapters::RecvAdapter;
        use dam::channel::PeekResult;
        let v: u8 = match self.op {
            "dequeue" => RecvAdapter::<u8>::dequeue(&self.r, &self.time).unwrap().data,
            "peek_next" => RecvAdapter::<u8>::peek_next(&self.r, &self.time).unwrap().data,
            _ => loop {
                match RecvAdapter::<u8>::peek(&self.r) {
                    PeekResult::Something(e) => break e.data,
                    PeekResult::Nothing(t) => self.time.advance(t + 1),
                    PeekResult::Closed => return,
                }
            },
        };
        self.log.with(|l| l.push(v));
    }
}
#[allow(unused)]
fn keep(p: &Prog) -> bool {
    oracle::finishes(p)
}
