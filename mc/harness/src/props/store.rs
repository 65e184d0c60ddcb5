//! The time-travelling store and the pattern memory unit on top of it.
use super::device::Dev;
use super::progs::{e, ef};
use crate::dsl::*;
use crate::job::*;
use crate::oracle::Ghost;
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Time, TimeManager};
use dam::templates::datastore::{Behavior, Datastore};
use dam::templates::pmu::*;
use dam::utility_contexts::FunctionContext;
use dam::structures::TimeViewable;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

/// all sequences over `a` of length `n`
pub fn seqs<T: Clone>(a: &[T], n: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|w: Vec<T>| a.iter().map(move |x| [w.clone(), vec![x.clone()]].concat())).collect();
    }
    v
}

/// The store as specified: the last write at or before the read time.
pub fn visible(h: &[(u64, E)], t: u64) -> Option<E> {
    h.iter().filter(|x| x.0 <= t).last().map(|x| x.1)
}

// ---------------------------------------------------------------- C12

/// A store that is built anew after it refused something: what remains usable after that is not specified.
struct Fresh {
    cap: usize,
    bh: Behavior,
    writes: Vec<(usize, E, u64)>,
    ds: Datastore<E>,
}
impl Fresh {
    fn new(cap: usize, bh: Behavior) -> Self {
        Fresh { cap, bh, writes: vec![], ds: Datastore::new(cap, bh) }
    }
    fn again(&mut self) {
        self.ds = Datastore::new(self.cap, self.bh);
        for (a, v, t) in &self.writes {
            self.ds.write(*a, *v, Time::new(*t));
        }
    }
    fn write(&mut self, a: usize, v: E, t: u64) -> bool {
        let ok = catch_unwind(AssertUnwindSafe(|| self.ds.write(a, v, Time::new(t)))).is_ok();
        if ok {
            self.writes.push((a, v, t));
        } else {
            self.again();
        }
        ok
    }
    fn read(&mut self, a: usize, t: u64) -> Option<E> {
        let tm = if t == INF { Time::infinite() } else { Time::new(t) };
        let r = catch_unwind(AssertUnwindSafe(|| self.ds.read(a, tm))).ok();
        if r.is_none() {
            self.again();
        }
        r
    }
}

fn store_history(cap: usize, bh: Behavior, writes: &[(usize, u64)], reads: &[u64]) -> Result<u64, String> {
    let mut ds = Fresh::new(cap, bh);
    let mut model: BTreeMap<usize, Vec<(u64, E)>> = Default::default();
    let real = |a: usize| if a < cap { Some(a) } else if bh.mod_address { Some(a % cap) } else { None };
    let mut k = vec![];
    for i in 0..=writes.len() {
        for a in 0..cap + 2 {
            for t in reads {
                let want = real(a).and_then(|a| {
                    let v = model.get(&a).and_then(|h| visible(h, *t));
                    v.or(bh.use_default_value.then_some(0))
                });
                let got = ds.read(a, *t);
                if want != got {
                    return Err(format!("{bh:?} capacity {cap}, writes {:?}: read of {a} at {t} gives {got:?} (None: refused), expected {want:?}", &writes[..i]));
                }
                k.push(want);
            }
        }
        let Some((a, t)) = writes.get(i) else { break };
        let ok = ds.write(*a, 100 + i, *t);
        let fits = real(*a).is_some_and(|a| model.get(&a).and_then(|h| h.last()).map(|l| l.0 < *t).unwrap_or(true));
        if ok != fits {
            return Err(format!("{bh:?} capacity {cap}: write {i} of {writes:?} accepted: {ok}"));
        }
        if !ok {
            break;
        }
        model.entry(real(*a).unwrap()).or_default().push((*t, 100 + i));
    }
    Ok(hash(&k))
}

/// Write number i goes to address i*spread at time (i+1)*step; some reads of the past after each write, all at the end.
fn long_history(cap: usize, bh: Behavior, n: usize, step: u64, spread: usize) -> Result<u64, String> {
    let mut ds = Fresh::new(cap, bh);
    let mut model: BTreeMap<usize, Vec<(u64, E)>> = Default::default();
    let real = |a: usize| if a < cap { Some(a) } else if bh.mod_address { Some(a % cap) } else { None };
    let mut k = 0u64;
    let mut refusals = 0;
    let mut probe = |ds: &mut Fresh, model: &BTreeMap<usize, Vec<(u64, E)>>, a: usize, t: u64| {
        let want = real(a).and_then(|a| {
            let h = model.get(&a);
            // the histories are in order
            let v = h.and_then(|h| h[..h.partition_point(|x| x.0 <= t)].last().map(|x| x.1));
            v.or(bh.use_default_value.then_some(0))
        });
        if want.is_none() {
            // each of these builds the store anew
            refusals += 1;
            if refusals > 40 {
                return Ok(());
            }
        }
        let got = ds.read(a, t);
        if want != got {
            return Err(format!("{bh:?} capacity {cap}, after {} writes every {step}: read of {a} at {t} gives {got:?} (None: refused), expected {want:?}", model.values().map(|h| h.len()).sum::<usize>()));
        }
        k = hash(&(k, want));
        Ok(())
    };
    for i in 0..n {
        let a = i * spread;
        let t = (i as u64 + 1) * step;
        let ok = ds.write(a, 100 + i, t);
        if ok != real(a).is_some() {
            return Err(format!("{bh:?} capacity {cap}: write {i} to {a} accepted: {ok}"));
        }
        if ok {
            model.entry(real(a).unwrap()).or_default().push((t, 100 + i));
        }
        for x in [0, i / 2 * spread, a] {
            if real(x).is_none() {
                continue;
            }
            for y in [0, step, t / 2, t - 1, t, t + 1, INF] {
                probe(&mut ds, &model, x, y)?;
            }
        }
    }
    for a in (0..cap).step_by(1 + cap / 50).chain([cap - 1, cap, 2 * cap + 1]) {
        for i in (0..=n as u64).step_by(1 + n / 150).chain([n as u64 + 1]) {
            for t in [i * step, i * step + 1, (i * step).saturating_sub(1)] {
                probe(&mut ds, &model, a, t)?;
            }
        }
    }
    Ok(k)
}

#[derive(Clone, Debug)]
enum W {
    Incr(u64),
    /// write this far in the future of the writer's clock
    At(u64),
}

/// A writer context and a reader context sharing a store.
fn time_travel(ws: Vec<W>, reads: Vec<u64>, sync: bool, opt: Opt) -> Job {
    let id = format!("{} writes {ws:?} reads {reads:?}", if sync { "synchronized" } else { "unsynchronized" });
    // reference: (time, value) history and, per write, the writer's clock
    let mut hist = vec![];
    let mut now = 0;
    for (i, w) in ws.iter().enumerate() {
        match w {
            W::Incr(n) => now += n,
            W::At(d) => hist.push((now + d, i + 1)),
        }
    }
    Job::new(id, move |cx| {
        let (ws, reads2, reads, hist) = (ws.clone(), reads.clone(), reads.clone(), hist.clone());
        every_schedule(
            cx,
            opt,
            sync,
            move || {
                let mut pb = ProgramBuilder::default();
                let ds = Arc::new(Datastore::<E>::new(1, Behavior { mod_address: false, use_default_value: true }));
                let mut w = FunctionContext::new();
                let view = w.view();
                let d = ds.clone();
                let ws = ws.clone();
                w.set_run(move |tm: &mut TimeManager| {
                    for (i, w) in ws.iter().enumerate() {
                        match w {
                            W::Incr(n) => tm.incr_cycles(*n),
                            W::At(x) => d.write(0, i + 1, tm.tick() + *x),
                        }
                    }
                });
                let log = Sh::new(vec![]);
                let (l, rs) = (log.clone(), reads2.clone());
                let mut r = FunctionContext::new();
                r.set_run(move |tm: &mut TimeManager| {
                    for t in rs {
                        tm.advance(Time::new(t));
                        if sync {
                            // the writer may still write at its local time
                            view.wait_until(tm.tick() + 1);
                        }
                        let v = ds.read(0, tm.tick());
                        l.with(|l| l.push(v));
                    }
                });
                pb.add_child(r);
                pb.add_child(w);
                let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
                (log.get(), ex.passed())
            },
            |r| {
                finished(r, &mut |(got, passed)| {
                    if !passed || got.len() != reads.len() {
                        return Err(format!("failed: {got:?}"));
                    }
                    let mut lo = 0;
                    for (v, t) in got.iter().zip(&reads) {
                        if sync {
                            let want = visible(&hist, *t).unwrap_or(0);
                            if *v != want {
                                return Err(format!("the read at {t} gives {v}, the value at that time is {want}"));
                            }
                        } else {
                            // whatever part of the history the writer got through
                            let Some(n) = (lo..=hist.len()).find(|n| visible(&hist[..*n], *t).unwrap_or(0) == *v) else {
                                return Err(format!("the read at {t} gives {v}, never the value at that time"));
                            };
                            lo = n;
                        }
                    }
                    Ok(hash(&got))
                })
            },
        )
    })
}

pub fn c12(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    for cap in 1..=2usize {
        for (m, d) in [(false, false), (false, true), (true, false), (true, true)] {
            let bh = Behavior { mod_address: m, use_default_value: d };
            let times = if th { 5 } else { 4 };
            let ops: Vec<(usize, u64)> = (0..cap + 2).flat_map(|a| (0..times).map(move |t| (a, t))).collect();
            let n = if th { 4 } else { 3 };
            let reads: Vec<u64> = (0..times + 1).chain([INF]).collect();
            for first in ops.clone() {
                let (ops, reads) = (ops.clone(), reads.clone());
                out.push(Job::new(format!("histories of {n} writes, capacity {cap}, {bh:?}, starting {first:?}"), move |cx| {
                    cases(cx, |ta| {
                        for rest in seqs(&ops, n - 1) {
                            let h = [vec![first], rest].concat();
                            let reads = reads.clone();
                            let h2 = h.clone();
                            let r = once(move || store_history(cap, bh, &h2, &reads));
                            let r = match r.end {
                                dam_mc::rt::End::Done => r.value.unwrap(),
                                e => Err(format!("{h:?}: {e:?}")),
                            };
                            if !ta.case(r) {
                                return;
                            }
                        }
                    })
                }));
            }
        }
    }
    // long histories, large stores, late times: what was visible at some instant after every write
    for (cap, n) in if th { vec![(1usize, 700usize), (3, 300), (64, 400), (1000, 60), (70_000, 6)] } else { vec![(1, 300), (3, 150), (64, 200), (1000, 30)] } {
        for step in [1u64, 3, 400, 70_000, 5_000_000_000] {
            for spread in [0usize, 1, 7, 333] {
                for (m, d) in [(true, true), (false, true), (true, false)] {
                    let bh = Behavior { mod_address: m, use_default_value: d };
                    out.push(Job::new(format!("long history of {n} writes every {step}, stride {spread}, capacity {cap}, {bh:?}"), move |cx| {
                        cases(cx, |ta| {
                            let r = once(move || long_history(cap, bh, n, step, spread));
                            ta.case(match r.end {
                                dam_mc::rt::End::Done => r.value.unwrap(),
                                e => Err(format!("{e:?}")),
                            });
                        })
                    }));
                }
            }
        }
    }
    for every in [1u64, 3] {
        let n = if th { 40 } else { 18 };
        let ws: Vec<W> = (0..n).flat_map(|i| [W::Incr(every), W::At(i % 3)]).collect();
        let far: Vec<W> = (0..n).flat_map(|_| [W::Incr(1 << 33), W::At(every)]).collect();
        for sync in [true, false] {
            if every > 2 {
                out.push(time_travel(ws.clone(), (0..n / 2).map(|i| 4 * i + 1).collect(), sync, delay(1)).cost(10));
            }
            out.push(time_travel(far.clone(), (0..n).map(|i| (i << 32) + i).collect(), sync, delay(1)).cost(10));
        }
    }
    let alpha = [W::Incr(1), W::Incr(2), W::At(0), W::At(2)];
    for n in 1..=if th { 5 } else { 4 } {
        for ws in seqs(&alpha, n) {
            // strictly increasing write times only
            let mut now = 0;
            let mut last = None;
            let mut ok = matches!(ws.last(), Some(W::At(_)));
            for w in &ws {
                match w {
                    W::Incr(k) => now += k,
                    W::At(d) => {
                        ok &= last.map(|l| l < now + d).unwrap_or(true);
                        last = Some(now + d);
                    }
                }
            }
            if !ok {
                continue;
            }
            let rs: Vec<Vec<u64>> = if th {
                (0..5).flat_map(|a| (a..5).map(move |b| vec![a, b])).collect()
            } else {
                vec![vec![0, 2], vec![1, 3], vec![2, 4]]
            };
            for r in rs {
                for sync in [true, false] {
                    out.push(time_travel(ws.clone(), r.clone(), sync, if n <= 2 { dpor() } else { delay(if th { 4 } else { 3 }) }).cost(0));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C13

/// the channels of a unit: readers (address, response), writers (address, data, acknowledgement)
#[derive(Clone)]
pub struct Unit {
    pub cap: usize,
    pub bh: Behavior,
    pub readers: Vec<(usize, usize)>,
    pub writers: Vec<(usize, usize, usize)>,
}
pub fn pmu_dev(chans: Vec<Ch>, ctxs: Vec<Vec<Op>>, un: Unit, det: bool) -> Dev {
    let mut rg = vec![];
    for (a, r) in &un.readers {
        rg.extend([Op::Deq(*a), e(*r, 0)]);
    }
    let mut wg = vec![];
    for (a, d, k) in &un.writers {
        wg.extend([Op::Deq(*a), Op::Deq(*d), e(*k, 0)]);
    }
    let u2 = un.clone();
    Dev {
        p: Prog::new(chans, ctxs),
        ghosts: vec![wg, rg],
        make: Rc::new(move |pb, tx, rx| {
            let mut pmu = PMU::<E, E, E>::new(u2.cap, u2.bh);
            for (a, d, k) in &u2.writers {
                pmu.add_writer(PMUWriteBundle { addr: rx[*a].take().unwrap(), data: rx[*d].take().unwrap(), ack: tx[*k].take().unwrap() });
            }
            for (a, r) in &u2.readers {
                pmu.add_reader(PMUReadBundle { addr: rx[*a].take().unwrap(), resp: tx[*r].take().unwrap() });
            }
            pb.add_child(pmu);
        }),
        model: Rc::new(move |p, vs| {
            let mut w = Ghost::new(p, vs);
            let mut store: BTreeMap<usize, Vec<(u64, E)>> = Default::default();
            let at = |a: u64| a as usize % un.cap;
            loop {
                let next = un
                    .writers
                    .iter()
                    .enumerate()
                    .filter_map(|(i, (a, d, _))| Some((w.head(*a)?.0.max(w.head(*d)?.0), i)))
                    .min();
                let Some((t, i)) = next else { break };
                let (a, d, k) = un.writers[i];
                w.adv(t);
                let (_, addr) = w.deq(a).unwrap();
                let (_, v) = w.deq(d).unwrap();
                store.entry(at(addr)).or_default().push((w.now, v as E));
                w.enq_at(k, w.now, 0);
                w.incr(1);
            }
            for (a, d, _) in &un.writers {
                for x in [a, d] {
                    if w.head(*x).is_none() {
                        w.closed(*x);
                    }
                }
            }
            let mut r = Ghost::new(p, vs);
            loop {
                let next = un.readers.iter().enumerate().filter_map(|(i, (a, _))| Some((r.head(*a)?.0, i))).min();
                let Some((t, i)) = next else { break };
                let (a, k) = un.readers[i];
                r.adv(t);
                let (_, addr) = r.deq(a).unwrap();
                let v = store.get(&at(addr)).and_then(|h| visible(h, r.now)).unwrap_or(0);
                r.enq_at(k, r.now, v as u64);
                r.incr(1);
            }
            for (a, _) in &un.readers {
                r.closed(*a);
            }
            Ok(vec![w.end()?, r.end()?])
        }),
        det,
    }
}

/// A context that waits on the view of the unit itself and then looks at one of its outputs.
fn watched(id: String, w: Vec<(u64, usize)>, r: Vec<u64>, ts: Vec<u64>, acks: bool, opt: Opt) -> Job {
    let bh = Behavior { mod_address: true, use_default_value: true };
    let want = if acks { w.len() } else { r.len() };
    Job::new(id, move |cx| {
        let (w, r, ts) = (w.clone(), r.clone(), ts.clone());
        every_schedule(
            cx,
            opt,
            true,
            move || {
                let mut pb = ProgramBuilder::default();
                let (was, war) = pb.unbounded::<E>();
                let (wds, wdr) = pb.unbounded::<E>();
                let (ks, kr) = pb.unbounded::<E>();
                let (ras, rar) = pb.unbounded::<E>();
                let (rs, rr) = pb.unbounded::<E>();
                let mut pmu = PMU::<E, E, E>::new(1, bh);
                pmu.add_writer(PMUWriteBundle { addr: war, data: wdr, ack: ks });
                pmu.add_reader(PMUReadBundle { addr: rar, resp: rs });
                let view = pmu.view();
                let (rx, other) = if acks { (kr, rr) } else { (rr, kr) };
                let mut f = FunctionContext::new();
                was.attach_sender(&f);
                wds.attach_sender(&f);
                let w = w.clone();
                f.set_run(move |tm: &mut TimeManager| {
                    for (t, v) in w {
                        tm.advance(Time::new(t));
                        was.enqueue(tm, ChannelElement::new(tm.tick(), 0)).unwrap();
                        wds.enqueue(tm, ChannelElement::new(tm.tick(), v)).unwrap();
                    }
                });
                let mut g = FunctionContext::new();
                ras.attach_sender(&g);
                let r = r.clone();
                g.set_run(move |tm: &mut TimeManager| {
                    for t in r {
                        tm.advance(Time::new(t));
                        ras.enqueue(tm, ChannelElement::new(tm.tick(), 0)).unwrap();
                    }
                });
                let log = Sh::new((vec![], vec![]));
                let l = log.clone();
                let ts = ts.clone();
                let mut o = FunctionContext::new();
                rx.attach_receiver(&o);
                other.attach_receiver(&o);
                o.set_run(move |tm: &mut TimeManager| {
                    // one look only: a later one may repeat the answer of the first
                    for (i, t) in ts.iter().copied().enumerate() {
                        let got = view.wait_until(Time::new(t));
                        let lb = view.tick_lower_bound();
                        // what is known now can only come after the unit got there
                        let nothing = i + 1 == ts.len() && matches!(rx.peek(), dam::channel::PeekResult::Nothing(_));
                        l.with(|l| l.0.push((t, got, lb, nothing)));
                    }
                    while let Ok(e) = rx.dequeue(tm) {
                        l.with(|l| l.1.push(e.time));
                    }
                    while other.dequeue(tm).is_ok() {}
                });
                pb.add_child(o);
                pb.add_child(pmu);
                pb.add_child(f);
                pb.add_child(g);
                let ex = pb.initialize(Default::default()).unwrap().run(Default::default());
                (log.get(), ex.passed())
            },
            |r| {
                finished(r, &mut |((seen, got), passed)| {
                    if !passed || got.len() != want {
                        return Err(format!("failed: {got:?}"));
                    }
                    for (t, g, lb, s) in &seen {
                        if *g < Time::new(*t) || lb < g {
                            return Err(format!("waiting for {t} gives {g:?}, then the unit is at {lb:?}"));
                        }
                        if *s {
                            if let Some(x) = got.iter().find(|x| **x < *g) {
                                return Err(format!("the unit had reached {g:?} with nothing sent, an element arrives at {x:?}"));
                            }
                        }
                    }
                    Ok(hash(&format!("{got:?}")))
                })
            },
        )
    })
}

pub fn c13(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let k = if th { 3 } else { 2 };
    let bh = Behavior { mod_address: true, use_default_value: true };
    let mut out = vec![];
    let mut add = |id: String, d: Dev, infer: bool, k: u16, c: u32| {
        if infer {
            out.push(d.clone().infer().job(format!("{id} infer | {k} delays"), delay(k).max(if th { 300_000 } else { 25_000 })).cost(c));
        }
        out.push(d.job(format!("{id} | {k} delays"), delay(k).max(if th { 300_000 } else { 25_000 })).cost(c));
    };
    // waddr 0, wdata 1, ack 2, raddr 3, resp 4
    let un = Unit { cap: 2, bh, readers: vec![(3, 4)], writers: vec![(0, 1, 2)] };
    // reads around the time of the writes: one script feeds everything, one collects
    let wts: &[&[(u64, u64)]] = if th {
        &[&[(0, 3)], &[(0, 2), (0, 5)], &[(0, 3), (1, 3)], &[(1, 1), (0, 6)], &[(0, 2), (2, 4)], &[]]
    } else {
        &[&[(0, 3)], &[(0, 2), (0, 5)], &[(2, 3), (0, 3)]]
    };
    let rts: &[&[(u64, u64)]] = if th {
        &[&[(0, 1)], &[(0, 2)], &[(0, 3)], &[(0, 4)], &[(0, 3), (0, 3)], &[(0, 2), (1, 5)], &[(1, 3), (0, 4)], &[(3, 1), (2, 7)]]
    } else {
        &[&[(0, 1)], &[(0, 2)], &[(0, 3)], &[(0, 4)], &[(0, 5)], &[(0, 2), (2, 5)]]
    };
    for w in wts {
        for r in rts {
            for c in [u(1), b(3, 1, 1)] {
                let mut f = vec![];
                for (i, (a, t)) in w.iter().enumerate() {
                    f.extend([ef(0, *t, *a), ef(1, *t, 50 + i as u64)]);
                }
                if w.is_empty() {
                    f.extend([Op::DropTx(0), Op::DropTx(1)]);
                }
                let mut g = vec![];
                for (a, t) in r.iter() {
                    g.push(ef(3, *t, *a));
                }
                let nm = format!("writes {w:?} reads {r:?} {}", if c.cap.is_some() { "b3" } else { "u" });
                let d = pmu_dev(vec![c; 5], vec![f.clone(), g.clone(), vec![Op::Drain(2, 0), Op::Drain(4, 0)]], un.clone(), true);
                add(nm, d, true, k, 4);
            }
        }
    }
    // address and data at different times, from different contexts
    for (ta, td) in [(1u64, 4u64), (4, 1), (0, 3), (3, 0)] {
        let d = pmu_dev(
            vec![b(2, 1, 1), u(1), u(1), u(2), b(2, 1, 1)],
            vec![
                vec![Op::Incr(ta), e(0, 0), e(0, 1)],
                vec![Op::Incr(td), e(1, 50), Op::Incr(2), e(1, 51)],
                vec![Op::Incr(3), e(3, 0), e(3, 1)],
                vec![Op::Drain(2, 0), Op::Drain(4, 0)],
            ],
            un.clone(),
            true,
        );
        add(format!("address {ta} data {td}"), d, true, k - 1, 4);
    }
    // acknowledged writes, then reads
    for c in [b(1, 1, 1), b(2, 3, 2), u(1)] {
        let d = pmu_dev(
            vec![c; 5],
            vec![vec![e(0, 0), e(1, 50), Op::Deq(2), e(3, 0), Op::Deq(4), e(0, 0), e(1, 51), Op::Deq(2), e(3, 0), Op::Deq(4)]],
            un.clone(),
            true,
        );
        add(format!("closed loop cap {:?}", c.cap), d, true, k + 1, 3);
        // each response decides a later write
        let d = pmu_dev(
            vec![c; 5],
            vec![vec![Op::Loop(4, 0, 2)], vec![e(1, 50), e(1, 51)], vec![e(3, 0), Op::Incr(2), e(3, 1)], vec![Op::Drain(2, 0)]],
            un.clone(),
            true,
        );
        add(format!("read back into writes cap {:?}", c.cap), d, true, k - 1, 4);
        // acknowledgements trigger reads
        let d = pmu_dev(
            vec![c; 5],
            vec![vec![e(0, 0), e(0, 1)], vec![e(1, 50), Op::Incr(1), e(1, 51)], vec![Op::Fwd(2, 3, 0)], vec![Op::Drain(4, 0)]],
            un.clone(),
            true,
        );
        add(format!("acknowledgements become reads cap {:?}", c.cap), d, c.cap.is_none(), k - 1, 4);
    }
    // several bundles, with ties: writers (0,1,2) (3,4,5), readers (6,7) (8,9)
    let two = Unit { cap: 2, bh, readers: vec![(6, 7), (8, 9)], writers: vec![(0, 1, 2), (3, 4, 5)] };
    for (i, (t1, t2, r1, r2)) in [(2u64, 2u64, 3u64, 3u64), (3, 2, 2, 4), (2, 4, 4, 2), (5, 1, 5, 6)].into_iter().enumerate() {
        let d = pmu_dev(
            vec![u(1); 10],
            vec![
                vec![ef(0, t1, 0), ef(1, t1, 50), ef(3, t2, 0), ef(4, t2, 60)],
                vec![ef(6, r1, 0), ef(8, r2, 0)],
                vec![Op::Drain(2, 0), Op::Drain(5, 0), Op::Drain(7, 0), Op::Drain(9, 0)],
            ],
            two.clone(),
            true,
        );
        add(format!("two bundles {i}"), d, true, k - 1, 6);
        let d = pmu_dev(
            vec![b(1, 1, 1); 10],
            vec![
                vec![Op::Incr(t1), e(0, 0), e(1, 50)],
                vec![Op::Incr(t2), e(3, 0), e(4, 60)],
                vec![ef(6, r1, 0), ef(8, r2, 0)],
                vec![Op::Drain(2, 0), Op::Drain(5, 0), Op::Drain(7, 0), Op::Drain(9, 0)],
            ],
            two.clone(),
            true,
        );
        add(format!("two bundles apart {i}"), d, true, k - 1, 6);
        // the first bundle's acknowledgements feed its own addresses, the other bundles are independent
        for c in [b(1, 1, 1), u(1)] {
            let mut ch = vec![u(1); 10];
            ch[0] = c;
            ch[2] = c;
            let d = pmu_dev(
                ch,
                vec![
                    vec![e(0, 0), Op::Loop(2, 0, 1), Op::Deq(2)],
                    vec![e(1, 50), Op::Incr(t1), e(1, 51)],
                    vec![Op::Incr(t2), e(3, 0), e(4, 60), Op::DropTx(3), Op::DropTx(4), Op::Drain(5, 0)],
                    vec![ef(6, r1, 0), ef(8, r2, 0), Op::DropTx(6), Op::DropTx(8), Op::Drain(7, 0), Op::Drain(9, 0)],
                ],
                two.clone(),
                true,
            );
            add(format!("two bundles, feedback through the first {i} {:?}", c.cap), d, true, k - 1, 6);
            // through the second and through the readers
            for (what, from, to) in [("the second", 5usize, 3usize), ("a reader", 7, 6), ("the second reader", 9, 8)] {
                if !th && i % 2 == 1 {
                    continue;
                }
                let mut ch = vec![u(1); 10];
                ch[from] = c;
                ch[to] = c;
                let feed = vec![e(to, 0), Op::Loop(from, to, 1), Op::DropTx(to), Op::Drain(from, 0)];
                let mut wr: Vec<Op> = vec![];
                for (a, dt, t, v) in [(0usize, 1usize, t1, 50u64), (3, 4, t2, 60)] {
                    if a == to {
                        wr.extend([ef(dt, t, v), ef(dt, t + 3, v + 1)]);
                    } else {
                        wr.extend([ef(a, t, 0), ef(dt, t + 1, v), ef(a, t + 4, 1), ef(dt, t + 4, v + 1)]);
                    }
                }
                wr.extend([0, 1, 3, 4].into_iter().filter(|x| *x != to).map(Op::DropTx));
                wr.extend([2, 5].into_iter().filter(|x| *x != from).map(|x| Op::Drain(x, 0)));
                let mut rd: Vec<Op> = [(6usize, r1), (8, r2)].into_iter().filter(|(a, _)| *a != to).map(|(a, t)| ef(a, t, 0)).collect();
                rd.extend([6, 8].into_iter().filter(|x| *x != to).map(Op::DropTx));
                rd.extend([7, 9].into_iter().filter(|x| *x != from).map(|x| Op::Drain(x, 0)));
                let d = pmu_dev(ch, vec![feed, wr, rd], two.clone(), true);
                add(format!("two bundles, feedback through {what} {i} {:?}", c.cap), d, true, k - 1, 6);
            }
        }
    }
    // the data of one bundle arrives long after its address, the other bundle's request in between
    for (i, (ta, td, tb)) in [(1u64, 6u64, 3u64), (6, 1, 3), (0, 4, 4), (2, 5, 1)].into_iter().enumerate() {
        for c in [u(1), b(2, 1, 1)] {
            let d = pmu_dev(
                vec![c; 8],
                vec![
                    vec![ef(6, 5, 0), ef(6, 9, 0), Op::DropTx(6), Op::Drain(2, 0), Op::Drain(5, 0), Op::Drain(7, 0)],
                    vec![Op::Incr(tb), e(3, 0), e(4, 60)],
                    vec![Op::Incr(ta), e(0, 0)],
                    vec![Op::Incr(td), e(1, 50)],
                ],
                Unit { cap: 2, bh, readers: vec![(6, 7)], writers: vec![(0, 1, 2), (3, 4, 5)] },
                true,
            );
            add(format!("late half {i} {:?}", c.cap), d, true, 2, 6);
        }
    }
    // nobody takes the acknowledgements for a while: a write happens when it arrives, not when it can be acknowledged
    for (i, (t1, late)) in [(1u64, 20u64), (3, 9), (1, 6)].into_iter().enumerate() {
        for r in 2..if th { 24u64 } else { 12 } {
            for (cap, lat, resp) in if th { vec![(1, 1, 1), (2, 1, 3), (1, 4, 2)] } else { vec![(1, 1, 1), (1, 4, 2)] } {
                let mut ch = vec![u(1); 5];
                ch[2] = b(cap, lat, resp);
                let n = cap as u64 + 3;
                let f = (0..n).flat_map(|k| [ef(0, t1 + k, k % 2), ef(1, t1 + k, 50 + k)]).collect();
                let d = pmu_dev(
                    ch,
                    vec![f, vec![ef(3, r, 0), ef(3, r + 1, 1), ef(3, r + 9, 0)], vec![Op::Incr(late), Op::Drain(2, 3)], vec![Op::Drain(4, 0)]],
                    un.clone(),
                    true,
                );
                add(format!("acknowledgements wait {i} {cap} {lat} reads at {r}"), d, false, 1, 3);
            }
        }
    }
    // readers only, writers only
    for c in [b(1, 1, 1), u(1)] {
        let d = pmu_dev(
            vec![c; 2],
            vec![vec![e(0, 0), e(0, 3), Op::Incr(2), e(0, 1)], vec![Op::Drain(1, 2)]],
            Unit { cap: 2, bh, readers: vec![(0, 1)], writers: vec![] },
            true,
        );
        // a full channel under inference: see the recorded finding about peeking
        add(format!("readers only {:?}", c.cap), d, c.cap.is_none(), k + 1, 2);
    }
    for c in [b(1, 1, 1), u(1)] {
        let d = pmu_dev(
            vec![c; 3],
            vec![vec![e(0, 0), e(1, 5), e(0, 3), e(1, 6), Op::Incr(2), e(0, 1), e(1, 7)], vec![Op::Drain(2, 2)]],
            Unit { cap: 2, bh, readers: vec![], writers: vec![(0, 1, 2)] },
            true,
        );
        add(format!("writers only {:?}", c.cap), d, c.cap.is_none(), k + 1, 2);
    }
    // many bundles, long streams, late times; every single delay
    let nb = if th { 9 } else { 6 };
    for c in [u(1), b(2, 1, 1)] {
        for order in 0..3usize {
            // writers 3i..3i+3, then readers
            let w: Vec<_> = (0..nb).map(|i| (3 * i, 3 * i + 1, 3 * i + 2)).collect();
            let r: Vec<_> = (0..nb).map(|i| (3 * nb + 2 * i, 3 * nb + 2 * i + 1)).collect();
            let at = |i: usize| match order {
                0 => i as u64 + 1,
                1 => (nb - i) as u64,
                _ => 4,
            };
            let mut fw = vec![];
            let mut fr = vec![];
            for round in 0..2u64 {
                let base = 40 * round;
                for i in 0..nb {
                    fw.extend([ef(w[i].0, base + at(i), i as u64 % 3), ef(w[i].1, base + at((i + 1) % nb), 50 + i as u64 + 20 * round)]);
                    fr.push(ef(r[i].0, base + 2 * at((i * 5) % nb), i as u64 % 3));
                }
            }
            let sink = w.iter().map(|x| Op::Drain(x.2, 0)).chain(r.iter().map(|x| Op::Drain(x.1, 0))).collect();
            let d = pmu_dev(vec![c; 5 * nb], vec![fw, fr, sink], Unit { cap: 3, bh, readers: r, writers: w }, true);
            add(format!("{nb} bundles, order {order} {:?}", c.cap), d, false, 1, 20);
        }
        let n = if th { 40u64 } else { 20 };
        for (gap, cap) in [(0u64, 2usize), (1, 100), (300, 3), (5_000_000_000, 2)] {
            let fw: Vec<Op> = (0..n).flat_map(|i| [e(0, i * 7), Op::Incr(gap), e(1, 50 + i)]).collect();
            let fr: Vec<Op> = (0..n).flat_map(|i| [Op::Incr(gap), e(3, i * 7), Op::Incr(1)]).collect();
            let d = pmu_dev(vec![c; 5], vec![fw, fr, vec![Op::Drain(2, 0)], vec![Op::Drain(4, 1)]], Unit { cap, ..un.clone() }, true);
            add(format!("long {n} every {gap} capacity {cap} {:?}", c.cap), d, c.cap.is_none(), 1, 20);
        }
    }
    // someone watching the whole unit: nothing may come out of it at or before the time it has reached
    for (i, (w, r)) in [
        (vec![(1u64, 50usize)], vec![2u64, 6]),
        (vec![], vec![3, 4]),
        (vec![(6, 50)], vec![1, 3]),
        (vec![(2, 50), (5, 51)], vec![]),
        (vec![(3, 50)], vec![3, 9]),
    ]
    .into_iter()
    .enumerate()
    {
        for ts in [vec![2u64, 4], vec![5], vec![8, 12]] {
            for acks in [false, true] {
                out.push(watched(format!("watched {i} at {ts:?} {} | {k} delays", if acks { "acknowledgements" } else { "responses" }), w.clone(), r.clone(), ts.clone(), acks, delay(k).max(25_000)));
            }
        }
    }
    out
}
