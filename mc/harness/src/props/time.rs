//! Clocks: views across threads (C07) and the arithmetic of timestamps (C19).
use crate::dsl::{t, Sh};
use crate::job::*;
use dam::structures::{ContextInfo, ParentView, Time, TimeManager, TimeView};
use dam::structures::ContextView;
use dam_mc::sync::atomic::{AtomicU64, Ordering};
use dam_mc::sync::Arc;
use dam_mc::thread;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    Incr(u64),
    Adv(u64),
    AdvInf,
    Cleanup,
}
use A::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum W {
    Wait(u64),
    WaitInf,
    Poll,
}
use W::*;

/// One owner and the waiters on its clock; `owners` more than one means the waiters look at a ParentView over all.
#[derive(Clone, Debug)]
struct Scene {
    owners: Vec<Vec<A>>,
    waiters: Vec<Vec<W>>,
    nested: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Seen {
    when: u64,
    got: u64,
    /// largest time the clock could have had when the call returned
    limit: u64,
    /// what the owner had published, as seen by the waiter
    data: u64,
    /// what it must at least have seen
    floor: u64,
}

fn run(s: &Scene) -> Vec<Vec<Seen>> {
    let mut handles = vec![];
    let mut views: Vec<TimeView> = vec![];
    let limits: Vec<Sh<u64>> = s.owners.iter().map(|_| Sh::new(0)).collect();
    let data: Vec<Arc<AtomicU64>> = s.owners.iter().map(|_| Arc::new(AtomicU64::new(0))).collect();
    let mut mgrs = vec![];
    for _ in &s.owners {
        let m = TimeManager::new();
        views.push(m.view().into());
        mgrs.push(m);
    }
    let view: TimeView = if s.nested {
        let inner: TimeView = ParentView { child_views: views.clone() }.into();
        ParentView { child_views: vec![inner] }.into()
    } else if views.len() == 1 {
        views[0].clone()
    } else {
        ParentView { child_views: views.clone() }.into()
    };
    for (i, (ops, mut m)) in s.owners.clone().into_iter().zip(mgrs).enumerate() {
        let lim = limits[i].clone();
        let d = data[i].clone();
        handles.push(thread::spawn(move || {
            let mut now = 0u64;
            for o in ops {
                let next = match o {
                    Incr(n) => now + n,
                    Adv(x) => now.max(x),
                    AdvInf | Cleanup => u64::MAX,
                };
                lim.with(|l| *l = (*l).max(next));
                // published before the clock moves
                d.store(next, Ordering::Relaxed);
                match o {
                    Incr(n) => m.incr_cycles(n),
                    Adv(x) => m.advance(Time::new(x)),
                    AdvInf => m.advance(Time::infinite()),
                    Cleanup => m.cleanup(),
                }
                now = next;
                if now == u64::MAX {
                    assert!(m.tick().is_infinite());
                } else {
                    assert_eq!(t(m.tick()), now, "own clock after {o:?}");
                }
            }
            lim.with(|l| *l = u64::MAX);
            d.store(u64::MAX, Ordering::Relaxed);
            drop(m);
        }));
    }
    let mut ws = vec![];
    for w in s.waiters.clone() {
        let v = view.clone();
        let lim = limits.clone();
        let data = data.clone();
        ws.push(thread::spawn(move || {
            let mut out = vec![];
            for o in w {
                let (when, got) = match o {
                    Wait(x) => (x, v.wait_until(Time::new(x))),
                    WaitInf => (u64::MAX, v.wait_until(Time::infinite())),
                    Poll => (0, v.tick_lower_bound()),
                };
                let limit = lim.iter().map(|l| l.get()).min().unwrap();
                let d = data.iter().map(|d| d.load(Ordering::Relaxed)).min().unwrap();
                out.push(Seen { when, got: t(got), limit, data: d, floor: t(got) });
            }
            out
        }));
    }
    let r = ws.into_iter().map(|w| w.join().unwrap()).collect();
    for h in handles {
        h.join().unwrap();
    }
    r
}

fn judge(r: Vec<Vec<Seen>>) -> Judged {
    for (w, s) in r.iter().enumerate() {
        let mut last = 0;
        for (i, x) in s.iter().enumerate() {
            let at = || format!("waiter {w}, call {i}: {x:?}");
            if x.got < x.when {
                return Err(format!("{}: returned before the awaited time", at()));
            }
            if x.got > x.limit {
                return Err(format!("{}: claims a time the clock had not reached", at()));
            }
            if x.got < last {
                return Err(format!("{}: the viewed clock went backwards from {last}", at()));
            }
            if x.data < x.floor {
                return Err(format!("{}: what was written before that time is not visible yet", at()));
            }
            last = x.got;
        }
    }
    Ok(hash(&r))
}

pub fn c07(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let owners: Vec<Vec<A>> = vec![
        vec![],
        vec![Incr(1)],
        vec![Incr(1), Incr(1)],
        vec![Adv(3)],
        vec![Adv(2), Adv(1), Incr(2)],
        vec![Incr(2), Adv(2)],
        vec![Cleanup],
        vec![Incr(1), AdvInf],
        vec![Incr(0), Adv(0)],
    ];
    let waits: Vec<Vec<W>> = vec![
        vec![Wait(1)],
        vec![Wait(2)],
        vec![WaitInf],
        vec![Poll, Wait(1), Poll],
        vec![Wait(1), Wait(2)],
        vec![Wait(3), Wait(1)],
        vec![Wait(0), Poll, Poll],
        vec![Wait(1), WaitInf],
    ];
    let mut scenes: Vec<(String, Scene, bool)> = vec![];
    for (i, o) in owners.iter().enumerate() {
        for (j, w) in waits.iter().enumerate() {
            scenes.push((format!("one waiter {i}/{j}"), Scene { owners: vec![o.clone()], waiters: vec![w.clone()], nested: false }, true));
        }
    }
    for (i, o) in [1, 2, 3, 4].into_iter().map(|i| (i, &owners[i])) {
        for (j, k) in [(0, 0), (0, 1), (0, 2), (1, 4), (2, 2), (1, 5), (7, 3)] {
            scenes.push((
                format!("two waiters {i}/{j},{k}"),
                Scene { owners: vec![o.clone()], waiters: vec![waits[j].clone(), waits[k].clone()], nested: false },
                false,
            ));
        }
    }
    for (i, k) in [(1, 1), (1, 2), (3, 1), (0, 2), (4, 3), (6, 2)] {
        for j in [0, 1, 2, 3, 4, 5] {
            for nested in [false, true] {
                if nested && j > 2 {
                    continue;
                }
                scenes.push((
                    format!("parent of {i},{k}/{j} nested={nested}"),
                    Scene { owners: vec![owners[i].clone(), owners[k].clone()], waiters: vec![waits[j].clone()], nested },
                    false,
                ));
            }
        }
    }
    let mut scenes_large: Vec<(String, Scene)> = vec![];
    // clocks whose low halves do not tell which is later
    for (i, o) in [
        vec![Incr(3_000_000_000), Adv(4_294_967_300)],
        vec![Incr(1 << 32), Incr(1), Adv(1 << 33)],
        vec![Adv((1 << 32) + 5), Adv(7), Incr(1 << 31), Adv((1 << 53) + 1)],
        vec![Incr(4_294_967_295), Incr(1), Incr(1)],
    ]
    .into_iter()
    .enumerate()
    {
        for (j, w) in [
            vec![Wait(3_000_000_000), Wait(4_294_967_300)],
            vec![Wait(4_294_967_296), Poll, Wait(1 << 33)],
            vec![Wait(5), Wait(4_294_967_297), WaitInf],
            vec![Wait(1 << 53), Poll],
        ]
        .into_iter()
        .enumerate()
        {
            scenes.push((format!("late waiter {i}/{j}"), Scene { owners: vec![o.clone()], waiters: vec![w], nested: false }, false));
        }
    }
    let mut jobs = vec![];
    let cap = if th { 3_000_000 } else { 80_000 };
    for (name, s, single) in scenes {
        let mk = |tag: &str, o: Opt, s: &Scene, cost| {
            let s = s.clone();
            Job::new(format!("{name} | {tag}"), move |cx| {
                let s2 = s.clone();
                every_schedule(cx, o, false, move || run(&s2), |r| finished(r, &mut judge))
            })
            .cost(cost)
        };
        jobs.push(mk("all", dpor().max(cap), &s, 5));
        jobs.push(mk("3 delays", delay(3).max(cap), &s, 3));
        if single {
            jobs.push(mk("weak, all", dpor().weak().max(cap), &s, 6));
            jobs.push(mk("spurious wake-up, all", dpor().spurious(1).max(cap), &s, 6));
        } else {
            jobs.push(mk("weak, 2 delays", delay(2).weak().max(cap), &s, 3));
            jobs.push(mk("spurious wake-up, 2 delays", delay(2).spurious(1).max(cap), &s, 3));
        }
    }
    // many waiters, many clocks, large steps; every two delays
    for k in if th { vec![5usize, 9, 13] } else { vec![5, 9] } {
        let owner = vec![Incr(1), Incr(2), Adv(40), Incr(1), Adv(70_000), Incr(1 << 33), Cleanup];
        let pool: Vec<Vec<W>> = vec![
            vec![Wait(1), Wait(3), Wait(41)],
            vec![Wait(3), Poll, Wait(1 << 33)],
            vec![Wait(40), Wait(70_000), Poll],
            vec![Wait(2), WaitInf],
            vec![Wait(70_001), Wait(70_001 + (1 << 33))],
            vec![Wait(u64::MAX >> 2)],
            vec![Wait(3), Wait(3), Wait(3)],
        ];
        for rot in 0..if th { 7 } else { 3 } {
            let ws: Vec<Vec<W>> = (0..k).map(|i| pool[(i * (rot + 1) + rot) % 7].clone()).collect();
            let s = Scene { owners: vec![owner.clone()], waiters: ws, nested: false };
            scenes_large.push((format!("{k} waiters {rot}"), s));
            // the earliest of k clocks, in every position
            let os: Vec<Vec<A>> = (0..k).map(|i| if i == (rot * 5 + k - 1) % k { vec![Incr(1), Incr(2), Adv(40), Adv(70_000)] } else { vec![Adv(41 + i as u64), Adv(1 << 33), Incr(3)] }).collect();
            for nested in [false, true] {
                scenes_large.push((
                    format!("parent of {k} {rot} nested={nested}"),
                    Scene { owners: os.clone(), waiters: vec![vec![Wait(1), Wait(3), Wait(40), Poll], vec![Wait(70_000), WaitInf]], nested },
                ));
            }
        }
    }
    for (name, s) in scenes_large {
        for (tag, o) in [("1 delay", delay(1)), ("1 delay, weak", delay(1).weak())] {
            if tag.ends_with("weak") && s.owners.len() > 1 {
                continue;
            }
            let s = s.clone();
            jobs.push(
                Job::new(format!("{name} | {tag}"), move |cx| {
                    let s2 = s.clone();
                    every_schedule(cx, o.max(cap), false, move || run(&s2), |r| finished(r, &mut judge))
                })
                .cost(8),
            );
        }
    }
    // Nobody moves on before all have: one owner lets k waiters through at one instant and then waits for each of them.
    for k in if th { vec![2usize, 3, 5, 9, 17, 30] } else { vec![3, 5, 9] } {
        for rounds in 1..=2u64 {
            for (n, o) in [("1 delay", delay(1).max(cap)), ("1 delay, weak", delay(1).weak().max(cap))] {
                if n.ends_with("weak") && k * rounds as usize > 5 {
                    continue;
                }
                jobs.push(
                    Job::new(format!("barrier of {k}, {rounds} rounds | {n}"), move |cx| {
                        every_schedule(
                            cx,
                            o,
                            true,
                            move || {
                                let hub = ContextInfo::default();
                                let infos: Vec<ContextInfo> = (0..k).map(|_| ContextInfo::default()).collect();
                                let views: Vec<_> = infos.iter().map(|i| i.time.view()).collect();
                                let hs: Vec<_> = infos
                                    .into_iter()
                                    .map(|info| {
                                        let v = hub.time.view();
                                        thread::spawn(move || {
                                            let mut ok = true;
                                            for r in 1..=rounds {
                                                ok &= v.wait_until(Time::new(5 * r)) >= Time::new(5 * r);
                                                info.time.incr_cycles(1);
                                            }
                                            ok
                                        })
                                    })
                                    .collect();
                                let mut ok = true;
                                for r in 1..=rounds {
                                    hub.time.incr_cycles(5);
                                    for v in &views {
                                        ok &= v.wait_until(Time::new(r)) >= Time::new(r);
                                    }
                                }
                                drop(hub);
                                hs.into_iter().all(|h| h.join().unwrap()) && ok
                            },
                            |r| {
                                finished(r, &mut |ok: bool| {
                                    if ok {
                                        Ok(0)
                                    } else {
                                        Err("a wait returned early".to_string())
                                    }
                                })
                            },
                        )
                    })
                    .cost(8),
                );
            }
        }
    }
    // A context that waits on one clock while others wait on it.
    for th2 in [false, true] {
        for (n, o) in [("all", dpor().max(cap)), ("3 delays", delay(3).max(cap)), ("weak, 2 delays", delay(2).weak().max(cap))] {
            jobs.push(
                Job::new(format!("mutual waiting third={th2} | {n}"), move |cx| {
                    every_schedule(
                        cx,
                        o,
                        true,
                        move || {
                            let infos: Vec<ContextInfo> = (0..if th2 { 3 } else { 2 }).map(|_| ContextInfo::default()).collect();
                            let views: Vec<_> = infos.iter().map(|i| i.time.view()).collect();
                            let k = infos.len();
                            let hs: Vec<_> = infos
                                .into_iter()
                                .enumerate()
                                .map(|(i, info)| {
                                    let v = views[(i + 1) % k].clone();
                                    thread::spawn(move || {
                                        let mut got = vec![];
                                        for s in 1..=2u64 {
                                            info.time.incr_cycles(1);
                                            got.push(v.wait_until(Time::new(s)) >= Time::new(s));
                                        }
                                        drop(info);
                                        got
                                    })
                                })
                                .collect();
                            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
                        },
                        |r| {
                            finished(r, &mut |v: Vec<Vec<bool>>| {
                                if v.iter().flatten().all(|b| *b) {
                                    Ok(0)
                                } else {
                                    Err(format!("a wait returned early: {v:?}"))
                                }
                            })
                        },
                    )
                })
                .cost(8),
            );
        }
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum M {
    Fin(u64),
    Inf,
}
fn model(x: Time) -> M {
    if x.is_infinite() {
        M::Inf
    } else {
        M::Fin(x.time())
    }
}

pub fn c19(tier: Tier) -> Vec<Job> {
    let dom: Vec<u64> = vec![0, 1, 2, 3, 7, 63, 64, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let times = {
        let dom = dom.clone();
        move || {
            let mut v: Vec<Time> = vec![];
            for x in &dom {
                v.push(Time::new(*x));
                v.push(Time::from(*x));
                v.push(Time::from((false, *x)));
                v.push(Time::from((true, *x)));
                let mut y = Time::new(*x);
                y.set_infinite();
                v.push(y);
            }
            v.push(Time::infinite());
            v.push(Time::default());
            v
        }
    };
    let t1 = times.clone();
    let mut jobs = vec![];
    jobs.push(Job::new("order of all pairs", move |cx| {
        let ts = t1();
        cases(cx, |ta| {
            for a in &ts {
                for b in &ts {
                    let (x, y) = (model(*a), model(*b));
                    let ok = (a == b) == (x == y)
                        && (a != b) == (x != y)
                        && a.cmp(b) == x.cmp(&y)
                        && a.partial_cmp(b) == Some(x.cmp(&y))
                        && (a < b) == (x < y)
                        && (a <= b) == (x <= y)
                        && (a > b) == (x > y)
                        && (a >= b) == (x >= y)
                        && model((*a).max(*b)) == x.max(y)
                        && model((*a).min(*b)) == x.min(y);
                    if !ta.case(if ok { Ok(hash(&(x, y))) } else { Err(format!("{a:?} against {b:?}: expected {:?}", x.cmp(&y))) }) {
                        return;
                    }
                }
            }
        })
    }));
    let t1 = times.clone();
    jobs.push(Job::new("order of all triples is transitive and sorts", move |cx| {
        let mut ts = t1();
        ts.sort_by_key(|x| model(*x));
        ts.dedup_by_key(|x| model(*x));
        cases(cx, |ta| {
            for a in &ts {
                for b in &ts {
                    for c in &ts {
                        let mut v = [*c, *a, *b];
                        v.sort();
                        let ok = v.windows(2).all(|w| model(w[0]) <= model(w[1]))
                            && model(*[a, b, c].into_iter().max().unwrap()) == [model(*a), model(*b), model(*c)].into_iter().max().unwrap()
                            && model(*[a, b, c].into_iter().min().unwrap()) == [model(*a), model(*b), model(*c)].into_iter().min().unwrap();
                        if !ta.case(if ok { Ok(0) } else { Err(format!("sorting {a:?} {b:?} {c:?}")) }) {
                            return;
                        }
                    }
                }
            }
        })
    }));
    let t1 = times.clone();
    jobs.push(Job::new("addition and subtraction", move |cx| {
        let ts = t1();
        cases(cx, |ta| {
            for a in &ts {
                for b in &ts {
                    let Some(sum) = a.time().checked_add(b.time()) else { continue };
                    let inf = a.is_infinite() || b.is_infinite();
                    let good = |r: Time, inf: bool, n: u64| r.is_infinite() == inf && r.time() == n;
                    let mut x = *a;
                    x += *b;
                    let mut y = *a;
                    y += b.time();
                    let ok = good(*a + *b, inf, sum)
                        && good(*a + b.time(), a.is_infinite(), sum)
                        && good(x, inf, sum)
                        && good(y, a.is_infinite(), sum)
                        && good((*a + b.time()) - b.time(), a.is_infinite(), a.time())
                        && (*a + *b) == (*b + *a)
                        && (a.is_infinite() || b.time() == 0 || *a + b.time() > *a);
                    if !ta.case(if ok { Ok(hash(&(inf, sum))) } else { Err(format!("{a:?} plus {b:?}")) }) {
                        return;
                    }
                }
            }
        })
    }));
    // elements: a later stamp replaces an earlier one, never the other way round, and conversions keep it
    let t1 = times.clone();
    jobs.push(Job::new("stamps of elements", move |cx| {
        use dam::channel::ChannelElement;
        let ts = t1();
        cases(cx, |ta| {
            for a in &ts {
                for b in &ts {
                    let mut e = ChannelElement::new(*a, 7u16);
                    let kept = model(e.time) == model(*a) && e.data == 7;
                    e.update_time(*b);
                    let late = model(*a).max(model(*b));
                    let raised = model(e.time) == late && e.data == 7;
                    let c: ChannelElement<u64> = e.clone().convert();
                    let d: Result<ChannelElement<u8>, _> = c.clone().try_convert();
                    let f: Result<ChannelElement<u8>, _> = ChannelElement::new(*a, 700u16).try_convert();
                    let ok = kept
                        && raised
                        && model(c.time) == late
                        && c.data == 7
                        && d.is_ok_and(|d| model(d.time) == late && d.data == 7)
                        && f.is_err();
                    if !ta.case(if ok { Ok(hash(&late)) } else { Err(format!("an element stamped {a:?}, then {b:?}: stamped {:?}", e.time)) }) {
                        return;
                    }
                }
            }
        })
    }));
    // a subtraction below zero never yields a time
    let dom2 = dom.clone();
    jobs.push(Job::new("no time before zero", move |cx| {
        let dom = dom2.clone();
        cases(cx, |ta| {
            for a in &dom {
                for b in &dom {
                    if b > a {
                        let r = std::panic::catch_unwind(|| Time::new(*a) - *b);
                        if !ta.case(if r.is_err() { Ok(0) } else { Err(format!("{a} - {b} gave {:?}", r.unwrap())) }) {
                            return;
                        }
                    }
                }
            }
        })
    }));
    // every history of clock operations up to a depth
    let depth = if tier == Tier::Thorough { 7 } else { 5 };
    jobs.push(Job::new(format!("clock histories of length {depth}"), move |cx| {
        let ops = [Incr(0), Incr(1), Incr(3), Adv(0), Adv(1), Adv(2), Adv(5), AdvInf, Cleanup];
        cases(cx, |ta| {
            let n = ops.len();
            let total = n.pow(depth);
            for mut code in 0..total {
                let mut h = vec![];
                for _ in 0..depth {
                    h.push(ops[code % n]);
                    code /= n;
                }
                let mut m = TimeManager::new();
                let v: TimeView = m.view().into();
                let (mut now, mut done) = (0u64, false);
                let mut r = Ok(0);
                for (i, o) in h.iter().enumerate() {
                    match o {
                        Incr(k) => {
                            m.incr_cycles(*k);
                            now += k;
                        }
                        Adv(x) => {
                            m.advance(Time::new(*x));
                            if !done {
                                now = now.max(*x);
                            }
                        }
                        AdvInf => {
                            m.advance(Time::infinite());
                            done = true;
                        }
                        Cleanup => {
                            m.cleanup();
                            done = true;
                        }
                    }
                    for (n, x) in [("tick", m.tick()), ("view", v.tick_lower_bound())] {
                        if x.is_infinite() != done || (!done && x.time() != now) {
                            r = Err(format!("{:?}: {n} is {x:?}, should be {now} done={done}", &h[..=i]));
                        }
                    }
                    // waiting for a time already reached returns at once with the current time
                    for w in [0, now] {
                        let x = v.wait_until(Time::new(w));
                        if x.is_infinite() != done || (!done && x.time() != now) {
                            r = Err(format!("{:?}: wait_until({w}) gave {x:?}", &h[..=i]));
                        }
                    }
                }
                drop(m);
                let x = v.tick_lower_bound();
                if !x.is_infinite() || (!done && x.time() != now) {
                    r = Err(format!("{h:?}: the finished clock shows {x:?}, should be {now} and finished"));
                }
                if !ta.case(r.map(|_: i32| hash(&(now, done)))) {
                    return;
                }
            }
        })
    }).cost(5));
    // views over several clocks
    jobs.push(Job::new("parent views", move |cx| {
        cases(cx, |ta| {
            let opts: Vec<Option<u64>> = vec![Some(0), Some(1), Some(2), Some(9), None];
            for n in 0..=3usize {
                for mut code in 0..opts.len().pow(n as u32) {
                    let mut pick = vec![];
                    for _ in 0..n {
                        pick.push(opts[code % opts.len()]);
                        code /= opts.len();
                    }
                    let ms: Vec<TimeManager> = pick
                        .iter()
                        .map(|p| {
                            let mut m = TimeManager::new();
                            match p {
                                Some(x) => m.advance(Time::new(*x)),
                                None => m.cleanup(),
                            }
                            m
                        })
                        .collect();
                    let v: TimeView = ParentView { child_views: ms.iter().map(|m| m.view().into()).collect() }.into();
                    let want = pick.iter().map(|p| p.map(M::Fin).unwrap_or(M::Inf)).min().unwrap_or(M::Inf);
                    let mut r = if model(v.tick_lower_bound()) == want {
                        Ok(hash(&want))
                    } else {
                        Err(format!("children at {pick:?}: parent shows {:?}", v.tick_lower_bound()))
                    };
                    if n > 0 {
                        let when = match want {
                            M::Fin(x) => Time::new(x),
                            M::Inf => Time::new(77),
                        };
                        let got = v.wait_until(when);
                        if model(got) != want {
                            r = Err(format!("children at {pick:?}: waiting for {when:?} gave {got:?}"));
                        }
                    }
                    if !ta.case(r) {
                        return;
                    }
                }
            }
        })
    }));
    jobs
}
