//! The DRAM bank.
use super::device::Dev;
use super::progs::{e, ef};
use super::store::visible;
use crate::dsl::*;
use crate::job::*;
use crate::oracle::Ghost;
use dam::context_tools::*;
use dam::structures::Time;
use dam::templates::datastore::Behavior;
use dam::templates::dram::{mc, DRAM};
use dam::types::DAMType;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
struct Bank {
    n: usize,
    bw: usize,
    lat: u64,
    cap: usize,
    fill: bool,
    bh: Behavior,
    /// address, size, data; in the order they are registered
    readers: Vec<(usize, usize, usize)>,
    /// address, size, data, acknowledgement
    writers: Vec<(usize, usize, usize, usize)>,
    readers_first: bool,
}
#[derive(Clone, Copy)]
enum B {
    R(usize, usize, usize),
    W(usize, usize, usize, usize),
}
impl Bank {
    fn bundles(&self) -> Vec<B> {
        let r = self.readers.iter().map(|(a, s, d)| B::R(*a, *s, *d));
        let w = self.writers.iter().map(|(a, s, d, k)| B::W(*a, *s, *d, *k));
        if self.readers_first {
            r.chain(w).collect()
        } else {
            w.chain(r).collect()
        }
    }
}
fn bank(chans: Vec<Ch>, ctxs: Vec<Vec<Op>>, bk: Bank) -> Dev {
    let mut g = vec![];
    for b in bk.bundles() {
        match b {
            B::R(a, s, d) => g.extend([Op::Deq(a), Op::Deq(s), e(d, 0)]),
            B::W(a, s, d, k) => g.extend([Op::Deq(a), Op::Deq(s), Op::Deq(d), e(k, 0)]),
        }
    }
    let b2 = bk.clone();
    Dev {
        p: Prog::new(chans, ctxs),
        ghosts: vec![g],
        make: Rc::new(move |pb, tx, rx| {
            let mut d = DRAM::<E, E, E>::new(mc::config(b2.n, b2.bw, Time::new(b2.lat), b2.cap), b2.bh);
            if b2.fill {
                d.fill(|i| 900 + i);
            }
            for b in b2.bundles() {
                match b {
                    B::R(a, s, x) => d.add_reader(mc::read_bundle(rx[a].take().unwrap(), rx[s].take().unwrap(), tx[x].take().unwrap())),
                    B::W(a, s, x, k) => d.add_writer(mc::write_bundle(
                        rx[a].take().unwrap(),
                        rx[s].take().unwrap(),
                        rx[x].take().unwrap(),
                        tx[k].take().unwrap(),
                    )),
                }
            }
            pb.add_child(d);
        }),
        model: Rc::new(move |p, vs| {
            let mut g = Ghost::new(p, vs);
            let bits = 1usize.dam_size();
            let mut mem: BTreeMap<usize, Vec<(u64, E)>> = Default::default();
            if bk.fill {
                for i in 0..bk.cap {
                    mem.insert(i, vec![(0, 900 + i)]);
                }
            }
            let mut windows: VecDeque<u64> = Default::default();
            let bs = bk.bundles();
            loop {
                // as many requests as there are windows are in flight
                if windows.len() == bk.n {
                    let t = windows.pop_front().unwrap();
                    g.adv(t);
                }
                let ready = |b: &B, g: &Ghost| match *b {
                    B::R(a, s, _) => Some(g.head(a)?.0.max(g.head(s)?.0)),
                    B::W(a, s, d, _) => Some(g.head(a)?.0.max(g.head(s)?.0).max(g.head(d)?.0)),
                };
                let next = bs.iter().enumerate().filter_map(|(i, b)| Some((ready(b, &g)?, i))).min();
                let Some((t, i)) = next else { break };
                g.adv(t);
                let busy = windows.back().copied().unwrap_or(0);
                match bs[i] {
                    B::W(a, s, d, k) => {
                        let addr = g.deq(a).unwrap().1 as usize;
                        let n = g.deq(s).unwrap().1 as usize;
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push(g.deq(d).ok_or("a write request without its data")?.1 as E);
                        }
                        let at = (g.now + bk.lat).max(busy) + (n * bits / bk.bw) as u64;
                        for (o, x) in v.into_iter().enumerate() {
                            mem.entry((addr + o) % bk.cap).or_default().push((at, x));
                        }
                        g.enq_at(k, at + 1, 0);
                        windows.push_back(g.now.max(at) + 1);
                    }
                    B::R(a, s, d) => {
                        let addr = g.deq(a).unwrap().1 as usize;
                        let n = g.deq(s).unwrap().1 as usize;
                        let at = (g.now + bk.lat).max(busy);
                        let mut out = at + (n * bits / bk.bw) as u64;
                        for o in 0..n {
                            let v = mem.get(&((addr + o) % bk.cap)).and_then(|h| visible(h, at)).unwrap_or(0);
                            out = (g.now + 1).max(out + 1);
                            g.enq_at(d, out, v as u64);
                        }
                        windows.push_back(out);
                    }
                }
            }
            for b in &bs {
                let ins = match *b {
                    B::R(a, s, _) => vec![a, s],
                    B::W(a, s, d, _) => vec![a, s, d],
                };
                for x in ins {
                    if g.head(x).is_none() {
                        g.closed(x);
                    }
                }
            }
            Ok(vec![g.end()?])
        }),
        det: true,
    }
}

/// An element that takes as many bits as it says.
#[derive(Clone, Debug, Default, PartialEq)]
struct Wide(usize);
impl DAMType for Wide {
    fn dam_size(&self) -> usize {
        self.0
    }
}
/// A client of a bank: writes the first `cut` elements in one request and the others in another, then reads all in one
/// and the second part again.  It waits for each answer.
#[context_macro]
struct Client {
    v: Vec<usize>,
    cut: usize,
    addr: [Sender<E>; 2],
    size: [Sender<E>; 2],
    data: Sender<Wide>,
    ack: Receiver<E>,
    out: Receiver<Wide>,
    log: Sh<Vec<(u64, usize)>>,
}
impl Context for Client {
    fn run(&mut self) {
        let ask = |k: usize, t: &dam::structures::TimeManager, a: usize, n: usize| {
            self.addr[k].enqueue(t, ChannelElement::new(t.tick() + 1, a)).unwrap();
            self.size[k].enqueue(t, ChannelElement::new(t.tick() + 1, n)).unwrap();
        };
        for (a, z) in [(0, self.cut), (self.cut, self.v.len())] {
            for x in &self.v[a..z] {
                self.data.enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, Wide(*x))).unwrap();
            }
            if a < z {
                ask(0, &self.time, a, z - a);
                let k = self.ack.dequeue(&self.time).unwrap();
                self.log.with(|l| l.push((k.time.time(), usize::MAX)));
            }
        }
        for (a, z) in [(0, self.v.len()), (self.cut, self.v.len())] {
            if a < z {
                ask(1, &self.time, a, z - a);
                for _ in a..z {
                    let k = self.out.dequeue(&self.time).unwrap();
                    self.log.with(|l| l.push((k.time.time(), k.data.0)));
                }
            }
        }
    }
}
fn sized(n: usize, bw: usize, lat: u64, v: &[usize], cut: usize) -> Judged {
    let r = once(|| {
        let mut pb = dam::simulation::ProgramBuilder::default();
        let mut d = DRAM::<E, Wide, E>::new(mc::config(n, bw, Time::new(lat), v.len()), Behavior { mod_address: false, use_default_value: false });
        let c = 2 * v.len() + 2;
        let [(wa, wa2), (ws, ws2), (k, k2), (ra, ra2), (rs, rs2)] = [(); 5].map(|_| pb.bounded::<E>(c));
        let [(wd, wd2), (o, o2)] = [(); 2].map(|_| pb.bounded::<Wide>(c));
        d.add_writer(mc::write_bundle(wa2, ws2, wd2, k));
        d.add_reader(mc::read_bundle(ra2, rs2, o));
        let log = Sh::new(vec![]);
        let x = Client { v: v.to_vec(), cut, addr: [wa, ra], size: [ws, rs], data: wd, ack: k2, out: o2, log: log.clone(), context_info: Default::default() };
        for i in 0..2 {
            x.addr[i].attach_sender(&x);
            x.size[i].attach_sender(&x);
        }
        x.data.attach_sender(&x);
        x.ack.attach_receiver(&x);
        x.out.attach_receiver(&x);
        pb.add_child(x);
        pb.add_child(d);
        let e = pb.initialize(Default::default()).unwrap().run(Default::default());
        (e.passed(), log.get())
    });
    // the client's clock, the bank's, its windows
    let (mut now, mut bank) = (0u64, 0u64);
    let mut windows: VecDeque<u64> = Default::default();
    let mut want = vec![];
    let mut serve = |now: &mut u64, part: &[usize], read: bool| {
        if part.is_empty() {
            return;
        }
        if windows.len() == n {
            bank = bank.max(windows.pop_front().unwrap());
        }
        bank = bank.max(*now + 1);
        let at = (bank + lat).max(windows.back().copied().unwrap_or(0));
        let done = at + (part.iter().sum::<usize>() / bw) as u64;
        if read {
            let mut t = done;
            for x in part {
                t = (bank + 1).max(t + 1);
                want.push((t, *x));
            }
            *now = t;
            windows.push_back(t);
        } else {
            want.push((done + 1, usize::MAX));
            *now = done + 1;
            windows.push_back(bank.max(done) + 1);
        }
    };
    serve(&mut now, &v[..cut], false);
    serve(&mut now, &v[cut..], false);
    serve(&mut now, v, true);
    serve(&mut now, &v[cut..], true);
    finished(r, &mut |(ok, log)| {
        if ok && log == want {
            Ok(hash(&log))
        } else {
            Err(format!("elements of {v:?} bits, {cut} written first: (time, size) {log:?}, not {want:?}{}", if ok { "" } else { ", failed" }))
        }
    })
}
pub fn c14(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let k = if th { 3 } else { 2 };
    let max = if th { 200_000 } else { 15_000 };
    let bh = Behavior { mod_address: true, use_default_value: true };
    let mut out = vec![];
    let mut add = |id: String, d: Dev, infer: bool, k: u16, c: u32| {
        if infer {
            out.push(d.clone().infer().job(format!("{id} infer | {k} delays"), delay(k).max(max)).cost(c));
        }
        // each of the long ones takes many milliseconds
        let max = if id.starts_with("long ") { max.min(if th { 3_000 } else { 150 }) } else { max };
        out.push(d.job(format!("{id} | {k} delays"), delay(k).max(max)).cost(c));
    };
    let cfgs: Vec<(usize, usize, u64)> = if th {
        vec![(1, 64, 1), (2, 64, 1), (1, 8, 5), (2, 8, 5), (3, 32, 2), (2, 128, 4), (1, 100, 0)]
    } else {
        vec![(1, 64, 1), (2, 16, 5), (3, 128, 2)]
    };
    for (n, bw, lat) in cfgs {
        let base = Bank { n, bw, lat, cap: 4, fill: false, bh, readers: vec![], writers: vec![], readers_first: false };
        let nm = format!("{n} windows, {bw} bits, latency {lat}");
        // one writer: address 0, size 1, data 2, acknowledgement 3
        let w = Bank { writers: vec![(0, 1, 2, 3)], ..base.clone() };
        for (j, reqs) in [vec![(0u64, 1u64)], vec![(0, 2), (1, 1)], vec![(3, 3), (0, 1), (1, 1)]].into_iter().enumerate() {
            for (q, pace) in [(0u64, "burst"), (4, "apart")].into_iter() {
                let mut a = vec![];
                let mut d = vec![];
                let mut v = 50;
                for (x, s) in &reqs {
                    a.extend([e(0, *x), e(1, *s), Op::Incr(q)]);
                    for _ in 0..*s {
                        d.push(e(2, v));
                        v += 1;
                        d.push(Op::Incr(1));
                    }
                }
                let dv = bank(vec![u(1); 4], vec![a.clone(), d.clone(), vec![Op::Drain(3, 0)]], w.clone());
                add(format!("writes {j} {pace}, {nm}"), dv, true, k, 4);
                let dv = bank(vec![b(1, 1, 1); 4], vec![a, d, vec![Op::Drain(3, 2)]], w.clone());
                add(format!("writes {j} {pace}, full channels, {nm}"), dv, false, k, 4);
            }
        }
        // one reader over filled memory: address 0, size 1, data 2
        let r = Bank { readers: vec![(0, 1, 2)], fill: true, ..base.clone() };
        for (j, reqs) in [vec![(1u64, 2u64)], vec![(0, 1), (2, 2)], vec![(0, 0), (3, 2), (1, 1)]].into_iter().enumerate() {
            for c in [u(1), b(1, 2, 1)] {
                let mut a = vec![];
                for (x, s) in &reqs {
                    a.extend([e(0, *x), e(1, *s)]);
                }
                let dv = bank(vec![c; 3], vec![a, vec![Op::Drain(2, 3)]], r.clone());
                add(format!("reads {j} {:?}, {nm}", c.cap), dv, c.cap.is_none(), k, 2);
            }
        }
        // acknowledged writes read back: writer (0,1,2,3), reader (4,5,6)
        for first in [false, true] {
            let rw = Bank { writers: vec![(0, 1, 2, 3)], readers: vec![(4, 5, 6)], readers_first: first, ..base.clone() };
            for c in [u(1), b(2, 1, 1)] {
                let dv = bank(
                    vec![c; 7],
                    vec![vec![
                        e(0, 1), e(1, 2), e(2, 50), e(2, 51), Op::Deq(3), e(4, 0), e(5, 3), Op::Deq(6), Op::Deq(6), Op::Deq(6),
                        e(0, 2), e(1, 1), e(2, 52), Op::Deq(3), e(4, 2), e(5, 1), Op::Deq(6),
                    ]],
                    rw.clone(),
                );
                add(format!("write then read {first} {:?}, {nm}", c.cap), dv, true, k + 1, 2);
                // acknowledgements become read addresses
                let dv = bank(
                    vec![c; 7],
                    vec![
                        vec![e(0, 0), e(1, 1), e(0, 1), e(1, 1)],
                        vec![e(2, 50), e(2, 51)],
                        vec![Op::Loop(3, 4, 2)],
                        vec![e(5, 2), e(5, 1), Op::DropTx(5), Op::Drain(6, 0)],
                    ],
                    rw.clone(),
                );
                add(format!("acknowledgements become reads {first} {:?}, {nm}", c.cap), dv, c.cap.is_none(), 1, 4);
            }
            // reads racing with writes, around each other's completion
            for t in [0u64, 1, 2, 3, 5, 8] {
                let dv = bank(
                    vec![u(1); 7],
                    vec![
                        vec![ef(4, t, 0), ef(5, t, 2), ef(4, t + 1, 1), ef(5, t + 2, 1), Op::DropTx(4), Op::DropTx(5), Op::Drain(6, 0)],
                        vec![ef(0, 2, 0), ef(1, 1, 2), Op::DropTx(0), Op::Drain(3, 0)],
                        vec![Op::Incr(1), e(2, 50), Op::Incr(2), e(2, 51)],
                    ],
                    rw.clone(),
                );
                add(format!("read around a write {t} {first}, {nm}"), dv, true, 1, 3);
            }
        }
        // one part of a request arrives late while another bundle is ready
        for late in 0..3usize {
            let two = Bank { writers: vec![(0, 1, 2, 3), (4, 5, 6, 7)], ..base.clone() };
            let mut early = vec![];
            for x in 0..3 {
                if x != late {
                    early.push(e(x, [0, 1, 50][x]));
                }
            }
            let dv = bank(
                vec![u(1); 8],
                vec![
                    vec![Op::Drain(3, 0), Op::Drain(7, 0)],
                    vec![Op::Incr(3), e(4, 0), e(5, 1), e(6, 60)],
                    early,
                    vec![Op::Incr(6), e(late, [0, 1, 50][late])],
                ],
                two,
            );
            add(format!("late part {late}, {nm}"), dv, true, 1, 5);
            if late < 2 {
                let two = Bank { readers: vec![(0, 1, 2), (3, 4, 5)], fill: true, ..base.clone() };
                let dv = bank(
                    vec![u(1); 6],
                    vec![
                        vec![Op::Drain(2, 0), Op::Drain(5, 0)],
                        vec![Op::Incr(3), e(3, 0), e(4, 1)],
                        vec![e(1 - late, 1)],
                        vec![Op::Incr(6), e(late, 1)],
                    ],
                    two,
                );
                add(format!("late part of a read {late}, {nm}"), dv, true, 1, 5);
            }
        }
    }
    // many windows, bundles and requests, large requests, long latencies; every single delay
    for (n, bw, lat, cap) in if th {
        vec![(5, 64, 300, 9), (6, 24, 7, 100), (12, 64, 2, 9), (3, 1000, 70_000, 3), (9, 8, 5_000_000_000, 64), (1, 64, 20, 5), (20, 64, 1000, 9), (4, 1, 3, 9)]
    } else {
        vec![(5, 64, 300, 9), (6, 24, 7, 100), (12, 64, 2, 9), (3, 1000, 70_000, 3), (4, 1, 3, 9)]
    } {
        let base = Bank { n, bw, lat, cap, fill: false, bh, readers: vec![], writers: vec![], readers_first: false };
        let nm = format!("{n} windows, {bw} bits, latency {lat}, capacity {cap}");
        // a request longer than the bank would write an address twice at one instant
        let reqs: Vec<(u64, u64)> = (0..if th { 30u64 } else { 16 }).map(|i| (i * 5, [1, 2, 0, 9, 1, 17][i as usize % 6].min(cap as u64))).collect();
        for pace in [0u64, lat / 2, 2 * lat] {
            let (mut a, mut s, mut d) = (vec![], vec![], vec![]);
            let mut v = 50;
            for (x, z) in &reqs {
                a.extend([e(0, *x), Op::Incr(pace)]);
                s.push(e(1, *z));
                for _ in 0..*z {
                    d.push(e(2, v));
                    v += 1;
                }
            }
            let w = Bank { writers: vec![(0, 1, 2, 3)], ..base.clone() };
            add(format!("many writes apart {pace}, {nm}"), bank(vec![u(1); 4], vec![a.clone(), s.clone(), d, vec![Op::Drain(3, 0)]], w), true, 1, 20);
            let r = Bank { readers: vec![(0, 1, 2)], fill: true, ..base.clone() };
            add(format!("many reads apart {pace}, {nm}"), bank(vec![u(1), b(4, 1, 1), b(3, 2, 2)], vec![a, s, vec![Op::Drain(2, 1)]], r), false, 1, 20);
        }
        // many bundles: writers 4i.., then readers
        let nb = if th { 7 } else { 5 };
        for order in 0..3usize {
            let w: Vec<_> = (0..nb).map(|i| (4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3)).collect();
            let r: Vec<_> = (0..nb).map(|i| (4 * nb + 3 * i, 4 * nb + 3 * i + 1, 4 * nb + 3 * i + 2)).collect();
            let at = |i: usize| match order {
                0 => i as u64 + 1,
                1 => (nb - i) as u64,
                _ => 4,
            };
            let (mut fw, mut fr) = (vec![], vec![]);
            for round in 0..2u64 {
                let base = 3 * round;
                for i in 0..nb {
                    fw.extend([ef(w[i].0, base + at(i), 2 * i as u64), ef(w[i].1, base + at((i + 1) % nb), 2), ef(w[i].2, base + at((i + 2) % nb), 50 + i as u64), ef(w[i].2, base + 9, 70 + i as u64)]);
                    fr.extend([ef(r[i].0, base + 2 * at((i * 3) % nb), 2 * i as u64 + round), ef(r[i].1, base + at(i), 3)]);
                }
            }
            let sink = w.iter().map(|x| Op::Drain(x.3, 0)).chain(r.iter().map(|x| Op::Drain(x.2, 0))).collect();
            let bk = Bank { readers: r, writers: w, readers_first: order == 1, fill: order == 2, ..base.clone() };
            add(format!("{nb} bundles, order {order}, {nm}"), bank(vec![u(1); 7 * nb], vec![fw, fr, sink], bk), false, 1, 20);
        }
    }
    // requests of more than a thousand elements
    for (n, bw, lat) in if th { vec![(1usize, 1usize, 5u64), (2, 1, 70_000), (2, 64, 5), (3, 7, 300)] } else { vec![(2, 1, 5), (2, 64, 300)] } {
        let base = Bank { n, bw, lat, cap: 1500, fill: false, bh, readers: vec![], writers: vec![], readers_first: false };
        let nm = format!("{n} windows, {bw} bits, latency {lat}");
        let reqs = [(0u64, 1100u64), (1090, 3), (7, 1025)];
        for c in [u(1), b(2, 1, 2)] {
            let (mut a, mut d) = (vec![], vec![]);
            let mut v = 50;
            for (x, z) in reqs {
                a.extend([e(0, x), e(1, z)]);
                for _ in 0..z {
                    d.push(e(2, v));
                    v += 1;
                }
            }
            let w = Bank { writers: vec![(0, 1, 2, 3)], ..base.clone() };
            add(format!("long writes {:?}, {nm}", c.cap), bank(vec![u(1), u(1), c, u(1)], vec![a.clone(), d, vec![Op::Drain(3, 0)]], w), false, 1, 20);
            let r = Bank { readers: vec![(0, 1, 2)], fill: true, ..base.clone() };
            add(format!("long reads {:?}, {nm}", c.cap), bank(vec![u(1), u(1), c], vec![a, vec![Op::Drain(2, 1)]], r), false, 1, 20);
        }
    }
    // the elements of a read leave one after the other, also when several places become free at once
    for (n, lat) in if th { vec![(1usize, 0u64), (1, 1), (2, 0), (2, 3), (3, 20)] } else { vec![(1, 0), (2, 3)] } {
        for (cap, rl, rr) in [(1usize, 1u64, 1u64), (2, 1, 1), (3, 1, 3), (3, 4, 1)] {
            let bk = Bank { n, bw: 1000, lat, cap: 9, fill: true, bh, readers: vec![(0, 1, 2)], writers: vec![], readers_first: false };
            let mut bites = vec![];
            for i in 0..4 {
                bites.push(Op::Incr(30 + 7 * i));
                bites.extend(vec![Op::Deq(2); cap]);
            }
            bites.push(Op::Drain(2, 0));
            let a = vec![e(0, 0), e(1, 7), Op::Incr(2), e(0, 3), e(1, 4), Op::Incr(60), e(0, 5), e(1, 2)];
            add(format!("reads in bites, {n} windows, latency {lat}, {cap} places {rl} {rr}"), bank(vec![u(1), u(1), b(cap, rl, rr)], vec![a, bites], bk), false, 1, 5);
        }
    }
    // elements of different sizes
    let sizes: Vec<usize> = vec![0, 1, 40, 100];
    for (n, bw, lat) in if th { vec![(1usize, 8usize, 5u64), (1, 32, 0), (2, 8, 5), (2, 64, 2), (3, 1, 1)] } else { vec![(1, 8, 5), (2, 32, 0)] } {
        let sizes = sizes.clone();
        out.push(Job::new(format!("elements of different sizes, {n} windows, {bw} bits, latency {lat}"), move |cx| {
            cases(cx, |ta| {
                for len in 1..=if th { 4u32 } else { 3 } {
                    for code in 0..sizes.len().pow(len) {
                        let v: Vec<usize> = (0..len).map(|i| sizes[code / sizes.len().pow(i) % sizes.len()]).collect();
                        for cut in 0..=v.len() {
                            if !ta.case(sized(n, bw, lat, &v, cut)) {
                                return;
                            }
                        }
                    }
                }
            })
        }));
    }
    // what cannot be a bank
    out.push(Job::new("a bank without bundles is refused", |cx| {
        every_schedule(
            cx,
            dpor(),
            true,
            || {
                let mut pb = dam::simulation::ProgramBuilder::default();
                pb.add_child(DRAM::<E, E, E>::new(mc::config(1, 64, Time::new(1), 4), Behavior { mod_address: true, use_default_value: true }));
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pb.initialize(Default::default()).is_err())).unwrap_or(true)
            },
            |r| finished(r, &mut |refused| if refused { Ok(0) } else { Err("accepted".into()) }),
        )
    }));
    out
}
