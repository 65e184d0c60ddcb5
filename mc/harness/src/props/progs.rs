//! The families of channel programs.
use crate::dsl::*;
use crate::job::Tier;

pub struct P {
    pub name: String,
    pub p: Prog,
    /// the timed history must not depend on the schedule
    pub det: bool,
    /// small enough for full partial-order reduction
    pub tiny: bool,
    pub cost: u32,
}
pub fn p(name: impl Into<String>, p: Prog) -> P {
    P { name: name.into(), p, det: true, tiny: false, cost: 1 }
}
impl P {
    pub fn nondet(mut self) -> P {
        self.det = false;
        self
    }
    pub fn tiny(mut self) -> P {
        self.tiny = true;
        self
    }
    pub fn cost(mut self, c: u32) -> P {
        self.cost = c;
        self
    }
    /// contexts added in the opposite order
    pub fn rev(&self) -> P {
        let mut q = self.p.clone();
        q.ctxs.reverse();
        P { name: format!("{} rev", self.name), p: q, det: self.det, tiny: self.tiny, cost: self.cost }
    }
    pub fn styled(&self, s: Style) -> P {
        P { name: format!("{} {s:?}", self.name), p: self.p.clone().style(s), det: self.det, tiny: self.tiny, cost: self.cost }
    }
    /// Does a path lead from channel `ch`'s receiver back to its sender?
    pub fn cyclic(&self, ch: usize) -> bool {
        let goal = self.p.sender_of(ch);
        let Some(r) = self.p.receiver_of(ch) else { return false };
        let mut seen = vec![r];
        let mut i = 0;
        while i < seen.len() {
            if seen[i] == goal {
                return true;
            }
            for x in self.p.uses(seen[i]).0 {
                if let Some(r) = self.p.receiver_of(x) {
                    if !seen.contains(&r) {
                        seen.push(r)
                    }
                }
            }
            i += 1;
        }
        false
    }
    /// every channel has both ends
    pub fn connected(&self) -> bool {
        (0..self.p.chans.len()).all(|ch| {
            let uses: Vec<_> = (0..self.p.ctxs.len()).map(|c| self.p.uses(c)).collect();
            uses.iter().any(|u| u.0.contains(&ch)) && uses.iter().any(|u| u.1.contains(&ch))
        })
    }
    /// At most this many elements enter channel `ch`.
    fn sends(&self, ch: usize, depth: usize) -> usize {
        if depth == 0 {
            return 99;
        }
        self.p.ctxs[self.p.sender_of(ch)]
            .iter()
            .map(|o| match o {
                Op::Enq(x, ..) | Op::Wait(x) if *x == ch => 1,
                Op::Loop(_, x, n) if *x == ch => *n,
                Op::Fwd(f, x, _) if *x == ch => self.sends(*f, depth - 1),
                Op::Arb(v, Some(x), _) | Op::Join(v, Some(x), _) if *x == ch => {
                    v.iter().map(|f| self.sends(*f, depth - 1)).sum()
                }
                _ => 0,
            })
            .sum()
    }
    /// Under inference: some context peeks at an acyclic channel while some acyclic channel can be full.  Such programs
    /// can get stuck (a recorded finding, explored by jobs of its own).
    pub fn stuck_peek(&self) -> bool {
        let acyclic: Vec<usize> = (0..self.p.chans.len()).filter(|c| !self.p.chans[*c].void && !self.cyclic(*c)).collect();
        let peeked = acyclic.iter().any(|ch| {
            let r = self.p.receiver_of(*ch).unwrap();
            self.p.ctxs[r].iter().any(|o| match o {
                Op::Peek(x) | Op::Next(x) => x == ch,
                Op::Arb(v, ..) | Op::Any(v) | Op::All(v) => v.contains(ch),
                _ => false,
            })
        });
        let fills = acyclic.iter().any(|ch| self.p.chans[*ch].cap.is_some_and(|cap| self.sends(*ch, 6) > cap));
        peeked && fills
    }
    pub fn inferred(&self) -> P {
        P { name: format!("{} infer", self.name), p: self.p.clone().infer(true), det: self.det, tiny: self.tiny, cost: self.cost }
    }
}
pub fn e(ch: usize, v: u64) -> Op {
    Op::Enq(ch, 0, V::C(v))
}
pub fn ef(ch: usize, dt: u64, v: u64) -> Op {
    Op::Enq(ch, dt, V::C(v))
}
pub fn ea(ch: usize) -> Op {
    Op::Enq(ch, 0, V::Acc)
}
fn cs(c: &Ch) -> String {
    match c.cap {
        Some(n) => format!("b{n},{},{}", c.lat, c.resp),
        None => format!("u{}", c.lat),
    }
}

/// sender pacing
pub fn sender(ch: usize, n: u64, pat: &str) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        match pat {
            "burst" => v.push(e(ch, 10 + i)),
            "paced" => {
                v.push(e(ch, 10 + i));
                v.push(Op::Incr(1));
            }
            "slow" => {
                v.push(Op::Incr(3));
                v.push(e(ch, 10 + i));
            }
            "future" => v.push(ef(ch, 4, 10 + i)),
            "mixed" => v.push(ef(ch, if i % 2 == 0 { 5 } else { 0 }, 10 + i)),
            _ => panic!(),
        }
    }
    v
}
pub fn receiver(ch: usize, n: u64, pat: &str) -> Vec<Op> {
    match pat {
        "drain" => vec![Op::Drain(ch, 0)],
        "drain1" => vec![Op::Drain(ch, 1)],
        "drain3" => vec![Op::Drain(ch, 3)],
        "late" => vec![Op::Incr(6), Op::Drain(ch, 0)],
        "exact" => (0..n).map(|_| Op::Deq(ch)).collect(),
        "peeky" => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(Op::PeekNext(ch));
                v.push(Op::Deq(ch));
            }
            v
        }
        // looks at each element, keeps it waiting, and takes it later
        "held" => (0..n).flat_map(|i| [Op::PeekNext(ch), Op::Incr(1 + 3 * (i % 2)), Op::Deq(ch)]).collect(),
        _ => panic!(),
    }
}

pub fn pc(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let ns: &[u64] = if th { &[1, 2, 3, 4] } else { &[1, 3] };
    let mut chs = vec![u(1), b(1, 1, 1), b(2, 1, 1), b(1, 2, 3), b(2, 3, 2), u(3)];
    if th {
        chs.extend([b(3, 1, 1), b(1, 5, 1), b(1, 1, 5), b(2, 1, 4), b(2, 4, 1)]);
    }
    let txs: &[&str] = if th { &["burst", "paced", "slow", "future", "mixed"] } else { &["burst", "paced", "mixed"] };
    let rxs: &[&str] =
        if th { &["drain", "drain1", "drain3", "late", "exact", "peeky"] } else { &["drain", "drain3", "exact", "peeky"] };
    for n in ns {
        for c in &chs {
            for t in txs {
                for r in rxs {
                    let q = p(
                        format!("pc n{n} {} {t} {r}", cs(c)),
                        Prog::new(vec![*c], vec![sender(0, *n, t), receiver(0, *n, r)]),
                    );
                    let q = if *n == 1 || c.cap.is_none() { q.tiny() } else { q };
                    if th || (*t == "burst" && *r == "drain") {
                        v.push(q.rev());
                    }
                    v.push(q);
                }
            }
        }
    }
    v
}

/// Longer pipelines and reconvergent shapes.
pub fn shapes(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let chs: Vec<Ch> =
        if th { vec![b(1, 1, 1), b(2, 1, 1), b(1, 2, 3), u(1), b(2, 3, 2)] } else { vec![b(1, 1, 1), b(2, 1, 2), u(1)] };
    for c in &chs {
        let n = 2;
        for ii in if th { vec![0, 1, 3] } else { vec![0, 2] } {
            v.push(
                p(
                    format!("chain {} ii{ii}", cs(c)),
                    Prog::new(
                        vec![*c, *c],
                        vec![sender(0, n, "paced"), vec![Op::Fwd(0, 1, ii)], vec![Op::Deq(1), Op::Deq(1)]],
                    ),
                )
                .cost(8),
            );
        }
        // fork-join, one branch slower than the other
        v.push(
            p(
                format!("forkjoin {}", cs(c)),
                Prog::new(
                    vec![*c, *c, *c, *c],
                    vec![
                        vec![e(0, 1), e(1, 2)],
                        vec![Op::Deq(0), Op::Incr(3), ea(2)],
                        vec![Op::Deq(1), ea(3)],
                        vec![Op::PeekNext(2), Op::PeekNext(3), Op::Deq(2), Op::Deq(3)],
                    ],
                ),
            )
            .cost(9),
        );
        // merge by time
        v.push(
            p(
                format!("merge {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![vec![e(0, 1), Op::Incr(3), e(0, 2)], vec![Op::Incr(1), e(1, 5)], vec![Op::Arb(vec![0, 1], None, 0)]],
                ),
            )
            .cost(9),
        );
        if th {
            v.push(
                p(
                    format!("merge out {}", cs(c)),
                    Prog::new(
                        vec![*c, *c, *c],
                        vec![
                            vec![e(0, 1), Op::Incr(3)],
                            vec![Op::Incr(1), e(1, 5)],
                            vec![Op::Arb(vec![0, 1], Some(2), 1)],
                            vec![Op::Deq(2), Op::Deq(2)],
                        ],
                    ),
                )
                .cost(9),
            );
        }
        // feedback: a token goes round
        v.push(
            p(
                format!("feedback {}", cs(c)),
                Prog::new(vec![*c, *c], vec![vec![e(0, 3), Op::Loop(1, 0, 1), Op::Deq(1)], vec![Op::Loop(0, 1, 2)]]),
            )
            .cost(6),
        );
        // request-response
        v.push(
            p(
                format!("reqresp {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![
                        vec![e(0, 3), Op::Deq(1), Op::Incr(2), e(0, 4), Op::Deq(1)],
                        vec![Op::Deq(0), ea(1), Op::Deq(0), Op::Incr(1), ea(1)],
                    ],
                ),
            )
            .cost(6),
        );
        // two channels between the same contexts, in the order used on the other side and not
        v.push(
            p(
                format!("two edges {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![vec![e(0, 1), e(1, 2), e(0, 3)], vec![Op::Deq(0), Op::Deq(1), Op::Incr(2), Op::Deq(0)]],
                ),
            )
            .cost(4),
        );
        v.push(
            p(
                format!("crossed edges {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![vec![e(0, 1), Op::Incr(1), e(1, 2)], vec![Op::PeekNext(1), Op::Deq(1), Op::Deq(0)]],
                ),
            )
            .cost(4),
        );
        // a context with a channel to itself
        v.push(
            p(
                format!("self loop {}", cs(c)),
                Prog::new(vec![*c], vec![vec![e(0, 1), Op::Deq(0), e(0, 2), Op::PeekNext(0), Op::Deq(0)]]),
            )
            .tiny(),
        );
        // one producer, two consumers of different speed
        v.push(
            p(
                format!("fan out {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![
                        vec![e(0, 1), e(1, 1), e(0, 2), e(1, 2)],
                        vec![Op::Deq(0), Op::Incr(4), Op::Deq(0)],
                        vec![Op::Deq(1), Op::Deq(1)],
                    ],
                ),
            )
            .cost(8),
        );
        // independent components
        v.push(
            p(
                format!("apart {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![vec![e(0, 1), Op::Incr(9)], vec![Op::Deq(0)], vec![e(1, 2)], vec![Op::Incr(2), Op::Deq(1)]],
                ),
            )
            .cost(9),
        );
        // opposite directions, both sides send first
        v.push(
            p(
                format!("exchange {}", cs(c)),
                Prog::new(vec![*c, *c], vec![vec![e(0, 1), Op::Deq(1)], vec![e(1, 2), Op::Deq(0)]]),
            )
            .cost(4),
        );
    }
    if th {
        let base: Vec<P> = v.iter().map(|x| x.rev()).collect();
        v.extend(base);
    } else {
        let base: Vec<P> = v.iter().filter(|x| x.name.contains("b1,1,1")).map(|x| x.rev()).collect();
        v.extend(base);
    }
    v
}

/// End of stream: dropped senders and receivers, in the middle and at the end.
pub fn closing(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let chs: Vec<Ch> = if th { vec![b(1, 1, 1), b(2, 1, 1), b(1, 2, 3), u(1), u(4), b(2, 2, 2)] } else { vec![b(1, 1, 1), b(2, 2, 1), u(1)] };
    for c in &chs {
        for n in if th { vec![0, 1, 2, 3] } else { vec![0, 1, 2] } {
            v.push(
                p(
                    format!("drop sender, keep running {} n{n}", cs(c)),
                    Prog::new(
                        vec![*c],
                        vec![[sender(0, n, "burst"), vec![Op::DropTx(0), Op::Incr(7)]].concat(), vec![Op::Drain(0, 1), Op::Deq(0), Op::Peek(0)]],
                    ),
                )
                .cost(2),
            );
            v.push(
                p(
                    format!("finish {} n{n}", cs(c)),
                    Prog::new(
                        vec![*c],
                        vec![
                            if n == 0 { vec![Op::Incr(2), Op::DropTx(0)] } else { sender(0, n, "paced") },
                            vec![Op::Drain(0, 0), Op::PeekNext(0), Op::Next(0), Op::Deq(0)],
                        ],
                    ),
                )
                .cost(2),
            );
            // the receiver leaves first
            for k in 0..=n.min(2) {
                let mut rx: Vec<Op> = (0..k).map(|_| Op::Deq(0)).collect();
                rx.extend([Op::DropRx(0), Op::Incr(3)]);
                v.push(
                    p(format!("receiver leaves after {k} of {n} {}", cs(c)), Prog::new(vec![*c], vec![[sender(0, n, "burst"), vec![Op::DropTx(0)]].concat(), rx.clone()]))
                        .nondet()
                        .cost(2),
                );
                rx.truncate(rx.len() - 2);
                if !rx.is_empty() {
                    v.push(
                        p(format!("receiver ends after {k} of {n} {}", cs(c)), Prog::new(vec![*c], vec![sender(0, n, "paced"), rx]))
                            .nondet()
                            .cost(2),
                    );
                }
            }
        }
        // closure ripples down a chain
        v.push(
            p(
                format!("closing chain {}", cs(c)),
                Prog::new(vec![*c, *c], vec![sender(0, 1, "burst"), vec![Op::Fwd(0, 1, 0)], vec![Op::Drain(1, 0)]]),
            )
            .cost(8),
        );
        // one of two inputs closes much earlier
        v.push(
            p(
                format!("arbiter with an early end {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![vec![e(0, 1)], vec![Op::Incr(4), e(1, 5)], vec![Op::Arb(vec![0, 1], None, 1)]],
                ),
            )
            .cost(9),
        );
        v.push(
            p(
                format!("sender waits, receiver leaves {}", cs(c)),
                Prog::new(vec![*c], vec![vec![e(0, 1), e(0, 2), Op::Wait(0), e(0, 3)], vec![Op::Deq(0), Op::DropRx(0)]]),
            )
            .nondet()
            .cost(3),
        );
    }
    v
}

/// Polling with peek / next_event.
pub fn peeking(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let chs: Vec<Ch> = if th { vec![b(1, 1, 1), b(2, 1, 1), b(1, 3, 1), u(1), u(4), b(2, 2, 2)] } else { vec![b(1, 1, 1), b(2, 3, 1), u(1)] };
    for c in &chs {
        for tx in ["paced", "slow", "mixed", "future"] {
            if !th && tx == "slow" {
                continue;
            }
            for (i, rx) in [
                vec![Op::Peek(0), Op::Peek(0), Op::Deq(0), Op::Peek(0), Op::Deq(0), Op::Peek(0)],
                vec![Op::Peek(0), Op::PeekNext(0), Op::Peek(0), Op::Deq(0), Op::Peek(0), Op::PeekNext(0), Op::Deq(0)],
                vec![Op::Next(0), Op::Incr(2), Op::Next(0), Op::Deq(0), Op::Next(0), Op::Adv(9), Op::Next(0), Op::Deq(0), Op::Next(0)],
                vec![Op::Incr(5), Op::Peek(0), Op::Deq(0), Op::Next(0), Op::Drain(0, 0), Op::Next(0)],
                vec![Op::Arb(vec![0], None, 1)],
            ]
            .into_iter()
            .enumerate()
            {
                v.push(
                    p(format!("peeking {} {tx} {i}", cs(c)), Prog::new(vec![*c], vec![sender(0, 2, tx), rx])).cost(2),
                );
            }
        }
        v.push(
            p(
                format!("peek two {}", cs(c)),
                Prog::new(
                    vec![*c, *c],
                    vec![
                        vec![Op::Incr(2), e(0, 1)],
                        vec![e(1, 5)],
                        vec![Op::Next(0), Op::Next(1), Op::Deq(1), Op::Next(0), Op::Deq(0), Op::Next(1)],
                    ],
                ),
            )
            .cost(9),
        );
    }
    v
}

/// Capacity limits.
pub fn pressure(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    for cap in if th { vec![1, 2, 3] } else { vec![1, 2] } {
        for (lat, resp) in if th { vec![(1, 1), (1, 3), (3, 1), (2, 2), (4, 5)] } else { vec![(1, 1), (2, 3)] } {
            let c = b(cap, lat, resp);
            let n = cap as u64 + 2;
            for r in ["drain", "drain1", "drain3", "late", "exact", "held"] {
                for tx in if th { vec!["burst", "paced", "mixed"] } else { vec!["burst", "mixed"] } {
                    v.push(
                        p(
                            format!("full {} {tx} {r}", cs(&c)),
                            Prog::new(vec![c], vec![[sender(0, n, tx), vec![Op::Incr(1)]].concat(), receiver(0, n, r)]),
                        )
                        .cost(4),
                    );
                }
            }
            // explicit waiting before each enqueue
            let tx: Vec<Op> = (0..n).flat_map(|i| [Op::Wait(0), e(0, i)]).collect();
            v.push(p(format!("wait then enqueue {}", cs(&c)), Prog::new(vec![c], vec![tx.clone(), receiver(0, n, "drain1")])).cost(4));
            let tx2: Vec<Op> = (0..n).flat_map(|i| [Op::Wait(0), Op::Wait(0), Op::Incr(1), e(0, i)]).collect();
            v.push(p(format!("wait twice {}", cs(&c)), Prog::new(vec![c], vec![tx2, receiver(0, n, "drain1")])).cost(4));
            // a blocked sender delays a second channel
            v.push(
                p(
                    format!("blocked sender delays {}", cs(&c)),
                    Prog::new(
                        vec![c, u(1)],
                        vec![
                            [sender(0, cap as u64 + 1, "burst"), vec![e(1, 9)]].concat(),
                            [vec![Op::Incr(5)], receiver(0, cap as u64 + 1, "exact")].concat(),
                            vec![Op::Deq(1)],
                        ],
                    ),
                )
                .cost(8),
            );
        }
    }
    v
}

/// The recorded finding: the sender of a full acyclic channel blocks without its clock advancing, so a receiver that
/// started to peek while the channel was empty waits for that clock forever.
pub fn stuck_peek() -> Prog {
    Prog::new(vec![b(1, 1, 1)], vec![vec![e(0, 1), e(0, 2)], vec![Op::Incr(5), Op::Peek(0), Op::Deq(0), Op::Deq(0)]])
        .infer(true)
}

fn words(alpha: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<Op>| alpha.iter().map(move |o| [w.clone(), vec![o.clone()]].concat())).collect();
    }
    v
}
fn ws(w: &[Op]) -> String {
    w.iter()
        .map(|o| match o {
            Op::Enq(c, 0, _) => format!("e{c}"),
            Op::Enq(c, dt, _) => format!("e{c}+{dt}"),
            Op::Deq(c) => format!("d{c}"),
            Op::Peek(c) => format!("p{c}"),
            Op::PeekNext(c) => format!("n{c}"),
            Op::Next(c) => format!("v{c}"),
            Op::Incr(n) => format!("i{n}"),
            Op::Wait(c) => format!("w{c}"),
            o => format!("{o:?}"),
        })
        .collect::<Vec<_>>()
        .join(".")
}
/// distinct values, so that confusions show
fn number(mut w: Vec<Op>) -> Vec<Op> {
    let mut n = 1;
    for o in w.iter_mut() {
        if let Op::Enq(_, _, v) = o {
            *v = V::C(n * 7);
            n += 1;
        }
    }
    w
}

/// Every pair of scripts up to a length over one channel.
pub fn all_pairs(ls: usize, lr: usize, chs: &[Ch]) -> Vec<P> {
    let mut v = vec![];
    for c in chs {
        for s in words(&[e(0, 0), ef(0, 4, 0), Op::Incr(2), Op::Wait(0)], ls) {
            if !s.iter().any(|o| matches!(o, Op::Enq(..))) {
                continue;
            }
            for r in words(&[Op::Deq(0), Op::Peek(0), Op::PeekNext(0), Op::Incr(3), Op::Next(0)], lr) {
                let s = number(s.clone());
                let x = p(format!("pair {} {} / {}", cs(c), ws(&s), ws(&r)), Prog::new(vec![*c], vec![s, r]));
                // the receiver may leave before the sender has finished
                let left = x.p.ctxs[0].iter().filter(|o| matches!(o, Op::Enq(..))).count() > x.p.ctxs[1].iter().filter(|o| matches!(o, Op::Deq(..))).count();
                v.push(if left { x.nondet() } else { x });
            }
        }
    }
    v
}
/// Voids: what is sent there is gone at no cost, whatever its timestamp and whatever else is going on.
pub fn voids(tier: Tier) -> Vec<P> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for c in if th { vec![b(1, 1, 1), b(2, 3, 2), u(2)] } else { vec![b(1, 1, 1), u(2)] } {
        for s in words(&[e(0, 0), ef(0, 9, 0), Op::Wait(0), Op::Incr(2), e(1, 0), ef(1, 4, 0)], if th { 4 } else { 3 }) {
            if !s.iter().any(|o| matches!(o, Op::Enq(0, ..) | Op::Wait(0))) {
                continue;
            }
            let mut s = number(s);
            s.push(e(1, 77));
            let x = p(format!("void beside {} {}", cs(&c), ws(&s)), Prog::new(vec![void(), c], vec![s, vec![Op::Incr(1), Op::Drain(1, 1)]]));
            v.push(x);
        }
        // what the sender knows of the time comes from others
        for dt in [0u64, 5] {
            let fwd = |x: Op| vec![Op::Deq(1), x, ef(0, dt, 1), Op::Deq(1), ef(0, dt, 2), Op::DropTx(0), Op::Deq(1)];
            v.push(p(format!("void behind {} {dt}", cs(&c)), Prog::new(vec![void(), c], vec![fwd(Op::Wait(0)), vec![e(1, 1), Op::Incr(3), e(1, 2)]])));
            v.push(p(format!("forwarding to a void {} {dt}", cs(&c)), Prog::new(vec![void(), c], vec![vec![Op::Fwd(1, 0, dt)], vec![e(1, 1), Op::Incr(3), ef(1, 4, 2), e(1, 3)]])));
            v.push(p(format!("void within a loop {} {dt}", cs(&c)), Prog::new(vec![void(), c, c], vec![vec![e(1, 1), ef(0, dt, 1), Op::Deq(2), ef(0, dt, 2), Op::PeekNext(2)], vec![Op::Deq(1), ef(2, dt, 3)]])));
            v.push(p(
                format!("several voids {} {dt}", cs(&c)),
                Prog::new(vec![void(), c, void(), void()], vec![vec![ef(0, dt, 1), e(2, 2), e(1, 3), ef(2, dt, 4), e(1, 4)], vec![Op::Deq(1), ef(3, dt, 1), Op::PeekNext(1), ef(3, dt, 1), Op::Peek(1), Op::Deq(1)]]),
            ));
        }
    }
    // many elements
    for dt in [0u64, 40, 70_000, 5_000_000_000] {
        let n = if th { 3000 } else { 300 };
        let mut s: Vec<Op> = (0..n).flat_map(|i| vec![ef(0, dt, i), Op::Incr(i % 2)]).collect();
        s.push(e(1, 1));
        v.push(p(format!("{n} elements to a void {dt}"), Prog::new(vec![void(), b(1, 1, 1)], vec![s, vec![Op::Deq(1)]])));
    }
    v
}
/// Every pair of scripts over two channels in opposite directions.
pub fn all_crossing(len: usize, chs: &[Ch]) -> Vec<P> {
    let mut v = vec![];
    for c in chs {
        for a in words(&[e(0, 0), Op::Deq(1), Op::Incr(2)], len) {
            for b in words(&[Op::Deq(0), e(1, 0), Op::Incr(3)], len) {
                let (a, b) = (number(a.clone()), number(b.clone()));
                if !a.iter().any(|o| matches!(o, Op::Enq(..))) || !b.iter().any(|o| matches!(o, Op::Enq(..))) {
                    continue;
                }
                if !a.iter().any(|o| matches!(o, Op::Deq(..))) && !b.iter().any(|o| matches!(o, Op::Deq(..))) {
                    continue;
                }
                v.push(p(format!("cross {} {} / {}", cs(c), ws(&a), ws(&b)), Prog::new(vec![*c, *c], vec![a, b])).nondet());
            }
        }
    }
    v
}
/// Every pair of scripts over two channels in the same direction.
pub fn all_double(len: usize, chs: &[Ch]) -> Vec<P> {
    let mut v = vec![];
    for c in chs {
        for a in words(&[e(0, 0), e(1, 0), Op::Incr(2)], len) {
            for b in words(&[Op::Deq(0), Op::Deq(1), Op::Incr(3)], len) {
                let (a, b) = (number(a.clone()), number(b.clone()));
                if !a.iter().any(|o| matches!(o, Op::Enq(0, ..))) || !a.iter().any(|o| matches!(o, Op::Enq(1, ..))) {
                    continue;
                }
                if !b.iter().any(|o| matches!(o, Op::Deq(..))) {
                    continue;
                }
                v.push(p(format!("double {} {} / {}", cs(c), ws(&a), ws(&b)), Prog::new(vec![*c, *c], vec![a, b])).nondet());
            }
        }
    }
    v
}
/// Two channels in the same direction, the first filling up, at clocks that meet exactly.
pub fn tight(chs: &[Ch], incs: &[u64]) -> Vec<P> {
    let mut v = vec![];
    let with = |w: &[Op]| -> Vec<Vec<Op>> {
        let mut v = vec![w.to_vec()];
        for n in incs {
            for i in 0..w.len() {
                let mut x = w.to_vec();
                x.insert(i, Op::Incr(*n));
                v.push(x);
            }
        }
        v
    };
    for c in chs {
        for a in [[e(0, 0), e(0, 0), e(1, 0)], [e(0, 0), e(1, 0), e(0, 0)], [e(1, 0), e(0, 0), e(0, 0)]].iter().flat_map(|w| with(w)) {
            for b in [[Op::Deq(0), Op::Deq(1), Op::Deq(0)], [Op::Deq(0), Op::Deq(0), Op::Deq(1)], [Op::Deq(1), Op::Deq(0), Op::Deq(0)]]
                .iter()
                .flat_map(|w| with(w))
            {
                let a = number(a.clone());
                v.push(p(format!("tight {} {} / {}", cs(c), ws(&a), ws(&b)), Prog::new(vec![*c, *c], vec![a.clone(), b])));
            }
        }
    }
    v
}
/// Every pair of scripts over two channels in opposite directions, one side looking before it answers.
pub fn all_meeting(len: usize, chs: &[Ch], look: Op) -> Vec<P> {
    let mut v = vec![];
    for c in chs {
        for a in words(&[e(0, 0), Op::Deq(1), Op::Incr(2)], len) {
            for b in words(&[look.clone(), Op::Deq(0), e(1, 0), Op::Incr(2)], len) {
                let (a, b) = (number(a.clone()), number(b.clone()));
                if !b.contains(&look) || !a.iter().any(|o| matches!(o, Op::Deq(..))) {
                    continue;
                }
                v.push(p(format!("meeting {} {} / {}", cs(c), ws(&a), ws(&b)), Prog::new(vec![*c, *c], vec![a, b])).nondet());
            }
        }
    }
    v
}
/// The recorded finding: how far the clock of a receiver on a cyclic channel gets before it learns that the sender has
/// ended depends on the schedule, and so does everything it does afterwards.
pub fn after_the_end() -> Prog {
    Prog::new(vec![b(1, 1, 1)], vec![vec![e(0, 1), Op::Incr(5)], vec![Op::Deq(0), Op::Deq(0), Op::Incr(1)]])
}

/// Few schedules of large programs: what counters, buffers and clocks do beyond the small values of the other families.
/// Long streams, wide channels, long latencies, late times.
pub fn large_streams(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let n: u64 = if th { 160 } else { 70 };
    for (c, txs, rxs) in [
        (b(9, 1, 1), vec!["burst", "paced"], vec!["drain3", "peeky", "held"]),
        (b(17, 5, 3), vec!["burst", "mixed"], vec!["drain", "drain3"]),
        (b(33, 1, 40), vec!["burst"], vec!["drain1"]),
        (b(2, 1, 1), vec!["burst"], vec!["drain3"]),
        (u(1), vec!["burst", "mixed"], vec!["drain", "exact"]),
        (u(300), vec!["paced"], vec!["peeky"]),
    ] {
        for t in txs {
            for r in &rxs {
                v.push(
                    p(format!("long n{n} {} {t} {r}", cs(&c)), Prog::new(vec![c], vec![sender(0, n, t), receiver(0, n, r)]))
                        .cost(30),
                );
            }
        }
    }
    // a channel of many elements, filled and then some
    for c in [b(100, 1, 1), b(70, 300, 1)] {
        let n = c.cap.unwrap() as u64 + 3;
        v.push(p(format!("wide n{n} {}", cs(&c)), Prog::new(vec![c], vec![sender(0, n, "burst"), receiver(0, n, "late")])).cost(30));
    }
    // a receiver that is far ahead of the sender, and one that takes many at once
    v.push(
        p(
            "one bite",
            Prog::new(
                vec![b(20, 1, 1)],
                vec![[sender(0, 45, "burst"), vec![Op::Incr(1)]].concat(), vec![Op::Adv(1000), Op::Drain(0, 0)]],
            ),
        )
        .cost(20),
    );
    v
}
/// Capacities and streams beyond bytes and words; too large for more than the default schedule and a few delays.
pub fn huge(tier: Tier) -> Vec<P> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for cap in if th { vec![255usize, 256, 257, 300, 1030, 5000, 66_000] } else { vec![257, 1030, 66_000] } {
        for (lat, resp) in [(1u64, 1u64), (3, 2)] {
            let c = b(cap, lat, resp);
            let n = cap as u64 + 3;
            v.push(p(format!("huge capacity {} late", cs(&c)), Prog::new(vec![c], vec![sender(0, n, "burst"), receiver(0, n, "late")])));
            v.push(p(format!("huge capacity {} held", cs(&c)), Prog::new(vec![c], vec![[sender(0, n, "burst"), vec![Op::Incr(1), e(0, 5)]].concat(), vec![Op::Adv(70_000), Op::Drain(0, 1)]])));
            // the receiver waits for what the sender does after its burst
            let d = b(1, 1, 1);
            v.push(p(format!("huge capacity {} after another", cs(&c)), Prog::new(vec![c, d], vec![[sender(0, n - 3, "burst"), vec![e(1, 7)]].concat(), vec![Op::Deq(1), Op::Drain(0, 1)]])));
            v.push(p(format!("huge capacity {} peeky", cs(&c)), Prog::new(vec![c], vec![sender(0, n, "burst"), receiver(0, n, "peeky")])));
        }
    }
    for c in [b(1, 1, 1), b(3, 2, 1), u(1)] {
        for n in if th { vec![300u64, 70_000, 140_000] } else { vec![300, 70_000] } {
            for (t, r) in [("burst", "drain1"), ("mixed", "exact"), ("paced", "peeky")] {
                v.push(p(format!("huge stream of {n} {} {t} {r}", cs(&c)), Prog::new(vec![c], vec![sender(0, n, t), receiver(0, n, r)])));
            }
        }
    }
    v
}
/// Latencies and clocks far beyond small integers.
pub fn large_times(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let bigs: &[u64] = if th { &[127, 300, 32_768, 70_000, 1 << 20, 3_000_000_000, 5_000_000_000, 1 << 53] } else { &[300, 70_000, 5_000_000_000] };
    for &l in bigs {
        for c in [b(1, l, 1), b(2, 1, l), b(2, l, l), u(l)] {
            for r in ["exact", "peeky", "drain1"] {
                v.push(p(format!("slow {} {r}", cs(&c)), Prog::new(vec![c], vec![sender(0, 4, "burst"), receiver(0, 4, r)])).cost(2));
            }
        }
        for c in [b(1, 1, 1), b(2, 3, 2), u(1)] {
            let tx = vec![Op::Incr(l), e(0, 1), ef(0, l, 2), Op::Adv(2 * l + 5), e(0, 3), Op::Incr(l), e(0, 4)];
            for (n, rx) in [
                ("drain", vec![Op::Drain(0, 0)]),
                ("peek", vec![Op::Peek(0), Op::PeekNext(0), Op::Peek(0), Op::Deq(0), Op::Peek(0), Op::Next(0), Op::Deq(0), Op::Next(0), Op::Drain(0, l)]),
                ("ahead", vec![Op::Adv(l / 2), Op::Peek(0), Op::Next(0), Op::Deq(0), Op::Incr(3 * l), Op::Peek(0), Op::Drain(0, 0)]),
            ] {
                v.push(p(format!("late {l} {} {n}", cs(&c)), Prog::new(vec![c], vec![tx.clone(), rx])).cost(3));
            }
        }
    }
    v
}
/// Many contexts.
pub fn large_graphs(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let k: usize = if th { 13 } else { 9 };
    let chs = if th { vec![b(1, 1, 1), b(2, 3, 2), u(1)] } else { vec![b(1, 1, 1), u(2)] };
    for c in chs {
        // all wait for one clock
        let mut hub: Vec<Op> = vec![Op::Incr(3)];
        hub.extend((0..k).rev().map(|i| e(i, i as u64)));
        hub.push(Op::Incr(4));
        hub.extend((0..k).map(|i| e(i, 100 + i as u64)));
        let leaf = |i: usize| match i % 3 {
            0 => vec![Op::Deq(i), Op::Deq(i)],
            1 => vec![Op::Adv(1 + i as u64), Op::Peek(i), Op::Deq(i), Op::PeekNext(i), Op::Deq(i)],
            _ => vec![Op::Peek(i), Op::Next(i), Op::Deq(i), Op::Peek(i), Op::Deq(i), Op::Next(i)],
        };
        let mut ctxs = vec![hub.clone()];
        ctxs.extend((0..k).map(leaf));
        v.push(p(format!("star of {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(15));
        // the same, all wait for the same instants
        let mut ctxs = vec![vec![]];
        for _ in 0..2 {
            ctxs[0].push(Op::Incr(9));
            ctxs[0].extend((0..k).map(|i| e(i, i as u64)));
        }
        ctxs.extend((0..k).map(|i| vec![Op::Adv(5), Op::Peek(i), Op::Incr(1), Op::Peek(i), Op::Deq(i), Op::Peek(i), Op::Deq(i)]));
        v.push(p(format!("watchers of one clock, {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(15));
        // everything into one
        let mut ctxs: Vec<Vec<Op>> = (0..k).map(|i| vec![Op::Incr(((i * 7) % k) as u64), e(i, i as u64), Op::Incr(2), e(i, 50 + i as u64)]).collect();
        ctxs.push(vec![Op::Arb((0..k).collect(), None, 1)]);
        v.push(p(format!("arbiter of {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(15));
        let mut ctxs: Vec<Vec<Op>> = (0..k).map(|i| vec![Op::Incr(((i * 7) % k) as u64), e(i, i as u64)]).collect();
        ctxs.push(vec![Op::Any((0..k).collect()), Op::All((0..k).collect()), Op::Join((0..k).collect(), None, 1)]);
        v.push(p(format!("events of {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(15));
        // a ring; in one the clocks are far apart
        for far in [false, true] {
            let mut ctxs = vec![vec![e(0, 1), Op::Loop(k - 1, 0, 2), Op::Deq(k - 1)]];
            ctxs.extend((1..k).map(|i| {
                let mut s = if far { vec![Op::Incr((40 * i) as u64)] } else { vec![] };
                s.push(Op::Loop(i - 1, i, 3));
                s
            }));
            v.push(p(format!("ring of {k} {}{}", cs(&c), if far { " apart" } else { "" }), Prog::new(vec![c; k], ctxs)).cost(15));
        }
        // a chain
        let mut ctxs = vec![sender(0, 3, "paced")];
        ctxs.extend((1..k).map(|i| vec![Op::Fwd(i - 1, i, (i % 3) as u64)]));
        ctxs.push(vec![Op::Drain(k - 1, 0)]);
        v.push(p(format!("chain of {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(15));
        // a ladder: two chains with a rung at every step, the second fed back into the first at the end
        let h = k / 2;
        let mut ctxs = vec![vec![e(0, 1)]];
        ctxs.extend((1..h).map(|i| vec![Op::Deq(i - 1), ea(i), ea(h + i)]));
        ctxs.push(vec![Op::Deq(h - 1)]);
        ctxs.extend((1..h).map(|i| vec![Op::PeekNext(h + i), Op::Incr(1), Op::Deq(h + i)]));
        let mut chans = vec![c; 2 * h];
        chans[h] = void();
        ctxs[0].push(Op::Enq(h, 0, V::C(3)));
        v.push(p(format!("ladder of {h} {}", cs(&c)), Prog::new(chans, ctxs)).cost(15));
    }
    v
}
pub fn large(tier: Tier) -> Vec<P> {
    let mut v = large_streams(tier);
    v.extend(large_times(tier));
    v.extend(large_graphs(tier));
    v
}
/// Backpressure through many channels and over many elements.
pub fn large_pressure(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    for (cap, lat, resp) in if th { vec![(3, 1, 1), (4, 2, 3), (8, 1, 1), (9, 3, 1), (16, 1, 7), (31, 1, 1)] } else { vec![(4, 2, 3), (9, 3, 1), (17, 1, 7)] } {
        let c = b(cap, lat, resp);
        let n = 3 * cap as u64 + 2;
        for r in ["drain1", "drain3", "late", "held"] {
            v.push(
                p(
                    format!("many times full {} {r}", cs(&c)),
                    Prog::new(vec![c], vec![[sender(0, n, "burst"), vec![Op::Incr(1)]].concat(), receiver(0, n, r)]),
                )
                .cost(20),
            );
        }
        // in bites: it fills, then is emptied at once
        let bites = (0..3).flat_map(|_| [vec![Op::Incr(100)], vec![Op::Deq(0); cap]].concat()).collect::<Vec<_>>();
        v.push(
            p(
                format!("in bites {}", cs(&c)),
                Prog::new(vec![c], vec![sender(0, 3 * cap as u64, "burst"), bites]),
            )
            .cost(20),
        );
        let tx: Vec<Op> = (0..n).flat_map(|i| [Op::Wait(0), e(0, i)]).collect();
        v.push(p(format!("wait, many times {}", cs(&c)), Prog::new(vec![c], vec![tx, receiver(0, n, "drain3")])).cost(20));
    }
    // pressure travels up a chain
    for k in if th { vec![3, 6] } else { vec![5] } {
        for c in [b(1, 1, 1), b(2, 2, 3)] {
            let mut ctxs = vec![sender(0, 12, "burst")];
            ctxs.extend((1..k).map(|i| vec![Op::Fwd(i - 1, i, 0)]));
            ctxs.push(vec![Op::Incr(50), Op::Drain(k - 1, 4)]);
            v.push(p(format!("pressure up a chain of {k} {}", cs(&c)), Prog::new(vec![c; k], ctxs)).cost(20));
        }
    }
    v
}
/// Ends of long streams and of many streams.
pub fn large_closing(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    let n: u64 = if th { 60 } else { 24 };
    for c in [b(1, 1, 1), b(9, 2, 1), b(40, 1, 3), u(1), u(40)] {
        v.push(
            p(
                format!("drop after {n}, keep running {}", cs(&c)),
                Prog::new(vec![c], vec![[sender(0, n, "burst"), vec![Op::DropTx(0), Op::Incr(500)]].concat(), vec![Op::Drain(0, 1), Op::Peek(0), Op::PeekNext(0), Op::Deq(0)]]),
            )
            .cost(10),
        );
        v.push(
            p(
                format!("finish after {n} {}", cs(&c)),
                Prog::new(vec![c], vec![sender(0, n, "paced"), vec![Op::Incr(1000), Op::Drain(0, 0), Op::Next(0), Op::Deq(0)]]),
            )
            .cost(10),
        );
        for k in [n - 1, n / 2, 5] {
            let mut rx: Vec<Op> = (0..k).map(|_| Op::Deq(0)).collect();
            rx.extend([Op::DropRx(0), Op::Incr(3)]);
            v.push(
                p(format!("receiver leaves after {k} of {n} {}", cs(&c)), Prog::new(vec![c], vec![[sender(0, n, "burst"), vec![Op::DropTx(0)]].concat(), rx]))
                    .nondet()
                    .cost(10),
            );
        }
        let k = if th { 10 } else { 7 };
        // streams of different lengths into one, and one after the other
        let ctxs = |last: Vec<Op>| {
            let mut x: Vec<Vec<Op>> = (0..k).map(|i| sender(i, (i * 3 % 5) as u64 + 1, if i % 2 == 0 { "paced" } else { "burst" })).collect();
            x.push(last);
            x
        };
        v.push(p(format!("{k} ends, arbiter {}", cs(&c)), Prog::new(vec![c; k], ctxs(vec![Op::Arb((0..k).collect(), None, 1)]))).cost(10));
        v.push(p(format!("{k} ends, one by one {}", cs(&c)), Prog::new(vec![c; k], ctxs((0..k).flat_map(|i| [Op::Drain(i, 1), Op::Deq(i)]).collect()))).cost(10));
    }
    v
}
/// Rings in which one link fills up while its receiver looks at it: they finish because the sender of a full channel
/// within a ring is not stuck in time.  `k` contexts; the element goes round once.
pub fn full_rings(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let ks: &[usize] = if tier == Tier::Thorough { &[2, 3, 4, 5, 7, 9, 13, 14] } else { &[2, 3, 4, 9, 13] };
    for &k in ks {
        for (cap, look) in [(1usize, Op::Peek(0)), (1, Op::Next(0)), (2, Op::Peek(0))] {
            for wide in [false, true] {
                let mut ctxs = vec![vec![]; k];
                let n = cap as u64 + 1;
                ctxs[0] = (0..n).map(|i| e(0, i)).collect();
                ctxs[0].push(Op::Deq(k - 1));
                ctxs[1] = vec![Op::Incr(5), look.clone()];
                ctxs[1].extend((0..n).map(|_| Op::Deq(0)));
                if k == 2 {
                    ctxs[1].push(e(1, 7));
                } else {
                    ctxs[1].push(e(1, 7));
                    for i in 2..k {
                        ctxs[i] = vec![Op::Deq(i - 1), ea(i)];
                    }
                }
                let mut chans = vec![b(1, 2, 1); k];
                chans[0] = b(cap, 1, 1);
                let mut name = format!("full ring of {k} cap {cap} {}", ws(&[look.clone()]));
                if wide {
                    // something that is not part of the ring hangs off it
                    chans.push(b(3, 1, 1));
                    ctxs[k - 1].push(e(k, 1));
                    ctxs.push(vec![Op::Deq(k), Op::Deq(k)]);
                    name += " and a tail";
                }
                v.push(p(name, Prog::new(chans, ctxs)).cost(5));
            }
        }
    }
    // several rings, apart or one feeding the next
    let th = tier == Tier::Thorough;
    let sets: &[&[usize]] = if th { &[&[2, 2], &[2, 4], &[4, 2], &[3, 3], &[2, 3, 4], &[4, 3, 2], &[3, 8], &[8, 3], &[2, 2, 2, 2]] } else { &[&[2, 2], &[2, 4], &[4, 2], &[3, 2, 4]] };
    for sizes in sets {
        for link in ["apart", "linked forward", "linked backward"] {
            for look in [Op::Peek(0), Op::Next(0)] {
                let mut chans = vec![];
                let mut ctxs: Vec<Vec<Op>> = vec![];
                let mut tails = vec![];
                for &k in sizes.iter() {
                    let c0 = chans.len();
                    tails.push((ctxs.len(), ctxs.len() + k - 1));
                    chans.extend(vec![b(1, 2, 1); k]);
                    chans[c0] = b(1, 1, 1);
                    ctxs.push(vec![e(c0, 0), e(c0, 1), Op::Deq(c0 + k - 1)]);
                    let l = if matches!(look, Op::Peek(_)) { Op::Peek(c0) } else { Op::Next(c0) };
                    ctxs.push(vec![Op::Incr(5), l, Op::Deq(c0), Op::Deq(c0), e(c0 + 1, 7)]);
                    for i in 2..k {
                        ctxs.push(vec![Op::Deq(c0 + i - 1), ea(c0 + i)]);
                    }
                }
                if link != "apart" {
                    for w in tails.windows(2) {
                        let ch = chans.len();
                        chans.push(b(1, 1, 1));
                        let (from, to) = if link == "linked forward" { (w[0].1, w[1].0) } else { (w[1].1, w[0].0) };
                        ctxs[from].push(e(ch, 3));
                        ctxs[to].push(Op::Deq(ch));
                    }
                }
                let n = sizes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+");
                v.push(p(format!("rings of {n} {link} {}", ws(&[look.clone()])), Prog::new(chans, ctxs)).cost(3));
            }
        }
    }
    v
}
/// Contexts that hold both ends of a channel.
/// Identifiers of contexts and channels that have been used up before the program is built.
pub const USED: [(usize, usize); 4] = [(300, 0), (0, 300), (66_000, 0), (0, 66_000)];
/// Programs in a process that has made many contexts and channels before.
pub fn late_comers() -> Vec<P> {
    let mut v = vec![];
    for (i, u) in USED.into_iter().enumerate() {
        for x in shapes(Tier::Quick).into_iter().filter(|x| !x.name.ends_with("rev")).step_by(4).skip(i) {
            v.push(P { name: format!("{} after {u:?} identifiers", x.name), p: x.p.after(u.0, u.1), ..x });
        }
    }
    v
}
pub fn self_loops(tier: Tier) -> Vec<P> {
    let mut v = vec![];
    let chs = if tier == Tier::Thorough { vec![b(1, 1, 1), b(2, 1, 1), b(2, 3, 2), b(1, 4, 1), u(1), u(3)] } else { vec![b(1, 1, 1), b(2, 3, 2), u(2)] };
    for c in chs {
        for (n, w) in [
            ("e d", vec![e(0, 1), Op::Deq(0)]),
            ("e p i p d", vec![e(0, 1), Op::Peek(0), Op::Incr(2), Op::Peek(0), Op::Deq(0)]),
            ("p e p d p", vec![Op::Peek(0), e(0, 1), Op::Peek(0), Op::Deq(0), Op::Peek(0)]),
            ("e n d e d", vec![e(0, 1), Op::PeekNext(0), Op::Deq(0), Op::Incr(1), e(0, 2), Op::Deq(0)]),
            ("v e v d v", vec![Op::Next(0), e(0, 1), Op::Next(0), Op::Deq(0), Op::Next(0)]),
            ("e+ d drop", vec![ef(0, 4, 1), Op::Deq(0), Op::DropTx(0), Op::Peek(0), Op::Deq(0)]),
            ("i e d e d e d", vec![Op::Incr(3), e(0, 1), Op::Deq(0), e(0, 2), Op::Deq(0), e(0, 3), Op::Deq(0)]),
        ] {
            v.push(p(format!("self {} {n}", cs(&c)), Prog::new(vec![c], vec![w.clone()])).cost(1));
            // while another context feeds or watches it
            let mut w2 = w.clone();
            w2.insert(1, Op::Deq(1));
            v.push(p(format!("self {} {n} fed", cs(&c)), Prog::new(vec![c, b(1, 2, 1)], vec![w2, vec![Op::Incr(1), e(1, 5)]])).cost(1));
        }
    }
    v
}
