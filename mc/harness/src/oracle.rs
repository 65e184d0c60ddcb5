//! Judges the history of one execution against the documented timing rules.  Every rule is local (one operation, the
//! elements of its channel and the responses it waited for), so it applies to any program whatever its shape; together
//! the rules determine every value and every timestamp of a program that only blocks.
use crate::dsl::*;

pub struct ChanView {
    /// (element time, value, index in the sender's log)
    pub sends: Vec<(u64, u64)>,
    /// (receiver's local time once it held the element)
    pub takes: Vec<u64>,
    pub tx_final: u64,
    pub rx_final: u64,
    pub saw_closed: bool,
    pub rx_dropped_early: bool,
}

fn e(p: &Prog, c: usize, i: usize, ev: &Ev, m: &str) -> String {
    let _ = p;
    format!("context {c}, operation {i} {ev:?}: {m}")
}

pub fn views(p: &Prog, logs: &[Vec<Ev>]) -> Vec<ChanView> {
    let mut v: Vec<ChanView> = p
        .chans
        .iter()
        .map(|_| ChanView {
            sends: vec![],
            takes: vec![],
            tx_final: 0,
            rx_final: 0,
            saw_closed: false,
            rx_dropped_early: false,
        })
        .collect();
    for (c, log) in logs.iter().enumerate() {
        for ev in log {
            match (&ev.k, &ev.res) {
                (Kind::Enq { dt, v: val }, Res::Ok) => {
                    let ch = &p.chans[ev.ch];
                    v[ev.ch].sends.push(((ev.before + dt).max(ev.after + ch.lat), *val))
                }
                (Kind::Deq, Res::Elem(..)) => v[ev.ch].takes.push(ev.after),
                (Kind::Deq | Kind::PeekNext | Kind::Peek | Kind::Next | Kind::AllClosed, Res::Closed) => v[ev.ch].saw_closed = true,
                _ => {}
            }
        }
        let last = log.last().map(|e| e.after).unwrap_or(0);
        let (tx, rx) = p.uses(c);
        for x in tx {
            v[x].tx_final = last
        }
        for x in rx {
            v[x].rx_final = last
        }
    }
    v
}

/// `Ok` when the history of a finished execution obeys every rule.
pub fn check(p: &Prog, logs: &[Vec<Ev>]) -> Result<(), String> {
    let vs = views(p, logs);
    for (ch, v) in vs.iter().enumerate() {
        if v.takes.len() > v.sends.len() {
            return Err(format!("channel {ch}: {} elements were received but only {} sent", v.takes.len(), v.sends.len()));
        }
    }
    for (c, log) in logs.iter().enumerate() {
        let mut sent = vec![0usize; p.chans.len()];
        let mut taken = vec![0usize; p.chans.len()];
        let mut closed = vec![false; p.chans.len()];
        let mut now = 0u64;
        let mut unsure = false; // the local time after an end-of-stream is only known within bounds
        for (i, ev) in log.iter().enumerate() {
            let bad = |m: String| Err(e(p, c, i, ev, &m));
            if ev.before != now {
                return bad(format!("local time was {now} before"));
            }
            if ev.after < ev.before {
                return bad("local time went backwards".into());
            }
            now = ev.after;
            let ch = ev.ch;
            let mut want: Option<u64> = Some(ev.before);
            match ev.k {
                Kind::Enq { .. } | Kind::Wait => {
                    let cd = &p.chans[ch];
                    match ev.res {
                        Res::Ok => {
                            if let Some(cap) = cd.cap {
                                if sent[ch] >= cap {
                                    match vs[ch].takes.get(sent[ch] - cap) {
                                        Some(d) => want = Some(ev.before.max(d + cd.resp)),
                                        None => {
                                            return bad(format!(
                                                "succeeded with {} elements unreceived in a channel of capacity {cap}",
                                                sent[ch] + 1 - vs[ch].takes.len()
                                            ))
                                        }
                                    }
                                }
                            }
                            if matches!(ev.k, Kind::Enq { .. }) {
                                sent[ch] += 1;
                            }
                        }
                        Res::Err => {
                            want = None; // how far the sender got before it learnt of the closure is not specified
                            if cd.void {
                                return bad("a void channel reported closure".into());
                            }
                            if vs[ch].saw_closed {
                                return bad("the receiver was still there at the end of the stream".into());
                            }
                            if vs[ch].takes.len() > sent[ch] {
                                return bad("reported closure for an element that was received".into());
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                Kind::Deq | Kind::PeekNext => match ev.res {
                    Res::Elem(et, val) => {
                        let Some((st, sv)) = vs[ch].sends.get(taken[ch]) else {
                            return bad("an element that was never sent".into());
                        };
                        if (et, val) != (*st, *sv) {
                            return bad(format!("element {} of the channel is ({st}, {sv})", taken[ch]));
                        }
                        if closed[ch] {
                            return bad("an element after the end of the stream".into());
                        }
                        want = Some(ev.before.max(et));
                        if ev.k == Kind::Deq {
                            taken[ch] += 1;
                        }
                    }
                    Res::Closed => {
                        want = None;
                        unsure = true;
                        let bound = ev.before.max(vs[ch].tx_final.saturating_add(1));
                        if ev.after > bound {
                            return bad(format!("end of stream advanced the receiver past {bound}"));
                        }
                        closed[ch] = true;
                        if vs[ch].sends.len() != taken[ch] {
                            return bad(format!(
                                "closure reported after {} of {} elements",
                                taken[ch],
                                vs[ch].sends.len()
                            ));
                        }
                    }
                    _ => unreachable!(),
                },
                Kind::Peek | Kind::Next | Kind::AllClosed => {
                    let next = vs[ch].sends.get(taken[ch]);
                    match ev.res {
                        Res::Something(et, val) => {
                            if next != Some(&(et, val)) {
                                return bad(format!("the next element is {next:?}"));
                            }
                        }
                        Res::Ready(et) => {
                            if next.map(|n| n.0) != Some(et) {
                                return bad(format!("the next element is {next:?}"));
                            }
                        }
                        Res::Nothing(x) => {
                            if x < ev.before {
                                return bad("claims less than the local time".into());
                            }
                            if let Some(n) = next {
                                if n.0 <= x {
                                    return bad(format!("but the next element is {n:?}"));
                                }
                            }
                            if x == INF && !matches!(ev.k, Kind::Peek) {
                                return bad("nothing forever is closure".into());
                            }
                        }
                        Res::Closed => {
                            if next.is_some() {
                                return bad(format!("but the next element is {next:?}"));
                            }
                        }
                        _ => unreachable!(),
                    }
                    if closed[ch] && !matches!(ev.res, Res::Closed) {
                        return bad("after the end of the stream".into());
                    }
                    if matches!(ev.res, Res::Closed) {
                        closed[ch] = true;
                    }
                }
                Kind::Incr(n) => want = Some(ev.before + n),
                Kind::Adv(x) => want = Some(ev.before.max(x)),
                Kind::Pick => {
                    let Res::Pick(idx) = ev.res else { unreachable!() };
                    let ins = p.ctxs[c]
                        .iter()
                        .find_map(|o| match o {
                            Op::Arb(ins, ..) => Some(ins.clone()),
                            _ => None,
                        })
                        .unwrap();
                    let Some(me) = vs[ch].sends.get(taken[ch]) else {
                        return bad("picked a channel with nothing in it".into());
                    };
                    for (j, o) in ins.iter().enumerate() {
                        if j != idx {
                            if let Some(x) = vs[*o].sends.get(taken[*o]) {
                                if (x.0, j) < (me.0, idx) {
                                    return bad(format!(
                                        "input {j} had an earlier element {x:?} than the picked {me:?}"
                                    ));
                                }
                            }
                        }
                    }
                }
                Kind::Any | Kind::All => {
                    let heads: Vec<Option<u64>> = (0..p.chans.len())
                        .filter(|c| ch >> c & 1 == 1)
                        .map(|c| vs[c].sends.get(taken[c]).map(|x| x.0))
                        .collect();
                    let first = heads.iter().flatten().min().copied();
                    let all = heads.iter().all(|h| h.is_some()).then(|| heads.iter().flatten().max().copied()).flatten();
                    let want = if ev.k == Kind::Any { first } else { all };
                    match ev.res {
                        Res::Ready(x) => {
                            if want != Some(x) {
                                return bad(format!("the next elements are at {heads:?}"));
                            }
                        }
                        Res::Nothing(x) => {
                            if x < ev.before {
                                return bad("claims less than the local time".into());
                            }
                            if want.is_some_and(|w| w <= x) {
                                return bad(format!("but the next elements are at {heads:?}"));
                            }
                        }
                        Res::Closed => {
                            if want.is_some() {
                                return bad(format!("but the next elements are at {heads:?}"));
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                Kind::DropTx | Kind::DropRx | Kind::End => {}
            }
            if let Some(w) = want {
                if ev.after != w {
                    return bad(format!("local time should be {w}"));
                }
            }
        }
        let _ = unsure;
    }
    Ok(())
}

/// The schedule-independent part of a history: everything except what `peek` happened to see, and local times once an
/// end of stream was met.
pub fn canon(logs: &[Vec<Ev>]) -> Vec<Vec<Ev>> {
    logs.iter()
        .map(|l| {
            let mut blur = false;
            let mut picked = false;
            let mut out = vec![];
            for e in l {
                let mut e = e.clone();
                if e.res == Res::Closed && !matches!(e.k, Kind::Peek | Kind::Next | Kind::Any | Kind::All) {
                    blur = true;
                }
                match e.k {
                    Kind::Peek | Kind::Next | Kind::Adv(_) | Kind::Any | Kind::All => continue,
                    _ => {}
                }
                if blur {
                    e.before = 0;
                    e.after = 0;
                }
                // reached through however many "nothing yet" steps
                if picked {
                    e.before = 0;
                }
                picked = matches!(e.k, Kind::Pick);
                if picked {
                    e.before = 0;
                    e.after = 0;
                }
                out.push(e);
            }
            out
        })
        .collect()
}

/// Untimed execution with the same capacities: does the program finish?  Blocking operations only.
pub fn finishes(p: &Prog) -> bool {
    #[derive(Clone)]
    struct C {
        q: usize,
        infl: usize,
        tx: bool,
        rx: bool,
    }
    let mut ch: Vec<C> = p.chans.iter().map(|_| C { q: 0, infl: 0, tx: true, rx: true }).collect();
    let mut pc = vec![(0usize, 0usize, 0usize); p.ctxs.len()]; // op, sub-state, loop counter
    let mut alive = vec![true; p.ctxs.len()];
    loop {
        let mut moved = false;
        for c in 0..p.ctxs.len() {
            while alive[c] {
                let ops = &p.ctxs[c];
                let done = pc[c].0 >= ops.len();
                if done {
                    alive[c] = false;
                    let (tx, rx) = p.uses(c);
                    for x in tx {
                        ch[x].tx = false
                    }
                    for x in rx {
                        ch[x].rx = false
                    }
                    moved = true;
                    break;
                }
                // Some(true): op finished; Some(false): progressed within; None: blocked
                let full = |ch: &Vec<C>, x: usize| p.chans[x].cap.map(|k| ch[x].infl >= k).unwrap_or(false);
                let op = ops[pc[c].0].clone();
                let mut stop = false;
                macro_rules! enq {
                    ($x:expr) => {{
                        let x = $x;
                        if p.chans[x].void {
                            Some(true)
                        } else if !ch[x].rx {
                            stop = true;
                            Some(true)
                        } else if full(&ch, x) {
                            None
                        } else {
                            ch[x].q += 1;
                            ch[x].infl += 1;
                            Some(true)
                        }
                    }};
                }
                macro_rules! deq {
                    ($x:expr) => {{
                        let x = $x;
                        if ch[x].q > 0 {
                            ch[x].q -= 1;
                            ch[x].infl -= 1;
                            Some(1)
                        } else if !ch[x].tx {
                            Some(0)
                        } else {
                            None
                        }
                    }};
                }
                let r = match op {
                    Op::Enq(x, ..) => enq!(x),
                    Op::Wait(x) => {
                        if p.chans[x].void {
                            Some(true)
                        } else if !ch[x].rx {
                            stop = true;
                            Some(true)
                        } else if full(&ch, x) {
                            None
                        } else {
                            Some(true)
                        }
                    }
                    Op::Deq(x) => deq!(x).map(|_| true),
                    Op::PeekNext(x) => {
                        if ch[x].q > 0 || !ch[x].tx {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    Op::Peek(_) | Op::Next(_) | Op::Incr(_) | Op::Adv(_) | Op::Any(_) | Op::All(_) => Some(true),
                    Op::Panic | Op::Fail => {
                        stop = true;
                        Some(true)
                    }
                    Op::DropTx(x) => {
                        ch[x].tx = false;
                        Some(true)
                    }
                    Op::DropRx(x) => {
                        ch[x].rx = false;
                        Some(true)
                    }
                    Op::Drain(x, _) => deq!(x).map(|k| k == 0),
                    Op::Fwd(a, b, _) => {
                        if pc[c].1 == 0 {
                            match deq!(a) {
                                Some(1) => {
                                    pc[c].1 = 1;
                                    Some(false)
                                }
                                Some(_) => Some(true),
                                None => None,
                            }
                        } else {
                            enq!(b).map(|_| {
                                pc[c].1 = 0;
                                false
                            })
                        }
                    }
                    Op::Loop(a, b, n) => {
                        if pc[c].2 >= n {
                            Some(true)
                        } else if pc[c].1 == 0 {
                            match deq!(a) {
                                Some(1) => {
                                    pc[c].1 = 1;
                                    Some(false)
                                }
                                Some(_) => Some(true),
                                None => None,
                            }
                        } else {
                            enq!(b).map(|_| {
                                pc[c].1 = 0;
                                pc[c].2 += 1;
                                false
                            })
                        }
                    }
                    Op::Arb(ins, out, _) => {
                        if pc[c].1 == 1 {
                            match out {
                                Some(o) => enq!(o).map(|_| {
                                    pc[c].1 = 0;
                                    false
                                }),
                                None => {
                                    pc[c].1 = 0;
                                    Some(false)
                                }
                            }
                        } else {
                            let mut r = None;
                            for x in &ins {
                                if ch[*x].q > 0 {
                                    let _ = deq!(*x);
                                    pc[c].1 = 1;
                                    r = Some(false);
                                    break;
                                }
                            }
                            if r.is_none() && ins.iter().all(|x| !ch[*x].tx && ch[*x].q == 0) {
                                r = Some(true);
                            }
                            r
                        }
                    }
                    Op::Join(ins, out, _) => {
                        // sub-state counts what was peeked, then taken
                        let n = ins.len();
                        if pc[c].1 < n {
                            let x = ins[pc[c].1];
                            if ch[x].q > 0 || !ch[x].tx {
                                pc[c].1 += 1;
                                Some(false)
                            } else {
                                None
                            }
                        } else if pc[c].1 == n {
                            let mut any = false;
                            for x in &ins {
                                if deq!(*x) == Some(0) {
                                    any = true;
                                }
                            }
                            if any {
                                Some(true)
                            } else {
                                pc[c].1 = n + 1;
                                Some(false)
                            }
                        } else {
                            match out {
                                Some(o) => enq!(o).map(|_| {
                                    pc[c].1 = 0;
                                    false
                                }),
                                None => {
                                    pc[c].1 = 0;
                                    Some(false)
                                }
                            }
                        }
                    }
                };
                match r {
                    Some(true) => {
                        if stop {
                            pc[c].0 = ops.len();
                        } else {
                            pc[c] = (pc[c].0 + 1, 0, 0);
                        }
                        moved = true;
                    }
                    Some(false) => {
                        if stop {
                            pc[c].0 = ops.len();
                        }
                        moved = true;
                    }
                    None => break,
                }
            }
        }
        if alive.iter().all(|a| !a) {
            return true;
        }
        if !moved {
            return false;
        }
    }
}

/// The reference behaviour of a context that is not a script: computed from what the scripts around it sent and took,
/// it leaves the history the context should have had, to be judged with all others by [check].
pub struct Ghost<'a> {
    p: &'a Prog,
    vs: &'a [ChanView],
    pub now: u64,
    taken: Vec<usize>,
    sent: Vec<usize>,
    pub log: Vec<Ev>,
    pub err: Option<String>,
}
impl<'a> Ghost<'a> {
    pub fn new(p: &'a Prog, vs: &'a [ChanView]) -> Ghost<'a> {
        let n = p.chans.len();
        Ghost { p, vs, now: 0, taken: vec![0; n], sent: vec![0; n], log: vec![], err: None }
    }
    fn ev(&mut self, k: Kind, ch: usize, after: u64, res: Res) {
        self.log.push(Ev { k, ch, before: self.now, after, res });
        self.now = after;
    }
    /// the next element without taking it; `None`: the stream ends
    pub fn head(&self, ch: usize) -> Option<(u64, u64)> {
        self.vs[ch].sends.get(self.taken[ch]).copied()
    }
    pub fn deq(&mut self, ch: usize) -> Option<(u64, u64)> {
        match self.head(ch) {
            Some((t, v)) => {
                self.taken[ch] += 1;
                self.ev(Kind::Deq, ch, self.now.max(t), Res::Elem(t, v));
                Some((t, v))
            }
            None => {
                self.closed(ch);
                None
            }
        }
    }
    pub fn peek_next(&mut self, ch: usize) -> Option<(u64, u64)> {
        match self.head(ch) {
            Some((t, v)) => {
                self.ev(Kind::PeekNext, ch, self.now.max(t), Res::Elem(t, v));
                Some((t, v))
            }
            None => {
                let b = self.now.max(self.vs[ch].tx_final.saturating_add(1));
                self.ev(Kind::PeekNext, ch, b, Res::Closed);
                None
            }
        }
    }
    /// the end of the stream, at the latest possible local time
    pub fn closed(&mut self, ch: usize) {
        let b = self.now.max(self.vs[ch].tx_final.saturating_add(1));
        self.ev(Kind::Deq, ch, b, Res::Closed);
    }
    fn space(&mut self, ch: usize) -> u64 {
        let c = &self.p.chans[ch];
        if let Some(cap) = c.cap {
            if self.sent[ch] >= cap {
                match self.vs[ch].takes.get(self.sent[ch] - cap) {
                    Some(d) => return self.now.max(d + c.resp),
                    None => {
                        self.err.get_or_insert(format!("channel {ch} has no space for element {}", self.sent[ch]));
                    }
                }
            }
        }
        self.now
    }
    pub fn wait(&mut self, ch: usize) {
        let a = self.space(ch);
        self.ev(Kind::Wait, ch, a, Res::Ok);
    }
    /// enqueue with the element's own timestamp
    pub fn enq_at(&mut self, ch: usize, at: u64, v: u64) {
        let a = self.space(ch);
        self.sent[ch] += 1;
        let dt = at.saturating_sub(self.now);
        self.ev(Kind::Enq { dt, v }, ch, a, Res::Ok);
    }
    pub fn incr(&mut self, n: u64) {
        self.ev(Kind::Incr(n), 0, self.now + n, Res::Ok);
    }
    pub fn adv(&mut self, x: u64) {
        self.ev(Kind::Adv(x), 0, self.now.max(x), Res::Ok);
    }
    pub fn end(mut self) -> Result<Vec<Ev>, String> {
        self.ev(Kind::End, 0, self.now, Res::Ok);
        match self.err {
            Some(e) => Err(e),
            None => Ok(self.log),
        }
    }
}
