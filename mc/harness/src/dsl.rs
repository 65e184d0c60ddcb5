//! A small language of DAM programs: channels and contexts, each context a straight script of channel operations.
//! Programs are built with the public API of the real crate, run under the explorer, and leave a history per context.
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::{ChannelElement, PeekResult, Receiver, Sender};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Identifiable, Time, TimeManager};
use dam::utility_contexts::FunctionContext;
use std::cell::RefCell;
use std::rc::Rc;

/// what travels in the channels
pub type E = usize;
pub const INF: u64 = u64::MAX;
pub fn t(x: Time) -> u64 {
    if x.is_infinite() {
        INF
    } else {
        x.time()
    }
}

/// Shared between fibers of one execution; they all run on one OS thread.
pub struct Sh<T>(pub Rc<RefCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Self {
        Sh(Rc::new(RefCell::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.0.borrow_mut())
    }
}
impl<T: Clone> Sh<T> {
    pub fn get(&self) -> T {
        self.0.borrow().clone()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ch {
    pub cap: Option<usize>,
    pub lat: u64,
    pub resp: u64,
    pub void: bool,
}
pub fn b(cap: usize, lat: u64, resp: u64) -> Ch {
    Ch { cap: Some(cap), lat, resp, void: false }
}
pub fn u(lat: u64) -> Ch {
    Ch { cap: None, lat, resp: lat + 5, void: false }
}
pub fn void() -> Ch {
    Ch { cap: None, lat: 1, resp: 1, void: true }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    C(u64),
    /// derived from everything dequeued so far
    Acc,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// channel, offset of the data's own timestamp from the local time, value
    Enq(usize, u64, V),
    Deq(usize),
    PeekNext(usize),
    Peek(usize),
    /// `next_event` of the receiver
    Next(usize),
    Incr(u64),
    Adv(u64),
    Wait(usize),
    DropTx(usize),
    DropRx(usize),
    /// dequeue until closed, advancing by this much after each
    Drain(usize, u64),
    /// dequeue until closed, forwarding each element
    Fwd(usize, usize, u64),
    /// earliest-first arbiter over the inputs until all are closed, forwarding to an output
    Arb(Vec<usize>, Option<usize>, u64),
    /// merge of the same kind that waits for ALL inputs to have an element, then takes one of each
    Join(Vec<usize>, Option<usize>, u64),
    /// n rounds of (dequeue from, enqueue acc to)
    Loop(usize, usize, usize),
    /// `any_event` / `all_events` over several receivers
    Any(Vec<usize>),
    All(Vec<usize>),
    Panic,
    Fail,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Ok,
    Err,
    Elem(u64, u64),
    Something(u64, u64),
    Nothing(u64),
    Closed,
    Ready(u64),
    Pick(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Enq { dt: u64, v: u64 },
    Deq,
    PeekNext,
    Peek,
    Next,
    Incr(u64),
    Adv(u64),
    Wait,
    DropTx,
    DropRx,
    Pick,
    /// over the receivers in the mask
    Any,
    All,
    /// an arbiter found this input closed, like all others
    AllClosed,
    /// the script ran to its end
    End,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub k: Kind,
    pub ch: usize,
    pub before: u64,
    pub after: u64,
    pub res: Res,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    /// a user context written with the `context_macro`
    Macro,
    /// a FunctionContext
    Func,
    /// a user context implementing `run_falliable`
    Fallible,
    /// a user context whose channels are used through the adapters
    Adapt,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prog {
    pub chans: Vec<Ch>,
    pub ctxs: Vec<Vec<Op>>,
    pub infer: bool,
    pub style: Style,
    /// how many identifiers of contexts and of channels have been used up before
    pub used: (usize, usize),
}
impl Prog {
    pub fn new(chans: Vec<Ch>, ctxs: Vec<Vec<Op>>) -> Prog {
        Prog { chans, ctxs, infer: false, style: Style::Macro, used: (0, 0) }
    }
    pub fn after(mut self, contexts: usize, channels: usize) -> Prog {
        self.used = (contexts, channels);
        self
    }
    fn use_up(&self) {
        for _ in 0..self.used.0 {
            dam::structures::Identifier::new();
        }
        for _ in 0..self.used.1 {
            dam::channel::ChannelID::new();
        }
    }
    pub fn infer(mut self, i: bool) -> Prog {
        self.infer = i;
        self
    }
    pub fn style(mut self, s: Style) -> Prog {
        self.style = s;
        self
    }
    pub fn uses(&self, c: usize) -> (Vec<usize>, Vec<usize>) {
        let (mut tx, mut rx) = (vec![], vec![]);
        for o in &self.ctxs[c] {
            match o {
                Op::Enq(x, ..) | Op::Wait(x) | Op::DropTx(x) => tx.push(*x),
                Op::Deq(x) | Op::PeekNext(x) | Op::Peek(x) | Op::Next(x) | Op::DropRx(x) | Op::Drain(x, _) => rx.push(*x),
                Op::Fwd(a, b, _) => {
                    rx.push(*a);
                    tx.push(*b)
                }
                Op::Loop(a, b, _) => {
                    rx.push(*a);
                    tx.push(*b)
                }
                Op::Arb(i, o, _) | Op::Join(i, o, _) => {
                    rx.extend(i.iter());
                    tx.extend(o.iter())
                }
                Op::Any(i) | Op::All(i) => rx.extend(i.iter()),
                Op::Incr(_) | Op::Adv(_) | Op::Panic | Op::Fail => {}
            }
        }
        tx.sort();
        tx.dedup();
        rx.sort();
        rx.dedup();
        (tx, rx)
    }
    pub fn sender_of(&self, ch: usize) -> usize {
        (0..self.ctxs.len()).find(|c| self.uses(*c).0.contains(&ch)).expect("channel without sender")
    }
    pub fn receiver_of(&self, ch: usize) -> Option<usize> {
        (0..self.ctxs.len()).find(|c| self.uses(*c).1.contains(&ch))
    }
}

pub type Log = Sh<Vec<Ev>>;

/// The state a running script needs.
pub struct Script {
    pub ops: Vec<Op>,
    pub tx: Vec<Option<Sender<E>>>,
    pub rx: Vec<Option<Receiver<E>>>,
    pub log: Log,
    /// through the adapters
    pub adapt: bool,
    /// another context attaches these sending ends
    pub foreign: Vec<usize>,
}
/// What the adapters convert to and from.
pub struct W(pub u64);
impl From<E> for W {
    fn from(x: E) -> W {
        W(x as u64)
    }
}
impl From<W> for E {
    fn from(x: W) -> E {
        x.0 as E
    }
}

fn mix(acc: u64, v: u64) -> u64 {
    (acc.wrapping_mul(31).wrapping_add(v)) % 1_000_003
}

impl Script {
    fn ev(&self, k: Kind, ch: usize, before: u64, tm: &TimeManager, res: Res) {
        let after = t(tm.tick());
        #[cfg(feature = "log")]
        crate::props::logging::note(k, self.log.with(|l| l.len()));
        self.log.with(|l| l.push(Ev { k, ch, before, after, res }));
    }
    fn enq(&self, tm: &TimeManager, ch: usize, dt: u64, v: u64) -> bool {
        let now = tm.tick();
        let s = self.tx[ch].as_ref().unwrap();
        let r = if self.adapt {
            SendAdapter::<W>::enqueue(s, tm, ChannelElement::new(now + dt, W(v)))
        } else {
            s.enqueue(tm, ChannelElement::new(now + dt, v as E))
        };
        self.ev(Kind::Enq { dt, v }, ch, t(now), tm, if r.is_ok() { Res::Ok } else { Res::Err });
        r.is_ok()
    }
    fn deq(&self, tm: &TimeManager, ch: usize) -> Option<u64> {
        let now = t(tm.tick());
        let r = self.rx[ch].as_ref().unwrap();
        let r = if self.adapt { RecvAdapter::<W>::dequeue(r, tm) } else { r.dequeue(tm).map(|e| e.convert()) };
        match r {
            Ok(e) => {
                self.ev(Kind::Deq, ch, now, tm, Res::Elem(t(e.time), e.data.0));
                Some(e.data.0)
            }
            Err(_) => {
                self.ev(Kind::Deq, ch, now, tm, Res::Closed);
                None
            }
        }
    }
    fn peek_next(&self, tm: &TimeManager, ch: usize) -> Result<ChannelElement<W>, dam::channel::DequeueError> {
        let r = self.rx[ch].as_ref().unwrap();
        if self.adapt {
            RecvAdapter::<W>::peek_next(r, tm)
        } else {
            r.peek_next(tm).map(|e| e.convert())
        }
    }
    fn incr(&self, tm: &TimeManager, n: u64) {
        if n > 0 {
            let now = t(tm.tick());
            tm.incr_cycles(n);
            self.ev(Kind::Incr(n), 0, now, tm, Res::Ok);
        }
    }
    fn adv(&self, tm: &TimeManager, x: u64) {
        let now = t(tm.tick());
        tm.advance(Time::new(x));
        self.ev(Kind::Adv(x), 0, now, tm, Res::Ok);
    }
    /// Runs the script; `false` when it stopped early because of an error.
    pub fn exec(&mut self, tm: &TimeManager) -> anyhow::Result<()> {
        let mut acc = 7u64;
        let ops = std::mem::take(&mut self.ops);
        for op in &ops {
            let now = t(tm.tick());
            match op {
                Op::Enq(ch, dt, v) => {
                    let v = match v {
                        V::C(x) => *x,
                        V::Acc => acc,
                    };
                    if !self.enq(tm, *ch, *dt, v) {
                        return Ok(());
                    }
                }
                Op::Deq(ch) => match self.deq(tm, *ch) {
                    Some(v) => acc = mix(acc, v),
                    None => acc = mix(acc, 999),
                },
                Op::PeekNext(ch) => {
                    let r = match self.peek_next(tm, *ch) {
                        Ok(e) => Res::Elem(t(e.time), e.data.0),
                        Err(_) => Res::Closed,
                    };
                    self.ev(Kind::PeekNext, *ch, now, tm, r);
                }
                Op::Peek(ch) => {
                    let r = self.rx[*ch].as_ref().unwrap();
                    let r = if self.adapt {
                        RecvAdapter::<W>::peek(r)
                    } else {
                        match r.peek() {
                            PeekResult::Something(e) => PeekResult::Something(e.convert()),
                            PeekResult::Nothing(x) => PeekResult::Nothing(x),
                            PeekResult::Closed => PeekResult::Closed,
                        }
                    };
                    let r = match r {
                        PeekResult::Something(e) => Res::Something(t(e.time), e.data.0),
                        PeekResult::Nothing(x) => Res::Nothing(t(x)),
                        PeekResult::Closed => Res::Closed,
                    };
                    self.ev(Kind::Peek, *ch, now, tm, r);
                }
                Op::Next(ch) => {
                    use dam::channel::utils::{EventTime, Peekable};
                    let r = match self.rx[*ch].as_ref().unwrap().next_event() {
                        EventTime::Ready(x) => Res::Ready(t(x)),
                        EventTime::Nothing(x) => Res::Nothing(t(x)),
                        EventTime::Closed => Res::Closed,
                    };
                    self.ev(Kind::Next, *ch, now, tm, r);
                }
                Op::Incr(n) => self.incr(tm, *n),
                Op::Adv(x) => self.adv(tm, *x),
                Op::Wait(ch) => {
                    let s = self.tx[*ch].as_ref().unwrap();
                    let r = if self.adapt { SendAdapter::<W>::wait_until_available(s, tm) } else { s.wait_until_available(tm) };
                    self.ev(Kind::Wait, *ch, now, tm, if r.is_ok() { Res::Ok } else { Res::Err });
                    if r.is_err() {
                        return Ok(());
                    }
                }
                Op::DropTx(ch) => {
                    self.tx[*ch] = None;
                    self.ev(Kind::DropTx, *ch, now, tm, Res::Ok);
                }
                Op::DropRx(ch) => {
                    self.rx[*ch] = None;
                    self.ev(Kind::DropRx, *ch, now, tm, Res::Ok);
                }
                Op::Drain(ch, ii) => {
                    while let Some(v) = self.deq(tm, *ch) {
                        acc = mix(acc, v);
                        self.incr(tm, *ii);
                    }
                }
                Op::Fwd(from, to, ii) => {
                    while let Some(v) = self.deq(tm, *from) {
                        acc = mix(acc, v);
                        if !self.enq(tm, *to, 0, acc) {
                            return Ok(());
                        }
                        self.incr(tm, *ii);
                    }
                }
                Op::Loop(from, to, n) => {
                    for _ in 0..*n {
                        match self.deq(tm, *from) {
                            Some(v) => acc = mix(acc, v),
                            None => break,
                        }
                        if !self.enq(tm, *to, 0, acc) {
                            return Ok(());
                        }
                    }
                }
                Op::Arb(ins, out, ii) => {
                    use dam::channel::utils::{EventTime, Peekable};
                    loop {
                        let evs: Vec<EventTime> =
                            ins.iter().map(|c| self.rx[*c].as_ref().unwrap().next_event()).collect();
                        let (i, e) = evs.iter().enumerate().min_by_key(|(_, e)| **e).unwrap();
                        match e {
                            EventTime::Closed => {
                                for c in ins {
                                    self.ev(Kind::AllClosed, *c, t(tm.tick()), tm, Res::Closed);
                                }
                                break;
                            }
                            EventTime::Nothing(x) => {
                                let x = t(*x) + 1;
                                if x <= t(tm.tick()) {
                                    // would never make progress
                                    self.ev(Kind::Next, ins[i], t(tm.tick()), tm, Res::Nothing(x - 1));
                                    return Ok(());
                                }
                                self.adv(tm, x)
                            }
                            EventTime::Ready(_) => {
                                let now = t(tm.tick());
                                self.ev(Kind::Pick, ins[i], now, tm, Res::Pick(i));
                                let v = self.deq(tm, ins[i]).unwrap_or(998);
                                acc = mix(acc, v);
                                if let Some(o) = out {
                                    if !self.enq(tm, *o, 0, v) {
                                        return Ok(());
                                    }
                                }
                                self.incr(tm, *ii);
                            }
                        }
                    }
                }
                Op::Join(ins, out, ii) => loop {
                    let mut sum = 0u64;
                    let mut closed = false;
                    for c in ins {
                        let n = t(tm.tick());
                        let r = match self.peek_next(tm, *c) {
                            Ok(e) => Res::Elem(t(e.time), e.data.0),
                            Err(_) => Res::Closed,
                        };
                        self.ev(Kind::PeekNext, *c, n, tm, r);
                    }
                    for c in ins {
                        match self.deq(tm, *c) {
                            Some(v) => sum += v,
                            None => closed = true,
                        }
                    }
                    if closed {
                        break;
                    }
                    acc = mix(acc, sum);
                    if let Some(o) = out {
                        if !self.enq(tm, *o, 0, sum) {
                            return Ok(());
                        }
                    }
                    self.incr(tm, *ii);
                },
                Op::Any(ins) | Op::All(ins) => {
                    use dam::channel::utils::{EventCollection, EventTime, Peekable};
                    let rs: Vec<&Receiver<E>> = ins.iter().map(|c| self.rx[*c].as_ref().unwrap()).collect();
                    let any = matches!(op, Op::Any(_));
                    let r = if any { rs.any_event().next_event() } else { rs.all_events().next_event() };
                    let r = match r {
                        EventTime::Ready(x) => Res::Ready(t(x)),
                        EventTime::Nothing(x) => Res::Nothing(t(x)),
                        EventTime::Closed => Res::Closed,
                    };
                    let mask = ins.iter().map(|c| 1 << c).sum();
                    self.ev(if any { Kind::Any } else { Kind::All }, mask, now, tm, r);
                }
                Op::Panic => panic!("scripted panic {}", t(tm.tick())),
                Op::Fail => anyhow::bail!("scripted failure"),
            }
        }
        let now = t(tm.tick());
        self.ev(Kind::End, 0, now, tm, Res::Ok);
        Ok(())
    }
}

#[context_macro]
pub struct Scripted {
    pub s: Script,
}
impl Scripted {
    pub fn new(s: Script) -> Scripted {
        let c = Scripted { s, context_info: Default::default() };
        for (i, x) in c.s.tx.iter().enumerate().filter_map(|(i, x)| Some((i, x.as_ref()?))) {
            if c.s.foreign.contains(&i) {
                continue;
            }
            if c.s.adapt {
                SendAdapter::<W>::attach_sender(x, &c);
            } else {
                x.attach_sender(&c);
            }
        }
        for x in c.s.rx.iter().flatten() {
            if c.s.adapt {
                RecvAdapter::<W>::attach_receiver(x, &c);
            } else {
                x.attach_receiver(&c);
            }
        }
        c
    }
}
impl Context for Scripted {
    fn run(&mut self) {
        let Self { s, context_info } = self;
        s.exec(&context_info.time).unwrap();
    }
}
#[context_macro]
pub struct Fallible {
    s: Script,
}
impl Context for Fallible {
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let Self { s, context_info } = self;
        s.exec(&context_info.time)
    }
}

pub fn chan<'a, T: Clone + 'a>(p: &mut ProgramBuilder<'a>, c: Ch) -> (Sender<T>, Option<Receiver<T>>) {
    if c.void {
        return (p.void(), None);
    }
    // the plain constructors are the ones with unit latencies
    let (s, r) = match c.cap {
        Some(n) if c.lat == 1 && c.resp == 1 => p.bounded(n),
        Some(n) => p.bounded_with_latency(n, c.lat, c.resp),
        None if c.lat == 1 && c.resp == 1 => p.unbounded(),
        None => p.unbounded_with_latency(c.lat, c.resp),
    };
    (s, Some(r))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Outcome {
    pub logs: Vec<Vec<Ev>>,
    pub elapsed: Option<u64>,
    pub passed: bool,
    pub failures: Vec<String>,
    /// what `num_children` said
    pub nodes: usize,
    pub ids: Vec<usize>,
    /// the library's identifiers of the channels
    pub chan_ids: Vec<String>,
    pub init_error: Option<String>,
}

pub fn options(infer: bool) -> InitializationOptions {
    InitializationOptionsBuilder::default().run_flavor_inference(infer).build().unwrap()
}

pub fn channels<'a>(p: &Prog, pb: &mut ProgramBuilder<'a>) -> (Tx, Rx) {
    p.use_up();
    let mut txs = vec![];
    let mut rxs = vec![];
    for c in &p.chans {
        let (s, r) = chan::<E>(pb, *c);
        txs.push(Some(s));
        rxs.push(r);
    }
    (txs, rxs)
}
/// The scripts of a program, each with the channel ends it uses.
pub fn scripts(p: &Prog, txs: &mut Tx, rxs: &mut Rx) -> Vec<Script> {
    (0..p.ctxs.len())
        .map(|i| {
            let (tx, rx) = p.uses(i);
            let mut s = Script {
                ops: p.ctxs[i].clone(),
                tx: p.chans.iter().map(|_| None).collect(),
                rx: p.chans.iter().map(|_| None).collect(),
                log: Sh::new(vec![]),
                adapt: p.style == Style::Adapt,
                foreign: vec![],
            };
            for x in &tx {
                s.tx[*x] = Some(txs[*x].take().unwrap_or_else(|| panic!("two senders for {x}: {p:?}")));
            }
            for x in &rx {
                s.rx[*x] = Some(rxs[*x].take().unwrap_or_else(|| panic!("two receivers for {x}: {p:?}")));
            }
            s
        })
        .collect()
}
/// Builds and runs the program; called inside an execution.
pub fn run_prog(p: &Prog) -> Outcome {
    run_prog_with(p, |_, _, _| {}, RunOptions::default())
}
pub type Tx = Vec<Option<Sender<E>>>;
pub type Rx = Vec<Option<Receiver<E>>>;
/// `extra` adds contexts of its own, taking the channel ends that the scripts do not use.
pub fn run_prog_with<'a>(p: &Prog, extra: impl FnOnce(&mut ProgramBuilder<'a>, &mut Tx, &mut Rx), opts: RunOptions) -> Outcome {
    let mut pb = ProgramBuilder::default();
    let (mut txs, mut rxs) = channels(p, &mut pb);
    let mut ids = vec![];
    #[cfg(feature = "log")]
    let chan_ids = txs.iter().map(|x| x.as_ref().unwrap().id().to_string()).collect();
    #[cfg(not(feature = "log"))]
    let chan_ids = vec![];
    let scripts = scripts(p, &mut txs, &mut rxs);
    let logs: Vec<Log> = scripts.iter().map(|s| s.log.clone()).collect();
    for mut s in scripts {
        match p.style {
            Style::Macro | Style::Adapt => {
                let c = Scripted::new(s);
                ids.push(ident(&c));
                pb.add_child(c);
            }
            Style::Fallible => {
                let c = Fallible { s, context_info: Default::default() };
                for x in c.s.tx.iter().flatten() {
                    x.attach_sender(&c);
                }
                for x in c.s.rx.iter().flatten() {
                    x.attach_receiver(&c);
                }
                ids.push(ident(&c));
                pb.add_child(c);
            }
            Style::Func => {
                let mut c = FunctionContext::new();
                for x in s.tx.iter().flatten() {
                    x.attach_sender(&c);
                }
                for x in s.rx.iter().flatten() {
                    x.attach_receiver(&c);
                }
                c.set_run(move |tm: &mut TimeManager| {
                    s.exec(tm).unwrap();
                });
                ids.push(ident(&c));
                pb.add_child(c);
            }
        }
    }
    extra(&mut pb, &mut txs, &mut rxs);
    drop((txs, rxs));
    Outcome { chan_ids, ..finish(pb, p.infer, opts, logs, ids) }
}
/// Initializes and runs.
pub fn finish(pb: ProgramBuilder<'_>, infer: bool, opts: RunOptions, logs: Vec<Log>, ids: Vec<usize>) -> Outcome {
    let nodes = pb.num_children();
    let init = match pb.initialize(options(infer)) {
        Ok(i) => i,
        Err(e) => return Outcome { init_error: Some(e.to_string()), ..Default::default() },
    };
    let ex = init.run(opts);
    let failures = ex.run_failures(|f| f.iter().map(|e| e.to_string()).collect::<Vec<_>>());
    Outcome {
        logs: logs.iter().map(|l| l.get()).collect(),
        elapsed: ex.elapsed_cycles(),
        passed: ex.passed(),
        failures,
        nodes,
        ids,
        chan_ids: vec![],
        init_error: None,
    }
}
#[allow(unused)]
pub fn ident(c: &dyn Context) -> usize {
    Identifiable::id(c).id
}
