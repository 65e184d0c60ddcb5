//! Controlled scheduler and stateless explorer.
//!
//! Every "thread" of the program under test is a fiber on one OS thread.  Each visible operation is posted
//! as a pending operation (what it touches, whether it is enabled, how many results it may have) *before* it
//! happens; the scheduler then decides which pending operation happens next.  `explore` enumerates the
//! decisions by depth-first search with source-set style dynamic partial-order reduction and sleep sets, so
//! that when it runs to completion at least one execution of every Mazurkiewicz trace has been executed.

use ::std::any::Any;
use ::std::cell::Cell;
use ::std::collections::BTreeSet;
use ::std::rc::Rc;
use ::std::time::{Duration, Instant};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use rustc_hash::FxHashMap;
use smallvec::SmallVec;

pub const MAXT: usize = 32;
pub type Vc = [u16; MAXT];
const STACK: usize = 256 * 1024;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Start,
    Load,
    Store,
    Rmw,
    Lock,
    TryLock,
    Unlock,
    RLock,
    RUnlock,
    Send,
    Recv,
    TryRecv,
    Close,
    RxDrop,
    Park,
    Unpark,
    Join,
    Spawn,
    Yield,
    Wait,
    Notify,
    Access,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc {
    pub key: u64,
    pub w: bool,
}

pub fn key(obj: u32, sub: u32) -> u64 {
    ((obj as u64) << 32) | sub as u64
}

pub struct Op {
    pub kind: K,
    pub obj: u32,
    pub acc: SmallVec<[Acc; 4]>,
    /// None: always enabled
    pub en: Option<(unsafe fn(*const ()) -> bool, *const ())>,
    /// number of possible outcomes (None: 1); evaluated when scheduled
    pub choices: Option<(unsafe fn(*const ()) -> u32, *const ())>,
    /// TryLock-like: evaluated when scheduled; false turns accesses into reads (a failed attempt changes nothing)
    pub succeeds: Option<(unsafe fn(*const ()) -> bool, *const ())>,
    /// a read-only operation for the purpose of spin detection
    pub ro: bool,
    /// false: retrying is pointless for now, run only when nothing else can (spinning on a held lock)
    pub soft: Option<(unsafe fn(*const ()) -> bool, *const ())>,
}

impl Op {
    pub fn new(kind: K, obj: u32) -> Op {
        Op { kind, obj, acc: SmallVec::new(), en: None, choices: None, succeeds: None, ro: false, soft: None }
    }
    pub fn r(mut self, k: u64) -> Op {
        self.acc.push(Acc { key: k, w: false });
        self
    }
    pub fn w(mut self, k: u64) -> Op {
        self.acc.push(Acc { key: k, w: true });
        self
    }
    pub fn ro(mut self) -> Op {
        self.ro = true;
        self
    }
    pub fn enabled_if(mut self, f: unsafe fn(*const ()) -> bool, p: *const ()) -> Op {
        self.en = Some((f, p));
        self
    }
    pub fn choose(mut self, f: unsafe fn(*const ()) -> u32, p: *const ()) -> Op {
        self.choices = Some((f, p));
        self
    }
    pub fn succeeds_if(mut self, f: unsafe fn(*const ()) -> bool, p: *const ()) -> Op {
        self.succeeds = Some((f, p));
        self
    }
    pub fn soft_unless(mut self, f: unsafe fn(*const ()) -> bool, p: *const ()) -> Op {
        self.soft = Some((f, p));
        self
    }
    fn label(&self) -> String {
        format!("{:?}(o{})", self.kind, self.obj)
    }
}

fn dep(a: &[Acc], b: &[Acc]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.key == y.key && (x.w || y.w)))
}

/// A per-location minimum timestamp map (weak-memory mode).
pub type View = Vec<u32>;
pub fn join_view(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (i, v) in b.iter().enumerate() {
        if a[i] < *v {
            a[i] = *v;
        }
    }
}

pub struct Th {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    pub pending: Option<Op>,
    vc: Vc,
    clk: u16,
    pub finished: bool,
    pub token: bool,
    pub token_view: View,
    pub spurious_ok: bool,
    pub view: View,
    pub acq: View,
    pub rel: View,
    pub name: Option<String>,
    pub panicking: bool,
    pub tls: Vec<(usize, Rc<dyn Any>)>,
    pub final_view: View,
    yielded: bool,
    ro_seen: SmallVec<[(u64, u8); 4]>,
    pub try_fail: Option<(u32, u32)>,
    pub result_panicked: bool,
}

impl Th {
    pub fn clear_ro(&mut self) {
        self.ro_seen.clear();
        self.try_fail = None;
    }
}

struct Ev {
    tid: u8,
    clk: u16,
    kind: K,
    tokset: bool,
    acc: SmallVec<[Acc; 4]>,
    vc: Vc,
}

#[derive(Clone, Copy)]
struct Rec {
    ev: u32,
    w: bool,
}

#[derive(Clone, Debug)]
struct Node {
    enabled: u32,
    sleep: u32,
    backtrack: u32,
    done: u32,
    chosen: u8,
    choice: u8,
    nch: u8,
    preempt: u16,
    prev: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// dynamic partial-order reduction
    Dpor,
    /// every enabled thread at every step
    Brute,
    /// every enabled thread at every step, at most n preemptive switches
    Preempt(u16),
    /// deviations from the deterministic round-robin scheduler (run until blocked, then the next thread in creation
    /// order) by at most n delays in total; passing over k runnable threads costs k delays
    Delay(u16),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub max_execs: u64,
    pub max_steps: usize,
    pub weak: bool,
    pub spurious: u8,
    pub yield_blocks: bool,
    pub mode: Mode,
    pub time_limit: Option<Duration>,
    pub trace: bool,
    /// Sends into a channel with several producers are treated as commuting with each other.
    pub mpsc_commute: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            max_execs: 200_000,
            max_steps: 20_000,
            weak: false,
            spurious: 0,
            yield_blocks: true,
            mode: Mode::Dpor,
            time_limit: None,
            trace: false,
            mpsc_commute: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Deadlock(String),
    Horizon(String),
    Panicked(String),
    Diverged(String),
}

pub struct Exec {
    pub epoch: u32,
    pub th: Vec<Th>,
    pub cur: usize,
    next: usize,
    end: Option<End>,
    pub choice: u32,
    next_obj: u32,
    pub next_loc: u32,
    pub labels: FxHashMap<u32, String>,
    live: usize,
    evs: Vec<Ev>,
    recs: FxHashMap<u64, SmallVec<[Rec; 8]>>,
    nodes: *mut Vec<Node>,
    replay_len: usize,
    depth: usize,
    cur_sleep: u32,
    free: bool,
    pub steps: u64,
    pub cfg: Config,
    pub spurious_left: u8,
    pub trace: Vec<String>,
    sched: Vec<(u8, u8)>,
    forced: Option<Vec<(u8, u8)>>,
    pub sc_view: View,
    preempts: u16,
    pub inf_version: u64,
}

::std::thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(::std::ptr::null_mut()) };
    static EPOCH: Cell<u32> = const { Cell::new(0) };
    static STACKS: ::std::cell::RefCell<Vec<DefaultStack>> = const { ::std::cell::RefCell::new(Vec::new()) };
}

/// Bumped on every scheduling decision; read by the hang watchdog.
pub static HEARTBEAT: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0);

#[inline]
pub fn ex() -> Option<&'static mut Exec> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

#[inline]
pub fn in_exec() -> bool {
    CUR.with(|c| !c.get().is_null())
}

pub fn epoch() -> u32 {
    ex().map(|e| e.epoch).unwrap_or(0)
}

pub fn weak() -> bool {
    ex().map(|e| e.cfg.weak).unwrap_or(false)
}

impl Exec {
    pub fn new_obj(&mut self, label: &str) -> u32 {
        self.next_obj += 1;
        if self.cfg.trace {
            self.labels.insert(self.next_obj, label.to_string());
        }
        self.next_obj
    }

    pub fn t(&mut self) -> &mut Th {
        let c = self.cur;
        &mut self.th[c]
    }

    fn is_enabled(&self, t: usize) -> bool {
        let th = &self.th[t];
        if th.finished {
            return false;
        }
        match &th.pending {
            None => false,
            Some(op) => match op.en {
                None => true,
                Some((f, p)) => unsafe { f(p) },
            },
        }
    }

    fn enabled_set(&self) -> u32 {
        let mut m = 0u32;
        let mut y = 0u32;
        for t in 0..self.th.len() {
            if self.is_enabled(t) {
                let soft = match self.th[t].pending.as_ref().and_then(|o| o.soft) {
                    None => false,
                    Some((f, p)) => unsafe { !f(p) },
                };
                if soft || self.th[t].yielded {
                    y |= 1 << t;
                } else {
                    m |= 1 << t;
                }
            }
        }
        if m == 0 {
            y
        } else {
            m
        }
    }

    /// Everything the other (finished) threads did happens before what `me` does next.
    fn all_known(&self, me: usize) -> bool {
        let v = &self.th[me].vc;
        self.th.len() == 1 || self.th.iter().enumerate().all(|(i, t)| i == me || v[i] >= t.clk)
    }

    fn describe_blocked(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.th.iter().enumerate() {
            if t.finished {
                continue;
            }
            let o = match &t.pending {
                Some(op) => {
                    let lab = self.labels.get(&op.obj).cloned().unwrap_or_default();
                    format!("{}{}", op.label(), if lab.is_empty() { lab } else { format!("={lab}") })
                }
                None => "running".into(),
            };
            s.push_str(&format!("[t{} {} waits at {}] ", i, t.name.clone().unwrap_or_default(), o));
        }
        s
    }

    fn nodes(&mut self) -> &'static mut Vec<Node> {
        unsafe { &mut *self.nodes }
    }

    /// Decide what happens next.  Returns false when the execution is over (self.end is set).
    fn schedule(&mut self) -> bool {
        self.steps += 1;
        if self.steps & 0xff == 0 {
            HEARTBEAT.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
        }
        let enabled = self.enabled_set();
        if enabled == 0 {
            self.end = Some(End::Deadlock(self.describe_blocked()));
            return false;
        }
        if self.steps as usize > self.cfg.max_steps {
            self.end = Some(End::Horizon(self.describe_blocked()));
            return false;
        }
        let d = self.depth;
        let prev = self.cur;
        // where the deterministic scheduler starts looking
        let first = if self.th[prev].finished || self.th[prev].yielded { (prev + 1) % self.th.len() } else { prev };
        let pick = |cand: u32, th: &Vec<Th>| -> usize {
            if cand >> prev & 1 == 1 && !th[prev].finished && !th[prev].yielded {
                return prev;
            }
            // round robin after prev
            for k in 1..=th.len() {
                let t = (prev + k) % th.len();
                if cand >> t & 1 == 1 {
                    return t;
                }
            }
            unreachable!()
        };
        if let Some(f) = &self.forced {
            let (t, c) = if d < f.len() { f[d] } else { (pick(enabled, &self.th) as u8, 0) };
            if enabled >> t & 1 == 0 {
                self.end = Some(End::Diverged(format!("replay step {d}: thread {t} is not enabled")));
                return false;
            }
            self.depth += 1;
            self.perform(t as usize, c as u32);
            return true;
        }
        if self.free {
            let t = pick(enabled, &self.th);
            self.perform_light(t);
            return true;
        }
        let nodes = self.nodes();
        let (t, c);
        if d < nodes.len() {
            let n = &nodes[d];
            t = n.chosen as usize;
            c = n.choice as u32;
            if enabled >> t & 1 == 0 || n.enabled != enabled {
                self.end = Some(End::Diverged(format!(
                    "step {d}: recorded enabled set {:#x} thread {t}, now {:#x}",
                    n.enabled, enabled
                )));
                return false;
            }
        } else {
            let sleep = self.cur_sleep;
            let mut cand = enabled & !sleep;
            let preempts = self.preempts;
            if let Mode::Preempt(k) = self.cfg.mode {
                if preempts >= k && enabled >> prev & 1 == 1 {
                    cand = 1 << prev;
                }
            }
            if let Mode::Delay(k) = self.cfg.mode {
                let mut pos = 0;
                let mut m = 0u32;
                for i in 0..self.th.len() {
                    let t = (first + i) % self.th.len();
                    if enabled >> t & 1 == 1 {
                        if preempts + pos <= k {
                            m |= 1 << t;
                        }
                        pos += 1;
                    }
                }
                cand &= m;
            }
            if cand == 0 {
                self.free = true;
                let t = pick(enabled, &self.th);
                self.perform_light(t);
                return true;
            }
            t = pick(cand, &self.th);
            c = 0;
            let backtrack = match self.cfg.mode {
                Mode::Dpor => 1 << t,
                Mode::Brute | Mode::Preempt(_) | Mode::Delay(_) => cand,
            };
            nodes.push(Node {
                enabled,
                sleep,
                backtrack,
                done: 0,
                chosen: t as u8,
                choice: 0,
                nch: 1,
                preempt: preempts,
                prev: prev as u8,
            });
        }
        if let Mode::Delay(_) = self.cfg.mode {
            let mut i = first;
            while i != t {
                if enabled >> i & 1 == 1 {
                    self.preempts += 1;
                }
                i = (i + 1) % self.th.len();
            }
        } else if t != prev && enabled >> prev & 1 == 1 {
            self.preempts += 1;
        }
        // choices
        let op = self.th[t].pending.as_ref().unwrap();
        let nch = match op.choices {
            None => 1,
            Some((f, p)) => {
                let save = self.cur;
                self.cur = t;
                let n = unsafe { f(p) };
                self.cur = save;
                n.max(1)
            }
        };
        let nodes = self.nodes();
        nodes[d].nch = nch as u8;
        self.depth += 1;
        self.perform(t, c);
        true
    }

    fn note_step(&mut self, t: usize) {
        // spin / yield bookkeeping
        for (i, th) in self.th.iter_mut().enumerate() {
            if i != t {
                th.yielded = false;
                th.ro_seen.clear();
            }
        }
        let yb = self.cfg.yield_blocks;
        let th = &mut self.th[t];
        let op = th.pending.as_ref().unwrap();
        th.yielded = false;
        if op.kind == K::Yield {
            th.yielded = yb;
        } else if op.ro {
            let sig = key(op.obj, op.kind as u32);
            let mut hit = false;
            if let Some(e) = th.ro_seen.iter_mut().find(|e| e.0 == sig) {
                e.1 += 1;
                hit = e.1 >= 64;
            } else if th.ro_seen.len() < 64 {
                th.ro_seen.push((sig, 1));
            }
            if hit {
                th.yielded = true;
            }
        } else {
            th.ro_seen.clear();
            th.try_fail = None;
        }
    }

    fn perform_light(&mut self, t: usize) {
        self.note_step(t);
        self.choice = 0;
        self.th[t].pending = None;
        self.next = t;
        self.sched.push((t as u8, 0));
    }

    fn perform(&mut self, t: usize, c: u32) {
        self.note_step(t);
        let recording_exec = self.forced.is_none();
        let mut op = self.th[t].pending.take().unwrap();
        self.choice = c;
        self.next = t;
        self.sched.push((t as u8, c as u8));
        if let Some((f, p)) = op.succeeds {
            if !unsafe { f(p) } {
                for a in op.acc.iter_mut() {
                    a.w = false;
                }
            }
        }
        if self.cfg.trace {
            let lab = self.labels.get(&op.obj).cloned().unwrap_or_default();
            self.trace.push(format!(
                "{} t{}({}) {:?} o{}{}{}",
                self.sched.len(),
                t,
                self.th[t].name.clone().unwrap_or_default(),
                op.kind,
                op.obj,
                if lab.is_empty() { lab } else { format!("={lab}") },
                if c > 0 { format!(" choice {c}") } else { String::new() }
            ));
        }
        if !recording_exec || self.cfg.mode != Mode::Dpor {
            return;
        }
        let d = self.depth - 1;
        // T1: pending operations of other threads that race with this event
        if d + 1 >= self.replay_len {
            let nodes = self.nodes();
            let en = nodes[d].enabled;
            for q in 0..self.th.len() {
                if q == t || en >> q & 1 == 0 {
                    continue;
                }
                if let Some(qo) = &self.th[q].pending {
                    if op.kind == K::TryLock && qo.kind == K::TryLock && !op.acc[0].w {
                        continue;
                    }
                    if dep(&op.acc, &qo.acc) {
                        let n = &mut nodes[d];
                        let m = 1u32 << q;
                        if (n.backtrack | n.sleep | n.done) & m == 0 {
                            n.backtrack |= m;
                        }
                    }
                }
            }
        }
        // event and its clock
        let th = &mut self.th[t];
        let mut vc = th.vc;
        let idx = self.evs.len() as u32;
        for a in &op.acc {
            let recs = self.recs.entry(a.key).or_default();
            for r in recs.iter().rev() {
                if r.w || a.w {
                    let o = &self.evs[r.ev as usize].vc;
                    for i in 0..MAXT {
                        if vc[i] < o[i] {
                            vc[i] = o[i];
                        }
                    }
                }
                if r.w {
                    break;
                }
            }
            recs.push(Rec { ev: idx, w: a.w });
        }
        th.clk += 1;
        vc[t] = th.clk;
        th.vc = vc;
        let clk = th.clk;
        let tokset = op.kind == K::Unpark && {
            let target = op.obj;
            self.th.iter().enumerate().any(|(i, x)| park_obj(i) == target && x.token)
        };
        // sleep set of the successor
        let n = &self.nodes()[d];
        let z = (n.sleep | n.done) & !(1 << t);
        let mut s = 0u32;
        for q in 0..self.th.len() {
            if z >> q & 1 == 1 {
                if let Some(qo) = &self.th[q].pending {
                    if !dep(&op.acc, &qo.acc) {
                        s |= 1 << q;
                    }
                }
            }
        }
        self.cur_sleep = s;
        self.evs.push(Ev { tid: t as u8, clk, kind: op.kind, tokset, acc: op.acc, vc });
    }

    /// T2: thread p has just posted an operation; look back for events it races with.
    fn posted(&mut self, p: usize) {
        if self.cfg.mode != Mode::Dpor || self.forced.is_some() || self.free || self.depth < self.replay_len {
            return;
        }
        let op = self.th[p].pending.as_ref().unwrap();
        let kind = op.kind;
        let acc = op.acc.clone();
        let pvc = self.th[p].vc;
        let mut cands: SmallVec<[u32; 8]> = SmallVec::new();
        for a in &acc {
            let Some(recs) = self.recs.get(&a.key) else { continue };
            for r in recs.iter().rev() {
                if !(r.w || a.w) {
                    continue;
                }
                let e = &self.evs[r.ev as usize];
                let hb = pvc[e.tid as usize] >= e.clk;
                if hb {
                    if r.w {
                        break;
                    }
                    continue;
                }
                let coenabled = match (kind, e.kind) {
                    (K::Lock | K::RLock, K::Unlock | K::RUnlock) => false,
                    (K::Wait, K::Notify) => false,
                    (K::Recv, K::Send | K::Close) => false,
                    (K::Send, K::Recv | K::TryRecv) => a.key & 0x8000_0000 == 0, // a freed slot
                    (K::Park, K::Unpark) => e.tokset,
                    (K::Join, _) => false,
                    (K::TryLock, K::TryLock) => r.w,
                    _ => true,
                };
                if !coenabled {
                    continue;
                }
                if !cands.contains(&r.ev) {
                    cands.push(r.ev);
                }
                if r.w {
                    break;
                }
            }
        }
        for i in cands {
            self.add_backtrack(i as usize, p, &acc, &pvc);
        }
    }

    fn add_backtrack(&mut self, i: usize, p: usize, acc: &[Acc], pvc: &Vc) {
        let ei = (self.evs[i].tid as usize, self.evs[i].clk);
        // first event (clock) of each thread in v = notdep(i)
        let mut first: [u16; MAXT] = [0; MAXT];
        let mut seen: SmallVec<[usize; 8]> = SmallVec::new();
        let mut initials = 0u32;
        let mut p_dep = false;
        for j in i + 1..self.evs.len() {
            let e = &self.evs[j];
            if e.vc[ei.0] >= ei.1 {
                continue; // happens after i
            }
            let t = e.tid as usize;
            if !p_dep && t != p && dep(&e.acc, acc) {
                p_dep = true;
            }
            if first[t] == 0 {
                if seen.iter().all(|&u| e.vc[u] < first[u]) {
                    initials |= 1 << t;
                }
                first[t] = e.clk;
                seen.push(t);
            }
        }
        if first[p] == 0 && !p_dep && seen.iter().all(|&u| pvc[u] < first[u]) {
            initials |= 1 << p;
        }
        let n = &mut self.nodes()[i];
        if initials & (n.backtrack | n.done | n.sleep) != 0 {
            return;
        }
        let c = initials & n.enabled;
        if c == 0 {
            n.backtrack |= n.enabled;
        } else if c >> p & 1 == 1 {
            n.backtrack |= 1 << p;
        } else {
            n.backtrack |= 1 << c.trailing_zeros();
        }
    }

    /// Suspend the current fiber (control returns to the host loop, which resumes self.next).
    unsafe fn suspend(me: usize) {
        let e = ex().unwrap();
        let y = e.th[me].yielder;
        (*y).suspend(());
        let e = ex().unwrap();
        e.cur = me;
    }
}

pub fn park_obj(t: usize) -> u32 {
    0x4000_0000 + t as u32
}

/// Post a visible operation of the current thread and wait until it is its turn.
/// On return the caller performs the effect; `Exec::choice` holds the chosen outcome.
pub fn visible(op: Op) {
    let Some(e) = ex() else { return };
    let me = e.cur;
    if e.live == 1 && e.all_known(me) {
        // Nobody to interleave with.
        let ok = match op.en {
            None => true,
            Some((f, p)) => unsafe { f(p) },
        };
        if ok && op.kind != K::Yield {
            e.choice = 0;
            e.steps += 1;
            if e.steps as usize > e.cfg.max_steps {
                e.th[me].pending = Some(op);
                e.end = Some(End::Horizon(e.describe_blocked()));
                unsafe { Exec::suspend(me) };
                unreachable!();
            }
            return;
        }
        if op.kind == K::Yield {
            e.steps += 1;
            if (e.steps as usize) <= e.cfg.max_steps {
                return;
            }
        }
    }
    e.th[me].pending = Some(op);
    e.posted(me);
    let go = e.schedule();
    if go && e.next == me {
        return;
    }
    unsafe { Exec::suspend(me) };
}

pub fn spawn_fiber(name: Option<String>, f: Box<dyn FnOnce() + 'static>) -> usize {
    let e = ex().expect("dam_mc: thread spawned outside an exploration");
    let parent = e.cur;
    // Spawn is a visible operation so that it has a place in the schedule.
    if e.live > 1 {
        visible(Op::new(K::Spawn, 0));
    }
    let e = ex().unwrap();
    let id = e.th.len();
    if id >= MAXT {
        panic!("dam_mc: too many threads");
    }
    let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, _| {
        let e = ex().unwrap();
        e.th[id].yielder = y;
        e.cur = id;
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
        let e = ex().unwrap();
        e.th[id].panicking = false;
        if r.is_err() {
            e.th[id].result_panicked = true;
        }
        drop(r);
        // thread-local destructors
        loop {
            let e = ex().unwrap();
            let Some(x) = e.th[id].tls.pop() else { break };
            let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(move || drop(x)));
        }
        let e = ex().unwrap();
        e.th[id].finished = true;
        e.th[id].final_view = e.th[id].view.clone();
        e.live -= 1;
        if id == 0 {
            e.end = Some(End::Done);
        } else {
            e.schedule();
        }
    });
    let (vc, view) = if id == 0 {
        ([0; MAXT], View::new())
    } else {
        (e.th[parent].vc, e.th[parent].view.clone())
    };
    e.th.push(Th {
        co: Some(co),
        yielder: ::std::ptr::null(),
        pending: Some(Op::new(K::Start, 0)),
        vc,
        clk: 0,
        finished: false,
        token: false,
        token_view: View::new(),
        spurious_ok: false,
        view,
        acq: View::new(),
        rel: View::new(),
        name,
        panicking: false,
        tls: Vec::new(),
        final_view: View::new(),
        yielded: false,
        ro_seen: SmallVec::new(),
        try_fail: None,
        result_panicked: false,
    });
    e.live += 1;
    id
}

/// Block until thread `t` has finished; inherits what it knew.
pub fn join_thread(t: usize) {
    unsafe fn fin(p: *const ()) -> bool {
        ex().unwrap().th[p as usize].finished
    }
    visible(Op::new(K::Join, 0).enabled_if(fin, t as *const ()));
    let e = ex().unwrap();
    let vc = e.th[t].vc;
    let fv = e.th[t].final_view.clone();
    let me = e.t();
    for i in 0..MAXT {
        if me.vc[i] < vc[i] {
            me.vc[i] = vc[i];
        }
    }
    join_view(&mut me.view, &fv);
}

pub struct RunResult<R> {
    pub end: End,
    pub value: Option<R>,
    pub schedule: Vec<(u8, u8)>,
    pub steps: u64,
    pub trace: Vec<String>,
    pub redundant: bool,
    pub threads: usize,
}

fn run_one<R: 'static>(
    cfg: &Config,
    nodes: &mut Vec<Node>,
    forced: Option<Vec<(u8, u8)>>,
    scenario: &mut dyn FnMut() -> R,
) -> RunResult<R> {
    assert!(!in_exec());
    let epoch = EPOCH.with(|e| {
        e.set(e.get() + 1);
        e.get()
    });
    let replay_len = nodes.len();
    let mut exec = Box::new(Exec {
        epoch,
        th: Vec::with_capacity(16),
        cur: 0,
        next: 0,
        end: None,
        choice: 0,
        next_obj: 0,
        next_loc: 0,
        labels: Default::default(),
        live: 0,
        evs: Vec::with_capacity(256),
        recs: Default::default(),
        nodes,
        replay_len,
        depth: 0,
        cur_sleep: 0,
        free: false,
        steps: 0,
        cfg: cfg.clone(),
        spurious_left: cfg.spurious,
        trace: vec![],
        sched: vec![],
        forced,
        sc_view: View::new(),
        preempts: 0,
        inf_version: 0,
    });
    let p: *mut Exec = &mut *exec;
    CUR.with(|c| c.set(p));
    let mut value: Option<::std::thread::Result<R>> = None;
    {
        let vp: *mut Option<::std::thread::Result<R>> = &mut value;
        let sp: *mut dyn FnMut() -> R = scenario;
        let sp: *mut (dyn FnMut() -> R + 'static) = unsafe { ::std::mem::transmute(sp) };
        spawn_fiber(
            Some("main".into()),
            Box::new(move || {
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| unsafe { (*sp)() }));
                unsafe { *vp = Some(r) };
            }),
        );
        exec.th[0].pending = None;
        exec.next = 0;
        loop {
            let t = exec.next;
            exec.cur = t;
            let mut co = exec.th[t].co.take().unwrap();
            let r = co.resume(());
            match r {
                CoroutineResult::Yield(()) => {
                    exec.th[t].co = Some(co);
                }
                CoroutineResult::Return(()) => {
                    let s = co.into_stack();
                    STACKS.with(|p| p.borrow_mut().push(s));
                }
            }
            if exec.end.is_some() {
                break;
            }
        }
    }
    let mut leaked = false;
    for th in exec.th.iter_mut() {
        if let Some(mut co) = th.co.take() {
            // Never unwound: the fiber's live objects are leaked on purpose.
            leaked = true;
            if co.started() {
                unsafe { co.force_reset() };
                let s = co.into_stack();
                STACKS.with(|p| p.borrow_mut().push(s));
            } else {
                ::std::mem::forget(co);
            }
        }
        if leaked {
            ::std::mem::forget(::std::mem::take(&mut th.tls));
        }
    }
    CUR.with(|c| c.set(::std::ptr::null_mut()));
    let mut end = exec.end.take().unwrap();
    let value = match value {
        Some(Ok(v)) => Some(v),
        Some(Err(e)) => {
            if end == End::Done {
                end = End::Panicked(panic_text(&*e));
            }
            ::std::mem::forget(e);
            None
        }
        None => None,
    };
    let threads = exec.th.len();
    RunResult {
        end,
        value,
        schedule: ::std::mem::take(&mut exec.sched),
        steps: exec.steps,
        trace: ::std::mem::take(&mut exec.trace),
        redundant: exec.free,
        threads,
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    /// complete executions of the real code
    pub execs: u64,
    /// executions abandoned as redundant by the sleep sets (still run to the end)
    pub redundant: u64,
    /// scheduling steps over all executions
    pub transitions: u64,
    /// scheduling decision points (distinct states of the exploration tree)
    pub states: u64,
    pub max_depth: usize,
    pub max_threads: usize,
    /// the whole space (for the stated mode) was enumerated
    pub complete: bool,
    pub stopped: bool,
    pub cap: Option<String>,
    /// executions per number of preemptive switches they contain (DPOR order)
    pub deepest_preempt: u16,
}

pub enum Verdict {
    Continue,
    Stop,
}

pub fn explore<R: 'static>(
    cfg: &Config,
    mut scenario: impl FnMut() -> R,
    mut on_exec: impl FnMut(RunResult<R>) -> Verdict,
) -> Report {
    let mut rep = Report::default();
    let mut nodes: Vec<Node> = Vec::new();
    let start = Instant::now();
    loop {
        let before = nodes.len();
        HEARTBEAT.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
        let res = run_one(cfg, &mut nodes, None, &mut scenario);
        rep.execs += 1;
        rep.transitions += res.steps;
        rep.states += (nodes.len() - before.min(nodes.len())) as u64 + if before > 0 { 1 } else { 0 };
        rep.max_depth = rep.max_depth.max(nodes.len());
        rep.max_threads = rep.max_threads.max(res.threads);
        if res.redundant {
            rep.redundant += 1;
        }
        if let Verdict::Stop = on_exec(res) {
            rep.stopped = true;
            return rep;
        }
        // next
        loop {
            let Some(n) = nodes.last_mut() else {
                rep.complete = true;
                return rep;
            };
            if n.choice + 1 < n.nch {
                n.choice += 1;
                break;
            }
            n.done |= 1 << n.chosen;
            let mut cand = n.backtrack & !n.done & !n.sleep;
            if let Mode::Preempt(k) = cfg.mode {
                // switching away from a runnable thread costs one
                if n.preempt >= k && n.enabled >> n.prev & 1 == 1 {
                    cand &= 1 << n.prev;
                }
            }
            if cand != 0 {
                n.chosen = cand.trailing_zeros() as u8;
                n.choice = 0;
                n.nch = 1;
                break;
            }
            nodes.pop();
        }
        if rep.execs >= cfg.max_execs {
            rep.cap = Some(format!("execution cap {}", cfg.max_execs));
            return rep;
        }
        if let Some(l) = cfg.time_limit {
            if rep.execs & 15 == 0 && start.elapsed() > l {
                rep.cap = Some(format!("time cap {}s", l.as_secs_f32()));
                return rep;
            }
        }
    }
}

/// Re-executes one recorded schedule.
pub fn replay<R: 'static>(
    cfg: &Config,
    schedule: &[(u8, u8)],
    mut scenario: impl FnMut() -> R,
) -> RunResult<R> {
    let mut nodes = Vec::new();
    run_one(cfg, &mut nodes, Some(schedule.to_vec()), &mut scenario)
}

/// Distinct results of a scenario over every schedule (used by self tests).
pub fn outcomes(cfg: &Config, scenario: impl FnMut() -> String) -> (BTreeSet<String>, Report) {
    let mut set = BTreeSet::new();
    let rep = explore(cfg, scenario, |r| {
        set.insert(match r.end {
            End::Done => r.value.unwrap(),
            End::Deadlock(_) => "DEADLOCK".into(),
            End::Horizon(_) => "HORIZON".into(),
            End::Panicked(p) => format!("PANIC {p}"),
            End::Diverged(d) => format!("DIVERGED {d}"),
        });
        Verdict::Continue
    });
    (set, rep)
}
