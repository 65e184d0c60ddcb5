//! Jobs: one exhaustive exploration each, with a verdict.
use dam_mc::rt::{explore, replay, Config, End, Mode, RunResult, Verdict};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub violation: Option<String>,
    pub schedule: Vec<(u8, u8)>,
    pub trace: Vec<String>,
    /// known findings met on the way
    pub known: Vec<String>,
    pub execs: u64,
    pub redundant: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_threads: usize,
    pub max_depth: usize,
    pub complete: bool,
    pub cap: Option<String>,
    pub mode: String,
    /// sequential cases enumerated (no scheduling)
    pub cases: u64,
    /// the outcome that every execution had, when they all must have the same
    #[serde(default)]
    pub key: Option<String>,
}

pub struct Job {
    pub id: String,
    pub cost: u32,
    pub f: Box<dyn Fn(&Ctx) -> Outcome>,
}
impl Job {
    pub fn new(id: impl Into<String>, f: impl Fn(&Ctx) -> Outcome + 'static) -> Job {
        Job { id: id.into(), cost: 1, f: Box::new(f) }
    }
    pub fn cost(mut self, c: u32) -> Job {
        self.cost = c;
        self
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub job: String,
    pub pattern: String,
    pub what: String,
}

/// What a job is given.
pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub known: Vec<Known>,
    /// replay this schedule instead of exploring
    pub forced: Option<Vec<(u8, u8)>>,
    pub limit: Duration,
}

/// Exploration settings of a job.
#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub mode: Mode,
    pub weak: bool,
    pub spurious: u8,
    pub max: u64,
    pub mpsc: bool,
    /// how many steps one execution may take
    pub steps: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { mode: Mode::Dpor, weak: false, spurious: 0, max: 3_000_000, mpsc: false, steps: 1_000_000 }
    }
}
pub fn dpor() -> Opt {
    Opt::default()
}
pub fn preempt(k: u16) -> Opt {
    Opt { mode: Mode::Preempt(k), ..Default::default() }
}
/// delay-bounded
pub fn delay(k: u16) -> Opt {
    Opt { mode: Mode::Delay(k), ..Default::default() }
}
impl Opt {
    pub fn weak(mut self) -> Opt {
        self.weak = true;
        self
    }
    pub fn spurious(mut self, n: u8) -> Opt {
        self.spurious = n;
        self
    }
    pub fn mpsc(mut self) -> Opt {
        self.mpsc = true;
        self
    }
    pub fn steps(mut self, n: usize) -> Opt {
        self.steps = n;
        self
    }
    pub fn max(mut self, n: u64) -> Opt {
        self.max = n;
        self
    }
    fn cfg(&self, cx: &Ctx) -> Config {
        Config {
            max_execs: self.max,
            max_steps: self.steps,
            weak: self.weak,
            spurious: self.spurious,
            yield_blocks: true,
            mode: self.mode,
            time_limit: Some(cx.limit),
            trace: false,
            mpsc_commute: self.mpsc,
        }
    }
}

/// What the judge of one execution says: a key of the observable outcome, or what is wrong.
pub type Judged = Result<u64, String>;

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = rustc_hash::FxHasher::default();
    t.hash(&mut h);
    h.finish()
}

/// Judge for executions that must complete.
pub fn finished<R>(r: RunResult<R>, j: &mut dyn FnMut(R) -> Judged) -> Judged {
    match r.end {
        End::Done => j(r.value.unwrap()),
        End::Deadlock(d) => Err(format!("never finishes: {d}")),
        End::Horizon(d) => Err(format!("does not finish within the step horizon: {d}")),
        End::Panicked(d) => Err(format!("panics: {d}")),
        End::Diverged(d) => Err(format!("MACHINERY schedule not replayable: {d}")),
    }
}

/// Explores every schedule (under the options) of `scenario`, judging each execution.
/// With `same` set, all executions must have the same outcome key.
pub fn every_schedule<R: 'static>(
    cx: &Ctx,
    opt: Opt,
    same: bool,
    scenario: impl Fn() -> R,
    mut judge: impl FnMut(RunResult<R>) -> Judged,
) -> Outcome {
    let cfg = opt.cfg(cx);
    let mut out = Outcome { mode: format!("{:?}", opt), ..Default::default() };
    if let Some(s) = &cx.forced {
        let mut c = cfg.clone();
        c.trace = true;
        let mut r = replay(&c, s, &scenario);
        out.trace = std::mem::take(&mut r.trace);
        out.execs = 1;
        out.schedule = r.schedule.clone();
        out.violation = judge(r).err();
        return out;
    }
    let mut seen: HashSet<u64> = HashSet::new();
    let mut first: Option<(u64, Vec<(u8, u8)>)> = None;
    let mut viol: Option<(String, Vec<(u8, u8)>)> = None;
    let known: Vec<&Known> = cx.known.iter().filter(|k| k.job == cx.id).collect();
    let mut met: Vec<String> = vec![];
    // bounds in increasing order, so that a job stopped at its cap has at least finished the smaller ones
    let steps: Vec<Mode> = match opt.mode {
        Mode::Delay(k) => (1.min(k)..=k).map(Mode::Delay).collect(),
        m => vec![m],
    };
    let t0 = std::time::Instant::now();
    let mut done = String::new();
    for mode in steps {
        let mut cfg = cfg.clone();
        cfg.mode = mode;
        cfg.time_limit = Some(cx.limit.saturating_sub(t0.elapsed()));
        let rep = explore(&cfg, &scenario, |mut r| {
            let sched = std::mem::take(&mut r.schedule);
            let mut v = judge(r);
            if let Ok(k) = v {
                seen.insert(k);
                match &first {
                    None => first = Some((k, sched.clone())),
                    Some((f, fs)) if same && *f != k => {
                        v = Err(format!("the outcome depends on the schedule (another outcome: schedule {})", show(fs)));
                    }
                    _ => {}
                }
            }
            match v {
                Ok(_) => Verdict::Continue,
                Err(m) => {
                    if let Some(k) = known.iter().find(|k| m.contains(&k.pattern)) {
                        if !met.contains(&k.what) {
                            met.push(k.what.clone());
                        }
                        return Verdict::Continue;
                    }
                    viol = Some((m, sched));
                    Verdict::Stop
                }
            }
        });
        out.execs += rep.execs;
        out.redundant += rep.redundant;
        out.transitions += rep.transitions;
        out.states += rep.states;
        out.max_threads = out.max_threads.max(rep.max_threads);
        out.max_depth = out.max_depth.max(rep.max_depth);
        out.complete = rep.complete;
        out.cap = rep.cap.map(|c| format!("{c}{done}"));
        if !rep.complete || viol.is_some() {
            break;
        }
        done = format!(" after completing {mode:?}");
    }
    out.known = met;
    out.outcomes = seen.len() as u64;
    if same {
        out.key = first.as_ref().map(|f| format!("{:016x}", f.0));
    }
    if let Some((m, mut s)) = viol {
        if s.len() <= 200_000 {
            let mut c = cfg.clone();
            c.trace = true;
            let mut r = replay(&c, &s, &scenario);
            out.trace = std::mem::take(&mut r.trace);
        } else {
            out.trace = vec![format!("{} steps, too many to list", s.len())];
            // what is left out of the schedule follows the default one
            s.truncate(if opt.mode == Mode::Delay(0) { 0 } else { 1_000_000 });
        }
        out.violation = Some(m);
        out.schedule = s;
    }
    out
}

pub fn show(s: &[(u8, u8)]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let mut n = 1;
        while i + n < s.len() && s[i + n] == s[i] {
            n += 1;
        }
        if s[i].1 > 0 {
            o += &format!("{}/{}", s[i].0, s[i].1);
        } else {
            o += &format!("{}", s[i].0);
        }
        if n > 1 {
            o += &format!("x{n}");
        }
        o.push(' ');
        i += n;
    }
    o
}

/// A job without scheduling: exhaustively enumerated sequential cases.
/// The closure calls the tally for each case and returns the first failure.
pub fn cases(cx: &Ctx, f: impl FnOnce(&mut Tally)) -> Outcome {
    let mut t = Tally { n: 0, err: None, known: vec![], met: vec![], keys: Default::default() };
    t.known = cx.known.iter().filter(|k| k.job == cx.id).cloned().collect();
    f(&mut t);
    Outcome {
        violation: t.err,
        known: t.met,
        cases: t.n,
        outcomes: t.keys.len() as u64,
        states: t.n,
        transitions: t.n,
        execs: 0,
        complete: true,
        mode: "exhaustive enumeration".into(),
        ..Default::default()
    }
}
pub struct Tally {
    pub n: u64,
    pub err: Option<String>,
    known: Vec<Known>,
    met: Vec<String>,
    keys: HashSet<u64>,
}
impl Tally {
    /// Counts a case; returns false once something failed (stop enumerating).
    pub fn case(&mut self, r: Result<u64, String>) -> bool {
        self.n += 1;
        dam_mc::rt::HEARTBEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match r {
            Ok(k) => {
                if self.keys.len() < 1_000_000 {
                    self.keys.insert(k);
                }
            }
            Err(m) => {
                if let Some(k) = self.known.iter().find(|k| m.contains(&k.pattern)) {
                    if !self.met.contains(&k.what) {
                        self.met.push(k.what.clone());
                    }
                } else if self.err.is_none() {
                    self.err = Some(m);
                }
            }
        }
        self.err.is_none()
    }
    pub fn failed(&self) -> bool {
        self.err.is_some()
    }
}

/// Runs `f` as a single execution (default schedule) under the explorer and returns how it ended.
pub fn once<R: 'static>(f: impl Fn() -> R) -> RunResult<R> {
    let cfg = Config { max_steps: 2_000_000, ..Default::default() };
    replay(&cfg, &[], f)
}
pub fn once_long<R: 'static>(f: impl Fn() -> R) -> RunResult<R> {
    let cfg = Config { max_steps: 5_000_000, ..Default::default() };
    replay(&cfg, &[], f)
}
