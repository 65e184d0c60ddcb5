//! What a run leaves in the log.
use super::progs::{self, e, P};
use super::{core, device::Dev};
use crate::dsl::*;
use crate::job::*;
use crate::oracle;
use bson::Bson;
use dam::context_tools::{log_event, log_event_cb};
use dam::dam_macros::event_type;
use dam::logging::{registry::METRICS, LogEvent, LogFilter};
use dam::simulation::*;
use dam::structures::Identifier;
use mongodb::{take_server, Server};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
type Outcome = crate::dsl::Outcome;

/// The contexts' own events.
#[derive(Serialize, Deserialize, Debug)]
#[event_type]
pub struct Note {
    n: i64,
    what: String,
}
#[derive(Serialize, Deserialize, Debug)]
#[event_type]
pub enum Remark {
    Even(i64),
    Unit,
}
/// Not registered.
#[derive(Serialize)]
struct Stray(i32);
impl LogEvent for Stray {
    const NAME: &'static str = "Stray";
}

thread_local! {
    static NOTES: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static ERRS: Cell<usize> = const { Cell::new(0) };
}
/// called by a script after its n-th operation
pub fn note(k: Kind, n: usize) {
    if !NOTES.with(|x| x.get()) {
        return;
    }
    let r = if n % 2 == 0 {
        log_event(&Note { n: n as i64, what: format!("{k:?}") })
    } else {
        log_event_cb(|| {
            CALLS.with(|c| c.set(c.get() + 1));
            if n % 4 == 1 {
                Remark::Unit
            } else {
                Remark::Even(n as i64)
            }
        })
    };
    if r.is_err() {
        ERRS.with(|c| c.set(c.get() + 1));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum F {
    All,
    /// the listed types
    Only(&'static [&'static str]),
    /// by the context: everything, nothing, the contexts' own events
    Each,
    Nothing,
    /// everything, to a server that takes its time
    Slow,
    /// no logging at all
    Off,
}
const KINDS: [F; 7] = [
    F::All,
    F::Only(&["SendEvent", "Note"]),
    F::Only(&["ReceiverEvent", "TimeEvent"]),
    F::Only(&["Remark", "ContextViewEvent"]),
    F::Each,
    F::Nothing,
    F::Off,
];
fn each(id: Identifier) -> LogFilter {
    match id.id % 3 {
        0 => LogFilter::AllowAll,
        1 => LogFilter::Some(HashSet::new()),
        _ => LogFilter::Some(["Note".to_string(), "Remark".to_string()].into()),
    }
}
impl F {
    fn options(self) -> RunOptions {
        let b = RunOptionsBuilder::default();
        if self == F::Off {
            return b.build().unwrap();
        }
        let m = MongoOptionsBuilder::default().uri("mongodb://nowhere".into()).db("results".into());
        let m = if self == F::All || self == F::Slow { m } else { m.collection("entries".into()) };
        let k = match self {
            F::All | F::Slow => LogFilterKind::Blanket(LogFilter::AllowAll),
            F::Only(s) => LogFilterKind::Blanket(LogFilter::Some(s.iter().map(|x| x.to_string()).collect())),
            F::Each => LogFilterKind::PerChild(each),
            _ => LogFilterKind::Blanket(LogFilter::Some(HashSet::new())),
        };
        b.logging(LoggingOptions::Mongo(m.build().unwrap())).log_filter(k).build().unwrap()
    }
    fn collection(self) -> &'static str {
        if self == F::All || self == F::Slow {
            "log"
        } else {
            "entries"
        }
    }
    fn permits(self, id: i64, name: &str) -> bool {
        match self {
            F::All | F::Slow => true,
            F::Only(s) => s.contains(&name),
            F::Each => match id % 3 {
                0 => true,
                1 => false,
                _ => name == "Note" || name == "Remark",
            },
            _ => false,
        }
    }
}

/// One entry, with the ticks it carries.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Entry {
    name: String,
    data: String,
    ticks: u64,
}
fn en(name: &str, data: String, ticks: u64) -> Entry {
    Entry { name: name.into(), data, ticks }
}
fn num(b: &Bson) -> Option<i64> {
    match b {
        Bson::Int32(x) => Some(*x as i64),
        Bson::Int64(x) => Some(*x),
        _ => None,
    }
}
fn time(b: &Bson) -> Option<(u64, bool)> {
    let d = b.as_document()?;
    Some((num(d.get("time")?)? as u64, d.get("done")?.as_bool()?))
}
/// The event without the details of how the library writes identifiers and times.
fn plain(name: &str, b: &Bson) -> Option<String> {
    Some(match name {
        "SendEvent" | "ReceiverEvent" => {
            let (k, v) = b.as_document()?.iter().next()?;
            let id = num(v).or_else(|| num(v.as_document()?.get("id")?))?;
            format!("{k} Channel({id})")
        }
        "TimeEvent" => {
            let (k, v) = b.as_document()?.iter().next()?;
            let (t, d) = time(v)?;
            format!("{k} {t} {d}")
        }
        "ContextViewEvent" => match b {
            Bson::String(s) => s.clone(),
            b => b.as_document()?.iter().next()?.0.clone(),
        },
        _ => b.to_string(),
    })
}
struct Logged {
    server: Server,
    calls: usize,
    errs: usize,
    o: Outcome,
}
/// all entries per context, in the order of insertion
fn entries(s: &Server, f: F) -> Result<BTreeMap<i64, Vec<Entry>>, String> {
    if f == F::Off {
        if s.created.is_empty() && s.batches.is_empty() && s.shutdowns == 0 {
            return Ok(Default::default());
        }
        return Err(format!("the log is used without having been asked for: {s:?}"));
    }
    if s.created != vec![("results".to_string(), f.collection().to_string())] {
        return Err(format!("collections created: {:?}", s.created));
    }
    if s.shutdowns != 1 || s.late != 0 {
        return Err(format!("{} shutdowns of the log, {} batches after that", s.shutdowns, s.late));
    }
    let mut m: BTreeMap<i64, Vec<Entry>> = Default::default();
    let mut clocks: BTreeMap<i64, i64> = Default::default();
    for b in &s.batches {
        if b.db != "results" || b.collection != f.collection() {
            return Err(format!("entries written to {}/{}", b.db, b.collection));
        }
        for d in &b.docs {
            let bad = || format!("malformed entry {d}");
            let d = d.as_document().ok_or_else(bad)?;
            let c = d.get("context").and_then(num).ok_or_else(bad)?;
            let (ticks, done) = d.get("ticks").and_then(time).ok_or_else(bad)?;
            let name = d.get_str("event_type").map_err(|_| bad())?;
            let data = plain(name, d.get("event_data").ok_or_else(bad)?).ok_or_else(bad)?;
            let at = d.get("timestamp").and_then(num).filter(|x| *x >= 0).ok_or_else(bad)?;
            let last = clocks.entry(c).or_insert(0);
            if at < *last && f != F::Slow {
                return Err(format!("{d} was logged before the entry it follows"));
            }
            *last = at;
            let _ = done;
            m.entry(c).or_default().push(en(name, data, ticks));
        }
    }
    Ok(m)
}
fn of(k: &str, ch: &str) -> String {
    format!("{k} {ch}")
}
/// What a script's history leaves in the log.
fn expected(log: &[Ev], ids: &[String], notes: bool) -> Vec<Entry> {
    let mut v = vec![];
    for (i, x) in log.iter().enumerate() {
        let pair = |v: &mut Vec<Entry>, n: &str, k: &str| {
            v.push(en(n, of(&format!("{k}Start"), &ids[x.ch]), x.before));
            v.push(en(n, of(&format!("{k}Finish"), &ids[x.ch]), x.after));
        };
        match x.k {
            Kind::Enq { .. } => pair(&mut v, "SendEvent", "Enqueue"),
            Kind::Deq => pair(&mut v, "ReceiverEvent", "Dequeue"),
            Kind::PeekNext => pair(&mut v, "ReceiverEvent", "PeekNext"),
            Kind::Peek | Kind::Next => v.push(en("ReceiverEvent", of("Peek", &ids[x.ch]), x.before)),
            _ => {}
        }
        if notes {
            v.push(if i % 2 == 0 {
                let b = bson::to_bson(&Note { n: i as i64, what: format!("{:?}", x.k) }).unwrap();
                en("Note", b.to_string(), x.after)
            } else {
                let r = if i % 4 == 1 { Remark::Unit } else { Remark::Even(i as i64) };
                en("Remark", bson::to_bson(&r).unwrap().to_string(), x.after)
            });
        }
    }
    let end = log.last().map(|e| e.after).unwrap_or(0);
    v.push(en("TimeEvent", format!("Finish {end} true"), end));
    v
}
/// The library reports how it waits, which depends on the schedule: a wait, then at most one parking.
fn waits(v: &[Entry]) -> Result<Vec<Entry>, String> {
    let mut out = vec![];
    let mut st = 0;
    for x in v {
        if x.name != "ContextViewEvent" {
            if st == 2 {
                return Err(format!("{x:?} while parked"));
            }
            st = 0;
            out.push(x.clone());
            continue;
        }
        st = match (x.data.as_str(), st) {
            ("WaitUntil", s) if s != 2 => 1,
            ("Park", 1) => 2,
            ("Unpark", 2) => 0,
            _ => return Err(format!("{x:?} out of place in {v:?}")),
        };
    }
    if st == 2 {
        return Err("a context is still parked at the end".into());
    }
    Ok(out)
}
fn judge(p: &Prog, l: &Logged, f: F, det: bool) -> Judged {
    oracle::check(p, &l.o.logs)?;
    let mut got = entries(&l.server, f)?;
    let mut calls = 0;
    for (c, log) in l.o.logs.iter().enumerate() {
        let id = l.o.ids[c] as i64;
        let all = expected(log, &l.o.chan_ids, true);
        let want: Vec<Entry> = all.into_iter().filter(|x| f.permits(id, &x.name)).collect();
        calls += want.iter().filter(|x| x.name == "Remark").count();
        let have = got.remove(&id).unwrap_or_default();
        let mut want = want;
        let have = if f == F::Slow {
            // the batches may arrive in any order
            let mut h: Vec<Entry> = have.into_iter().filter(|x| x.name != "ContextViewEvent").collect();
            h.sort();
            want.sort();
            h
        } else if f == F::Off || (f != F::All && f != F::Each) {
            have.into_iter().filter(|x| x.name != "ContextViewEvent" || !f.permits(id, &x.name)).collect()
        } else {
            waits(&have).map_err(|m| format!("context {c}: {m}"))?
        };
        if have != want {
            let i = (0..).find(|i| have.get(*i) != want.get(*i)).unwrap();
            return Err(format!(
                "the log of context {c} ({} of {} entries) has {:?} as entry {i}, should have {:?}",
                have.len(),
                want.len(),
                have.get(i),
                want.get(i)
            ));
        }
    }
    if !got.is_empty() {
        return Err(format!("entries of unknown contexts: {got:?}"));
    }
    if l.errs > 0 {
        return Err(format!("{} of the contexts' log calls failed", l.errs));
    }
    if l.calls != calls {
        return Err(format!("events were constructed {} times for {calls} entries", l.calls));
    }
    Ok(if det { hash(&oracle::canon(&l.o.logs)) } else { 0 })
}
fn run(p: &Prog, f: F, extra: impl FnOnce(&mut ProgramBuilder<'static>, &mut Tx, &mut Rx)) -> Logged {
    take_server();
    mongodb::set_slow(f == F::Slow);
    NOTES.with(|x| x.set(true));
    CALLS.with(|x| x.set(0));
    ERRS.with(|x| x.set(0));
    let o = run_prog_with(p, extra, f.options());
    // what is there when `run` returns
    let server = take_server();
    NOTES.with(|x| x.set(false));
    Logged { server, calls: CALLS.with(|x| x.get()), errs: ERRS.with(|x| x.get()), o }
}
fn log_job(id: String, p: Prog, f: F, det: bool, failures: bool, opt: Opt) -> Job {
    Job::new(id, move |cx| {
        let p2 = p.clone();
        every_schedule(
            cx,
            opt,
            det,
            move || run(&p2, f, |_, _, _| {}),
            |r| {
                finished(r, &mut |l| {
                    if !failures {
                        core::accounting(&p, &l.o)?;
                    }
                    judge(&p, &l, f, det)
                })
            },
        )
    })
    .cost(2)
}
fn dev_job(id: String, d: Dev, f: F, opt: Opt) -> Job {
    Job::new(id, move |cx| {
        let d2 = d.clone();
        every_schedule(
            cx,
            opt,
            d.det,
            move || run(&d2.p, f, |pb, tx, rx| (d2.make)(pb, tx, rx)),
            |r| {
                finished(r, &mut |l| {
                    let k = d.judge(&l.o)?;
                    let full = d.full();
                    let mut logs = l.o.logs.clone();
                    logs.resize(full.ctxs.len(), vec![]);
                    let ghosts = (d.model)(&full, &oracle::views(&full, &logs))?;
                    let mut got = entries(&l.server, f)?;
                    if f == F::Off {
                        return Ok(k);
                    }
                    for (c, log) in l.o.logs.iter().enumerate() {
                        let id = l.o.ids[c] as i64;
                        let want: Vec<Entry> =
                            expected(log, &l.o.chan_ids, true).into_iter().filter(|x| f.permits(id, &x.name)).collect();
                        let have = waits(&got.remove(&id).unwrap_or_default())?;
                        if have != want {
                            return Err(format!("the log of context {c} is {have:?}, should be {want:?}"));
                        }
                    }
                    // the contexts of the component: what they moved, under an identifier of their own each
                    let mut mine: Vec<(i64, Vec<Entry>)> = vec![];
                    for (id, v) in got {
                        let v: Vec<Entry> = waits(&v)?.into_iter().filter(|x| !x.data.starts_with("Peek")).collect();
                        if !v.is_empty() {
                            mine.push((id, v));
                        }
                    }
                    if mine.len() != ghosts.len() {
                        return Err(format!("{} contexts of the component wrote to the log, not {}", mine.len(), ghosts.len()));
                    }
                    for g in &ghosts {
                        let want: Vec<Entry> = expected(
                            &g.iter().filter(|x| x.res != Res::Closed).cloned().collect::<Vec<_>>(),
                            &l.o.chan_ids,
                            false,
                        )
                        .into_iter()
                        .filter(|x| x.name != "TimeEvent" && !x.data.starts_with("Peek"))
                        .collect();
                        let fits = |v: &[Entry]| {
                            let n = want.len();
                            v.len() >= n
                                && v[..n] == want[..]
                                // then the end of the streams, and its own end
                                && v[n..v.len() - 1].iter().all(|x| x.data.starts_with("Dequeue"))
                                && v[n..].last().map(|x| x.name == "TimeEvent") == Some(true)
                        };
                        match mine.iter().position(|(_, v)| fits(v)) {
                            Some(i) => {
                                mine.remove(i);
                            }
                            None => return Err(format!("no context of the component logged {want:?}: {mine:?}")),
                        }
                    }
                    Ok(k)
                })
            },
        )
    })
    .cost(4)
}

/// logs, sleeps, logs, sleeps, logs; tells between which instants it logged what
#[dam::context_tools::context_macro]
struct Napper {
    ms: u64,
    first: usize,
    at: Sh<Vec<(usize, std::time::Instant, std::time::Instant)>>,
}
impl dam::context_tools::Context for Napper {
    fn run(&mut self) {
        for n in 0..3 {
            if n > 0 {
                std::thread::sleep(std::time::Duration::from_millis(self.ms));
            }
            let n = n + self.first;
            let before = std::time::Instant::now();
            log_event(&Note { n: n as i64, what: "nap".into() }).unwrap();
            let after = std::time::Instant::now();
            self.at.with(|v| v.push((n, before, after)));
        }
    }
}
fn filters(cx: &Ctx) -> crate::job::Outcome {
    cases(cx, |c| {
        let reg = ["Note", "Remark", "SendEvent", "ReceiverEvent", "TimeEvent", "ContextViewEvent"];
        for r in reg {
            let n = METRICS.iter().filter(|x| **x == r).count();
            if !c.case(if n == 1 { Ok(1) } else { Err(format!("{r} is registered {n} times")) }) {
                return;
            }
        }
        let all: Vec<&str> = reg.iter().copied().chain(["Stray", "note", "", "SendEvent "]).collect();
        for m in 0..1usize << all.len() {
            let set: HashSet<String> = (0..all.len()).filter(|i| m >> i & 1 == 1).map(|i| all[i].to_string()).collect();
            let f = LogFilter::Some(set.clone());
            let want: BTreeSet<&str> = set.iter().map(|x| x.as_str()).filter(|x| !reg.contains(x)).collect();
            let r = match f.check() {
                Ok(()) if want.is_empty() => Ok(0),
                Err(dam::logging::LogError::InvalidFilter(v))
                    if !want.is_empty() && v.len() == want.len() && v.iter().map(|x| x.as_str()).collect::<BTreeSet<_>>() == want =>
                {
                    Ok(m as u64)
                }
                r => Err(format!("the filter {set:?} is judged {r:?}, unregistered are {want:?}")),
            };
            let en = [
                (f.enabled::<Note>(), "Note"),
                (f.enabled::<Remark>(), "Remark"),
                (f.enabled::<Stray>(), "Stray"),
            ];
            let bad = en.iter().find(|(e, n)| *e != set.contains(*n));
            if !c.case(r) || !c.case(if let Some(b) = bad { Err(format!("{b:?} with the filter {set:?}")) } else { Ok(m as u64) }) {
                return;
            }
        }
        let a = LogFilter::AllowAll;
        c.case(if a.check().is_ok() && a.enabled::<Note>() && a.enabled::<Stray>() && matches!(LogFilter::default(), LogFilter::AllowAll) {
            Ok(7)
        } else {
            Err("AllowAll does not allow everything".into())
        });
    })
}

/// scripts whose log follows from their history
fn plain_script(p: &Prog) -> bool {
    p.ctxs.iter().flatten().all(|o| !matches!(o, Op::Arb(..) | Op::Any(_) | Op::All(_)))
}

pub fn c18(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![Job::new("every filter over the registered and some unregistered names", filters)];
    let mut base: Vec<P> = progs::shapes(Tier::Quick);
    base.extend(progs::closing(Tier::Quick));
    base.extend(progs::peeking(Tier::Quick));
    base.extend(progs::pressure(Tier::Quick));
    let mut i = 0;
    for x in base.iter().filter(|x| plain_script(&x.p)) {
        for f in KINDS {
            i += 1;
            if !th && f != F::All && i % 3 != 0 {
                continue;
            }
            let k = if th { 2 } else { 1 };
            let max = if th { 200_000 } else { 8_000 };
            let infer = i % 2 == 0 && !x.stuck_peek();
            out.push(log_job(
                format!("{} {f:?}{} | {k} delays", x.name, if infer { " infer" } else { "" }),
                x.p.clone().infer(infer),
                f,
                x.det,
                false,
                delay(k).max(max),
            ));
        }
    }
    // long logs and many contexts
    let mut large = progs::large_streams(Tier::Quick);
    large.extend(progs::large_graphs(Tier::Quick));
    large.extend(progs::large_times(Tier::Quick).into_iter().step_by(5));
    for (j, x) in large.iter().filter(|x| plain_script(&x.p)).enumerate() {
        for f in [F::All, F::Each] {
            if th || f == F::All || j % 4 == 0 {
                let infer = j % 2 == 0 && !x.stuck_peek();
                let few = x.name.starts_with("late") || x.name.starts_with("slow");
                let opt = if few || th { delay(1).max(if th { 20_000 } else { 2_000 }) } else { delay(0) };
                out.push(log_job(format!("{} {f:?}{} | {} delays", x.name, if infer { " infer" } else { "" }, if few || th { 1 } else { 0 }), x.p.clone().infer(infer), f, x.det, false, opt));
            }
        }
    }
    for x in progs::late_comers().iter().filter(|x| plain_script(&x.p)) {
        out.push(log_job(format!("{} | 0 delays", x.name), x.p.clone(), F::All, x.det, false, delay(0)));
    }
    // tiny programs, deeper; every style of context
    for c in [b(1, 1, 1), u(1)] {
        for style in [Style::Macro, Style::Fallible, Style::Func, Style::Adapt] {
            for f in [F::All, F::Each, F::Only(&["SendEvent", "TimeEvent"])] {
                let p = Prog::new(vec![c], vec![vec![e(0, 1), Op::Incr(2), e(0, 2)], vec![Op::Incr(1), Op::Drain(0, 1)]]).style(style);
                let k = if th { 3 } else { 2 };
                out.push(log_job(format!("two elements {c:?} {style:?} {f:?} | {k} delays"), p, f, true, false, delay(k).max(if th { 600_000 } else { 15_000 })));
            }
        }
    }
    // more entries at once than anyone expects
    for n in if th { vec![1100usize, 2500, 120_000, 1_650_000] } else { vec![1100, 120_000] } {
        for k in if n > 10_000 { 1usize..2 } else { 1..3 } {
            let p = Prog::new(vec![], vec![vec![Op::Incr(1); n]; k]);
            out.push(log_job(format!("{k} contexts with {n} steps | 0 delays"), p, F::All, true, false, delay(0).steps(1_000_000 + 80 * n)).cost(20));
        }
    }
    // entries carry the microseconds since the run began, whoever logs them
    out.push(Job::new("entries some milliseconds apart", |cx| {
        cases(cx, |ta| {
            for (ms, k) in [(1u64, 1usize), (3, 1), (6, 1), (1, 2), (2, 3)] {
                let began = std::time::Instant::now();
                let r = once(move || {
                    take_server();
                    mongodb::set_slow(false);
                    let mut pb = ProgramBuilder::default();
                    let at = Sh::new(vec![]);
                    for i in 0..k {
                        pb.add_child(Napper { ms, first: 3 * i, at: at.clone(), context_info: Default::default() });
                    }
                    pb.initialize(Default::default()).unwrap().run(F::All.options());
                    (take_server(), at.get())
                });
                let most = began.elapsed().as_micros() as i64;
                let j = finished(r, &mut |(s, at)| {
                    let stamp: HashMap<i64, i64> = s
                        .batches
                        .iter()
                        .flat_map(|b| &b.docs)
                        .filter_map(|d| d.as_document())
                        .filter(|d| d.get_str("event_type") == Ok("Note"))
                        .filter_map(|d| Some((d.get_document("event_data").ok()?.get("n").and_then(num)?, d.get("timestamp").and_then(num)?)))
                        .collect();
                    if stamp.len() != 3 * k || at.len() != 3 * k {
                        return Err(format!("of {} entries {} were logged", at.len(), stamp.len()));
                    }
                    let s = |n: usize| stamp.get(&(n as i64)).copied().unwrap_or(-1);
                    let since = |a: std::time::Instant, b: std::time::Instant| a.saturating_duration_since(b).as_micros() as i64;
                    // the run began before any of the contexts did
                    let first = at.iter().map(|x| x.1).min().unwrap();
                    for (n, a, _) in &at {
                        if s(*n) < since(*a, first) - 1 || s(*n) > most {
                            return Err(format!("entry {n}, logged between {} and {most} microseconds into the run, is stamped {}", since(*a, first), s(*n)));
                        }
                        for (m, _, b) in &at {
                            if *a >= *b && s(*n) - s(*m) < since(*a, *b) - 1 {
                                return Err(format!("entry {n}, logged at least {} microseconds after entry {m}, is stamped {} after {}", since(*a, *b), s(*n), s(*m)));
                            }
                        }
                    }
                    Ok(ms + 10 * k as u64)
                });
                if !ta.case(j) {
                    return;
                }
            }
        })
    }));
    out.push(log_job("nobody".into(), Prog::new(vec![], vec![]), F::All, true, true, dpor()));
    out.push(log_job("alone".into(), Prog::new(vec![], vec![vec![Op::Incr(3)]]), F::All, true, false, dpor().max(if th { 300_000 } else { 20_000 })));
    out.push(log_job("a void".into(), Prog::new(vec![void()], vec![vec![e(0, 1), Op::Incr(3), e(0, 2)]]), F::All, true, false, delay(3).max(if th { 200_000 } else { 20_000 })));
    for c in [b(1, 1, 1), u(1)] {
        let p = Prog::new(vec![c], vec![vec![e(0, 1), Op::Incr(2), e(0, 2)], vec![Op::Incr(1), Op::Drain(0, 1)]]);
        out.push(log_job(format!("slow server {c:?} | 1 delay"), p, F::Slow, true, false, delay(1).max(if th { 20_000 } else { 600 })));
    }
    let kf = if th { 2 } else { 1 };
    // failing contexts keep what they logged before
    for style in [Style::Macro, Style::Fallible] {
        let x = if style == Style::Macro { Op::Panic } else { Op::Fail };
        for c in [b(1, 1, 1), u(1)] {
            for n in 0..=3 {
                for f in [F::All, F::Each] {
                    let mut s = vec![e(0, 1), Op::Incr(2), e(0, 2)];
                    s.insert(n, x.clone());
                    let p = Prog::new(vec![c], vec![s, vec![Op::Drain(0, 1)]]).style(style);
                    out.push(log_job(format!("sender fails at {n} {c:?} {style:?} {f:?} | {kf} delays"), p, f, false, true, delay(kf).max(100_000)));
                    let mut r = vec![Op::Deq(0), Op::Incr(2), Op::Deq(0)];
                    r.insert(n, x.clone());
                    let p = Prog::new(vec![c], vec![vec![e(0, 1), e(0, 2)], r]).style(style);
                    out.push(log_job(format!("receiver fails at {n} {c:?} {style:?} {f:?} | {kf} delays"), p, f, false, true, delay(kf).max(100_000)));
                }
            }
        }
    }
    // components, whose contexts log by themselves
    let un = super::store::Unit {
        cap: 4,
        bh: dam::templates::datastore::Behavior { mod_address: false, use_default_value: true },
        readers: vec![(3, 4)],
        writers: vec![(0, 1, 2)],
    };
    for (c, infer) in [(b(2, 1, 1), false), (u(1), false), (u(1), true)] {
        let d = super::store::pmu_dev(
            vec![c, c, c, c, c],
            vec![vec![e(0, 1), e(1, 11), Op::Deq(2), e(3, 1), Op::Deq(4)]],
            super::store::Unit { ..un.clone() },
            true,
        );
        let d = if infer { d.infer() } else { d };
        for f in [F::All, F::Off] {
            out.push(dev_job(format!("pmu {c:?} {f:?} {infer} | 1 delay"), d.clone(), f, delay(if th { 2 } else { 1 }).max(if th { 200_000 } else { 20_000 })));
        }
    }
    for c in [b(1, 1, 1), u(1)] {
        let d = super::util::broadcast(c, &[c, b(1, 2, 3)], vec![e(0, 1), e(0, 2)], vec![vec![Op::Drain(1, 0)], vec![Op::Drain(2, 3)]]);
        out.push(dev_job(format!("broadcast {c:?} | 1 delay"), d, F::All, delay(if th { 2 } else { 1 }).max(100_000)));
    }
    // two programs, one after the other, with different logs; then one without
    out.push(Job::new("several runs | 1 delay", |cx| {
        let p = Prog::new(vec![b(1, 1, 1)], vec![vec![e(0, 1), e(0, 2)], vec![Op::Drain(0, 1)]]);
        let p2 = p.clone();
        let fs = [F::All, F::Only(&["Note", "SendEvent"]), F::Off, F::All];
        every_schedule(
            cx,
            delay(1).max(20_000),
            true,
            move || fs.map(|f| run(&p2, f, |_, _, _| {})),
            |r| {
                finished(r, &mut |ls| {
                    let mut k = 0;
                    for (l, f) in ls.iter().zip(fs) {
                        core::accounting(&p, &l.o)?;
                        k = judge(&p, l, f, true)?;
                    }
                    Ok(k)
                })
            },
        )
    }));
    out
}
