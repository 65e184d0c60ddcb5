//! Running programs: failures, initialization, accounting, identifiers, composite contexts.
use super::progs::{self, e, P};
use crate::dsl::*;
use crate::job::*;
use crate::oracle;
use dam::channel::ChannelID;
use dam::context::{ContextSummary, ExplicitConnections, ProxyContext};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{ContextView, Identifiable, Identifier, ParentView, TimeView, TimeViewable, VerboseIdentifier};
use dam::types::Cleanable;
use std::collections::{HashMap, HashSet};
type Outcome = crate::dsl::Outcome;

// ---------------------------------------------------------------- C10

/// did this context run into its scripted failure?
fn failed(ops: &[Op], log: &[Ev]) -> Result<bool, String> {
    let bomb = ops.iter().any(|o| matches!(o, Op::Panic | Op::Fail));
    match log.last() {
        Some(Ev { k: Kind::End, .. }) if !bomb => Ok(false),
        Some(Ev { k: Kind::Enq { .. } | Kind::Wait, res: Res::Err, .. }) => Ok(false),
        Some(Ev { k: Kind::End, .. }) => Err("ran past its failure".into()),
        _ if bomb => Ok(true),
        l => Err(format!("neither ended nor failed: {l:?}")),
    }
}
fn judge_failures(p: &Prog, o: &Outcome) -> Judged {
    if let Some(e) = &o.init_error {
        return Err(format!("initialization failed: {e}"));
    }
    oracle::check(p, &o.logs)?;
    let mut bad = vec![];
    let mut elapsed = None;
    for (c, l) in o.logs.iter().enumerate() {
        if failed(&p.ctxs[c], l).map_err(|m| format!("context {c}: {m}"))? {
            bad.push(c);
        } else {
            elapsed = elapsed.max(Some(l.last().map(|e| e.after).unwrap_or(0)));
        }
    }
    if o.passed != bad.is_empty() {
        return Err(format!("passed() is {} although contexts {bad:?} failed", o.passed));
    }
    if o.failures.len() != bad.len() {
        return Err(format!("contexts {bad:?} failed, reported are {:?}", o.failures));
    }
    for c in &bad {
        let id = o.ids[*c].to_string();
        let n = o.failures.iter().filter(|f| f.split(|x: char| !x.is_ascii_digit()).any(|w| w == id)).count();
        if n != 1 {
            return Err(format!("the failure of context {c} (id {id}) is reported {n} times in {:?}", o.failures));
        }
        if p.style == Style::Fallible && p.ctxs[*c].contains(&Op::Fail) {
            let it = o.failures.iter().find(|f| f.split(|x: char| !x.is_ascii_digit()).any(|w| w == id)).unwrap();
            if !it.contains("scripted failure") {
                return Err(format!("the error of context {c} is reported as {it:?}"));
            }
        }
    }
    if o.elapsed != elapsed {
        return Err(format!("elapsed_cycles is {:?}, the largest local time of a completed context is {elapsed:?}", o.elapsed));
    }
    Ok(hash(&(oracle::canon(&o.logs), bad)))
}
fn failure_job(id: String, p: Prog, opt: Opt) -> Job {
    Job::new(id, move |cx| {
        let p2 = p.clone();
        every_schedule(cx, opt, false, move || run_prog(&p2), |r| finished(r, &mut |o| judge_failures(&p, &o)))
    })
}
/// straight-line version of an operation that consumes a whole stream
fn unroll(ops: &[Op]) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Drain(c, ii) => {
                for _ in 0..2 {
                    v.push(Op::Deq(*c));
                    if *ii > 0 {
                        v.push(Op::Incr(*ii));
                    }
                }
                v.push(o.clone());
            }
            Op::Fwd(a, b, _) => {
                v.extend([Op::Deq(*a), Op::Enq(*b, 0, V::Acc), o.clone()]);
            }
            Op::Loop(a, b, n) if *n > 1 => {
                v.extend([Op::Deq(*a), Op::Enq(*b, 0, V::Acc), Op::Loop(*a, *b, n - 1)]);
            }
            o => v.push(o.clone()),
        }
    }
    v
}
/// every program with one failure put in every place
fn bombs(x: &P, fail: bool) -> Vec<(String, Prog)> {
    let mut out = vec![];
    let style = if fail { Style::Fallible } else { Style::Macro };
    let base = Prog { ctxs: x.p.ctxs.iter().map(|o| unroll(o)).collect(), ..x.p.clone() }.style(style);
    for c in 0..base.ctxs.len() {
        for i in 0..=base.ctxs[c].len() {
            let mut q = base.clone();
            q.ctxs[c].insert(i, if fail { Op::Fail } else { Op::Panic });
            if oracle::finishes(&q) {
                out.push((format!("{} {} in {c} at {i}", x.name, if fail { "error" } else { "panic" }), q));
            }
        }
    }
    out
}
pub fn c10(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let k = if th { 2 } else { 1 };
    let mut out = vec![];
    let mut base: Vec<P> = progs::shapes(if th { Tier::Thorough } else { Tier::Quick }).into_iter().filter(|x| !x.name.ends_with("rev")).collect();
    base.extend(progs::closing(Tier::Quick));
    for x in &base {
        for fail in [false, true] {
            for (n, q) in bombs(x, fail) {
                let clean = !x.stuck_peek();
                if clean && (th || !fail) {
                    out.push(failure_job(format!("{n} infer | {k} delays"), q.clone().infer(true), delay(k)).cost(x.cost));
                }
                out.push(failure_job(format!("{n} | {k} delays"), q, delay(k)).cost(x.cost));
            }
        }
    }
    // all pairs of short scripts, failing anywhere
    let chs = if th { vec![b(1, 1, 1), b(2, 2, 1), u(2)] } else { vec![b(1, 1, 1), u(1)] };
    for x in progs::all_pairs(2, 2, &chs).into_iter().filter(|x| x.connected() && oracle::finishes(&x.p)) {
        for fail in if th { vec![false, true] } else { vec![false] } {
            for (n, q) in bombs(&x, fail) {
                out.push(failure_job(format!("{n} | 2 delays"), q, delay(2)).cost(0));
            }
        }
    }
    // several failures at once
    for c in [b(1, 1, 1), u(1)] {
        for style in [Style::Macro, Style::Fallible] {
            let x = if style == Style::Macro { Op::Panic } else { Op::Fail };
            let all = Prog::new(vec![c, c], vec![vec![e(0, 1), x.clone()], vec![Op::Deq(0), x.clone(), e(1, 1)], vec![Op::Deq(1), x.clone()]]).style(style);
            out.push(failure_job(format!("all three fail {c:?} {style:?} | 2 delays"), all, delay(2)).cost(6));
            let two = Prog::new(vec![c, c], vec![vec![e(0, 1), Op::Incr(4)], vec![Op::Deq(0), e(1, 1), x.clone()], vec![x.clone(), Op::Deq(1)]]).style(style);
            out.push(failure_job(format!("two fail {c:?} {style:?} | 2 delays"), two, delay(2)).cost(6));
            let solo = Prog::new(vec![], vec![vec![Op::Incr(3), x.clone()], vec![Op::Incr(2)], vec![x.clone()]]).style(style);
            out.push(failure_job(format!("unconnected {c:?} {style:?} | 2 delays"), solo, delay(2)).cost(3));
        }
    }
    for (i, ids) in progs::USED.into_iter().enumerate() {
        let x = [Op::Panic, Op::Fail][i % 2].clone();
        let q = Prog::new(vec![b(1, 1, 1), u(1)], vec![vec![e(0, 1), x.clone()], vec![Op::Deq(0), e(1, 1), Op::Incr(3)], vec![Op::Deq(1), x.clone()]]).style([Style::Macro, Style::Fallible][i % 2]);
        out.push(failure_job(format!("two fail after {ids:?} identifiers | 0 delays"), q.after(ids.0, ids.1), delay(0)).cost(6));
    }
    // many failures, and failures deep in a long stream
    let k = if th { 14 } else { 8 };
    for c in [b(1, 1, 1), u(1)] {
        for style in [Style::Macro, Style::Fallible] {
            let x = if style == Style::Macro { Op::Panic } else { Op::Fail };
            let solo = Prog::new(vec![], (0..k).map(|i| if i % 4 == 2 { vec![Op::Incr(i)] } else { vec![Op::Incr(i), x.clone()] }).collect()).style(style);
            if c.cap.is_none() {
                out.push(failure_job(format!("{k} unconnected {style:?} | 1 delay"), solo, delay(1)).cost(10));
            }
            let n = k as usize;
            for dead in [vec![0], vec![n / 2], vec![n - 1], (0..n).step_by(2).collect()] {
                // every link passes three elements on; the dead ones stop after the second
                let ctxs = (0..n)
                    .map(|i| {
                        let mut v = vec![];
                        for j in 0..3u64 {
                            if i > 0 {
                                v.push(Op::Deq(i - 1));
                            }
                            if j == 2 && dead.contains(&i) {
                                v.push(x.clone());
                            }
                            if i + 1 < n {
                                v.push(e(i, j));
                            }
                        }
                        v
                    })
                    .collect();
                let p = Prog::new(vec![c; n - 1], ctxs).style(style);
                if oracle::finishes(&p) {
                    out.push(failure_job(format!("chain of {n} {c:?} {style:?}, {dead:?} fail | 1 delay"), p.clone(), delay(1)).cost(10));
                    out.push(failure_job(format!("chain of {n} {c:?} {style:?}, {dead:?} fail infer | 1 delay"), p.infer(true), delay(1)).cost(10));
                }
            }
            for at in [9u64, 30] {
                let tx = [progs::sender(0, at, "burst"), vec![x.clone()]].concat();
                let p = Prog::new(vec![c], vec![tx, vec![Op::Drain(0, 1)]]).style(style);
                out.push(failure_job(format!("sender fails after {at} {c:?} {style:?} | 1 delay"), p, delay(1)).cost(10));
                let rx = [vec![Op::Deq(0); at as usize], vec![x.clone()]].concat();
                let p = Prog::new(vec![c], vec![progs::sender(0, at + 12, "burst"), rx]).style(style);
                out.push(failure_job(format!("receiver fails after {at} {c:?} {style:?} | 1 delay"), p, delay(1)).cost(10));
            }
        }
    }
    // composite contexts
    for (n, p, t) in [
        ("child fails", Prog::new(vec![b(1, 1, 1)], vec![vec![e(0, 1), e(0, 2)], vec![Op::Deq(0), Op::Panic], vec![Op::Incr(4)]]), vec![T::C(0), T::G(vec![T::C(1), T::C(2)])]),
        ("sender in a composite fails", Prog::new(vec![u(1)], vec![vec![e(0, 1), Op::Panic], vec![Op::Drain(0, 0)], vec![Op::Incr(4)]]), vec![T::G(vec![T::C(0), T::C(2)]), T::C(1)]),
    ] {
        out.push(Job::new(format!("composite: {n} | 2 delays"), move |cx| {
            let (p2, t2) = (p.clone(), t.clone());
            every_schedule(cx, delay(2).max(100_000), false, move || run_tree(&p2, &t2, false), |r| {
                finished(r, &mut |o| {
                    oracle::check(&p, &o.logs)?;
                    if o.passed || o.failures.len() != 1 {
                        return Err(format!("one composite failed, reported: {:?}", o.failures));
                    }
                    Ok(hash(&oracle::canon(&o.logs)))
                })
            })
        }));
    }
    out
}

// ---------------------------------------------------------------- C11

#[context_macro]
struct Node {
    tx: Vec<Sender<E>>,
    rx: Vec<Receiver<E>>,
    log: Sh<Vec<(usize, &'static str)>>,
    me: usize,
}
impl Context for Node {
    fn init(&mut self) {
        let me = self.me;
        self.log.with(|l| l.push((me, "init")));
    }
    fn run(&mut self) {
        let me = self.me;
        self.log.with(|l| l.push((me, "run")));
        self.time.incr_cycles(me as u64 + 1);
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Wire {
    kind: Option<Option<usize>>, // None: void
    tx: Option<usize>,
    rx: Option<usize>,
}
fn wires(nodes: usize) -> Vec<Wire> {
    let ends: Vec<Option<usize>> = [None].into_iter().chain((0..nodes).map(Some)).collect();
    let mut v = vec![];
    for kind in [Some(Some(1)), Some(None), None] {
        for tx in &ends {
            for rx in &ends {
                if kind.is_none() && rx.is_some() {
                    continue;
                }
                v.push(Wire { kind, tx: *tx, rx: *rx });
            }
        }
    }
    v
}
fn try_graph(nodes: usize, ws: &[Wire], registered: usize, infer: bool) -> Judged {
    let ws = ws.to_vec();
    let r = once(move || {
        let mut pb = ProgramBuilder::default();
        let log = Sh::new(vec![]);
        let mut ns: Vec<Node> = (0..nodes).map(|me| Node { tx: vec![], rx: vec![], log: log.clone(), me, context_info: Default::default() }).collect();
        let mut loose: (Vec<Sender<E>>, Vec<Receiver<E>>) = (vec![], vec![]);
        let mut defects: Vec<(u8, Option<ChannelID>, Option<Identifier>)> = vec![];
        for w in &ws {
            let (s, r) = match w.kind {
                Some(Some(c)) => {
                    let (s, r) = pb.bounded(c);
                    (s, Some(r))
                }
                Some(None) => {
                    let (s, r) = pb.unbounded();
                    (s, Some(r))
                }
                None => (pb.void(), None),
            };
            match w.tx {
                Some(n) => {
                    s.attach_sender(&ns[n]);
                    if registered >> n & 1 == 0 {
                        defects.push((2, None, Some(ns[n].id())));
                    }
                    ns[n].tx.push(s);
                }
                None => {
                    defects.push((0, Some(s.id()), None));
                    loose.0.push(s);
                }
            }
            if let Some(r) = r {
                match w.rx {
                    Some(n) => {
                        r.attach_receiver(&ns[n]);
                        if registered >> n & 1 == 0 {
                            defects.push((2, None, Some(ns[n].id())));
                        }
                        ns[n].rx.push(r);
                    }
                    None => {
                        defects.push((1, Some(r.id()), None));
                        loose.1.push(r);
                    }
                }
            }
        }
        let mut kept = vec![];
        for (i, n) in ns.into_iter().enumerate() {
            if registered >> i & 1 == 1 {
                pb.add_child(n);
            } else {
                kept.push(n);
            }
        }
        let children = pb.num_children();
        let res = pb.initialize(options(infer)).map(|p| {
            let before = log.get();
            let ex = p.run(RunOptions::default());
            (before, ex.elapsed_cycles(), ex.passed())
        });
        (defects, children, res, log.get())
    });
    finished(r, &mut |(defects, children, res, log)| {
        let want: Vec<usize> = (0..nodes).filter(|n| registered >> n & 1 == 1).collect();
        if children != want.len() {
            return Err(format!("num_children is {children} of {want:?}"));
        }
        match res {
            Ok((before, elapsed, passed)) => {
                if !defects.is_empty() {
                    return Err(format!("accepted although {defects:?}"));
                }
                let count = |l: &[(usize, &str)], k: &str| {
                    let mut v: Vec<usize> = l.iter().filter(|x| x.1 == k).map(|x| x.0).collect();
                    v.sort();
                    v
                };
                if count(&before, "init") != want || !count(&before, "run").is_empty() || count(&log, "init") != want || count(&log, "run") != want {
                    return Err(format!("contexts {want:?} should be initialized and run once each: {log:?}"));
                }
                if elapsed != want.iter().max().map(|x| *x as u64 + 1) || !passed {
                    return Err(format!("elapsed {elapsed:?} passed {passed}"));
                }
                Ok(1)
            }
            Err(e) => {
                let it = match &e {
                    InitializationError::DisconnectedSender(c) => (0, Some(*c), None),
                    InitializationError::DisconnectedReceiver(c) => (1, Some(*c), None),
                    InitializationError::UnregisteredNode(n) => (2, None, Some(*n)),
                };
                if !defects.contains(&it) {
                    return Err(format!("refused with {e:?}, but the defects are {defects:?}"));
                }
                if !log.is_empty() {
                    return Err(format!("a refused program still did {log:?}"));
                }
                Ok(2 + it.0 as u64)
            }
        }
    })
}
/// every graph of `n` channels over `nodes` contexts, starting with channel `first`
fn graphs(ta: &mut Tally, nodes: usize, n: usize, first: usize) {
    let all = wires(nodes);
    let mut idx = vec![first; n];
    loop {
        let ws: Vec<Wire> = idx.iter().map(|i| all[*i]).collect();
        for reg in 0..1 << nodes {
            for infer in [false, true] {
                let r = std::panic::catch_unwind(|| try_graph(nodes, &ws, reg, infer)).unwrap_or_else(|_| Err("panicked".into()));
                if !ta.case(r.map_err(|m| format!("{ws:?} with contexts {reg:b} registered, inference {infer}: {m}"))) {
                    return;
                }
            }
        }
        // combinations with repetition
        let mut i = n;
        loop {
            if i <= 1 {
                return;
            }
            i -= 1;
            if idx[i] + 1 < all.len() {
                let x = idx[i] + 1;
                for j in i..n {
                    idx[j] = x;
                }
                break;
            }
        }
    }
}
pub fn c11(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    out.push(Job::new("no channels", |cx| {
        cases(cx, |ta| {
            for nodes in 0..4 {
                for reg in 0..1 << nodes {
                    for infer in [false, true] {
                        if !ta.case(try_graph(nodes, &[], reg, infer)) {
                            return;
                        }
                    }
                }
            }
        })
    }));
    let mut plans = vec![(1usize, 1usize), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3), (3, 2), (1, 4), (3, 3), (2, 4), (4, 3)];
    if th {
        plans.extend([(3, 4), (5, 3), (2, 5)]);
    }
    for (nodes, n) in plans {
        for f in 0..wires(nodes).len() {
            out.push(
                Job::new(format!("{nodes} contexts, {n} channels, the first is number {f}"), move |cx| cases(cx, |ta| graphs(ta, nodes, n, f))).cost((n * nodes) as u32),
            );
        }
    }
    // large graphs with one thing wrong in them, anywhere
    let n = if th { 24usize } else { 13 };
    for infer in [false, true] {
        out.push(Job::new(format!("{n} contexts in a ring with chords, at most one defect, infer {infer}"), move |cx| {
            cases(cx, |ta| {
                let w = |kind, f: usize, t: usize| Wire { kind, tx: Some(f), rx: Some(t) };
                let mut ws: Vec<Wire> = (0..n).map(|i| w(Some(if i % 2 == 0 { Some(1 + i) } else { None }), i, (i + 1) % n)).collect();
                ws.extend((0..n).step_by(3).map(|i| w(Some(None), i, (i + n / 2) % n)));
                ws.extend((0..n).step_by(4).map(|i| Wire { kind: None, tx: Some(i), rx: None }));
                let all = (1usize << n) - 1;
                if !ta.case(try_graph(n, &ws, all, infer)) {
                    return;
                }
                for i in 0..n {
                    if !ta.case(try_graph(n, &ws, all & !(1 << i), infer)) {
                        return;
                    }
                }
                for i in 0..ws.len() {
                    let mut x = ws.clone();
                    x[i].tx = None;
                    if !ta.case(try_graph(n, &x, all, infer)) {
                        return;
                    }
                    if ws[i].rx.is_some() {
                        let mut x = ws.clone();
                        x[i].rx = None;
                        if !ta.case(try_graph(n, &x, all, infer)) {
                            return;
                        }
                    }
                }
            })
        }));
    }
    // an end attached again belongs to the last context
    out.push(Job::new("attached twice", |cx| {
        cases(cx, |ta| {
            for last in 0..2usize {
                for reg in 0..4usize {
                    let r = once(move || {
                        let mut pb = ProgramBuilder::default();
                        let (s, r) = pb.unbounded::<E>();
                        let log = Sh::new(vec![]);
                        let mk = |me| Node { tx: vec![], rx: vec![], log: log.clone(), me, context_info: Default::default() };
                        let mut ns = vec![mk(0), mk(1)];
                        s.attach_sender(&ns[1 - last]);
                        s.attach_sender(&ns[last]);
                        r.attach_receiver(&ns[1 - last]);
                        r.attach_receiver(&ns[last]);
                        ns[last].tx.push(s);
                        ns[last].rx.push(r);
                        let mut kept = vec![];
                        for (i, n) in ns.into_iter().enumerate() {
                            if reg >> i & 1 == 1 {
                                pb.add_child(n)
                            } else {
                                kept.push(n)
                            }
                        }
                        pb.initialize(options(false)).is_ok()
                    });
                    let want = reg >> last & 1 == 1;
                    ta.case(finished(r, &mut |ok| if ok == want { Ok(ok as u64) } else { Err(format!("last attached {last}, registered {reg:b}: accepted {ok}")) }));
                }
            }
        })
    }));
    // channel ends of the children of a composite
    out.push(Job::new("children of composites count as registered", |cx| {
        cases(cx, |ta| {
            let p = Prog::new(vec![u(1), b(1, 1, 1)], vec![vec![e(0, 1)], vec![Op::Deq(0), e(1, 2)], vec![Op::Deq(1)]]);
            for infer in [false, true] {
                for t in trees(3) {
                    for explicit in [false, true] {
                        let (p2, t2) = (p.clone().infer(infer), t.clone());
                        let r = once(move || run_tree(&p2, &t2, explicit));
                        ta.case(finished(r, &mut |o| match &o.init_error {
                            Some(e) => Err(format!("{t:?} explicit {explicit} infer {infer}: refused: {e}")),
                            None => Ok(o.nodes as u64),
                        }));
                    }
                }
            }
            // ... unless the composite is not registered
            let r = once(move || {
                let mut pb = ProgramBuilder::default();
                let (mut tx, mut rx) = channels(&p, &mut pb);
                let mut kids = scripts(&p, &mut tx, &mut rx).into_iter().map(Scripted::new).collect::<Vec<_>>();
                pb.add_child(kids.pop().unwrap());
                let g = Comp::new(kids.into_iter().map(|k| Kid::S(k.into())).collect(), false);
                let e = pb.initialize(options(false)).err().map(|e| matches!(e, InitializationError::UnregisteredNode(_)));
                drop(g);
                e
            });
            ta.case(finished(r, &mut |x| if x == Some(true) { Ok(9) } else { Err(format!("children of an unregistered composite: {x:?}")) }));
        })
    }));
    out
}

// ---------------------------------------------------------------- composite contexts

#[derive(Clone, Debug)]
pub enum T {
    C(usize),
    G(Vec<T>),
}
pub enum Kid {
    S(ProxyContext<Scripted>),
    G(Box<ProxyContext<Comp>>),
}
#[macro_export]
macro_rules! kid {
    ($k:expr, $x:ident => $e:expr) => {
        match $k {
            $crate::props::run::Kid::S($x) => $e,
            $crate::props::run::Kid::G($x) => $e,
        }
    };
}
/// A context made of others, each on a thread of its own, in the way the PMU is.
pub struct Comp {
    pub kids: Vec<Kid>,
    id: Identifier,
    /// how connections are declared: not at all; all inputs with all outputs; by output, by input or by pair (and the other way round)
    explicit: u8,
}
impl Comp {
    fn new(kids: Vec<Kid>, explicit: impl Into<u8>) -> Comp {
        Comp { kids, id: Identifier::new(), explicit: explicit.into() }
    }
}
impl Identifiable for Comp {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        "Comp".into()
    }
}
impl TimeViewable for Comp {
    fn view(&self) -> TimeView {
        ParentView { child_views: self.kids.iter().map(|k| kid!(k, x => x.view())).collect() }.into()
    }
}
/// All of these say the same: every input influences every output.
fn conns(k: &Kid, how: u8) -> ExplicitConnections {
    match k {
        Kid::S(s) => {
            let mut ins: Vec<ChannelID> = s.s.rx.iter().flatten().map(|r| r.id()).collect();
            let mut outs: Vec<ChannelID> = s.s.tx.iter().flatten().map(|r| r.id()).collect();
            if how > 4 {
                ins.reverse();
                outs.reverse();
            }
            let one = |v: &[ChannelID]| v.iter().map(|x| HashSet::from([*x])).collect::<Vec<_>>();
            let all = |v: &[ChannelID]| vec![v.iter().copied().collect::<HashSet<_>>()];
            let (i, o) = match how {
                _ if ins.is_empty() || outs.is_empty() => (all(&ins), all(&outs)),
                2 | 5 => (all(&ins), one(&outs)),
                3 | 6 => (one(&ins), all(&outs)),
                4 | 7 => (one(&ins), one(&outs)),
                _ => (all(&ins), all(&outs)),
            };
            [(s.id(), i.iter().flat_map(|i| o.iter().map(move |o| (i.clone(), o.clone()))).collect())].into()
        }
        Kid::G(g) => g.edge_connections().unwrap_or_default(),
    }
}
impl Context for Comp {
    fn init(&mut self) {
        for k in &mut self.kids {
            kid!(k, x => x.init());
        }
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let errs = Sh::new(vec![]);
        dam::shim::scope(|s| {
            for k in &mut self.kids {
                let errs = errs.clone();
                dam::shim::spawn!(s, move || {
                    if let Err(e) = kid!(&mut *k, x => x.run_falliable()) {
                        errs.with(|v| v.push(e.to_string()));
                    }
                    kid!(k, x => x.cleanup());
                })
                .unwrap();
            }
        });
        match errs.get().first() {
            Some(e) => Err(anyhow::anyhow!("{e}")),
            None => Ok(()),
        }
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut m: HashMap<_, _> = [(self.verbose(), self.kids.iter().map(|k| kid!(k, x => x.verbose())).collect())].into();
        for k in &self.kids {
            m.extend(kid!(k, x => x.ids()));
        }
        m
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        (self.explicit > 0).then(|| self.kids.iter().flat_map(|k| conns(k, self.explicit)).collect())
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary { id: self.verbose(), time: self.view(), children: self.kids.iter().map(|k| kid!(k, x => x.summarize())).collect() }
    }
}
/// attaches the sending ends in the list that the contexts below `k` use
fn adopt(c: &Comp, k: &Kid, chs: &[usize]) {
    match k {
        Kid::S(s) => {
            for i in chs {
                if let Some(x) = &s.s.tx[*i] {
                    x.attach_sender(c);
                }
            }
        }
        Kid::G(g) => g.kids.iter().for_each(|k| adopt(c, k, chs)),
    }
}
pub fn grow(t: &T, ss: &mut Vec<Option<Script>>, ids: &mut [usize], explicit: u8) -> Kid {
    match t {
        T::C(i) => {
            let c = Scripted::new(ss[*i].take().unwrap());
            ids[*i] = ident(&c);
            Kid::S(c.into())
        }
        T::G(v) => {
            let kids = v.iter().map(|t| grow(t, ss, ids, explicit)).collect();
            Kid::G(Box::new(Comp::new(kids, explicit).into()))
        }
    }
}
pub fn run_tree(p: &Prog, ts: &[T], explicit: impl Into<u8>) -> Outcome {
    run_tree_adopting(p, ts, explicit.into(), &[])
}
/// The outermost composites attach the sending ends of the listed channels in the place of their members.
fn run_tree_adopting(p: &Prog, ts: &[T], explicit: u8, chs: &[usize]) -> Outcome {
    let mut pb = ProgramBuilder::default();
    let (mut tx, mut rx) = channels(p, &mut pb);
    let ss = scripts(p, &mut tx, &mut rx);
    let logs: Vec<Log> = ss.iter().map(|s| s.log.clone()).collect();
    let mut ss: Vec<Option<Script>> = ss.into_iter().map(Some).collect();
    let alone: Vec<usize> = ts.iter().filter_map(|t| if let T::C(i) = t { Some(*i) } else { None }).collect();
    for (i, s) in ss.iter_mut().enumerate().filter(|(i, _)| !alone.contains(i)) {
        let _ = i;
        s.as_mut().unwrap().foreign = chs.to_vec();
    }
    let mut ids = vec![0; ss.len()];
    for t in ts {
        match grow(t, &mut ss, &mut ids, explicit) {
            Kid::S(ProxyContext::Running(c)) => pb.add_child(c),
            Kid::G(g) => match *g {
                ProxyContext::Running(c) => {
                    c.kids.iter().for_each(|k| adopt(&c, k, chs));
                    pb.add_child(c)
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }
    finish(pb, p.infer, RunOptions::default(), logs, ids)
}
/// the ways to group `n` contexts
pub fn trees(n: usize) -> Vec<Vec<T>> {
    let c = |i| T::C(i);
    let mut v = vec![vec![T::G((0..n).map(c).collect())]];
    for i in 0..n {
        // one alone, the others together, in both orders
        let rest: Vec<T> = (0..n).filter(|j| *j != i).map(c).collect();
        v.push(vec![c(i), T::G(rest.clone())]);
        v.push(vec![T::G(rest.iter().rev().cloned().collect()), c(i)]);
        v.push(vec![T::G(vec![T::G(rest.clone()), c(i)])]);
        v.push([vec![T::G(vec![c(i)])], rest].concat());
    }
    if n == 4 {
        v.push(vec![T::G(vec![c(0), c(3)]), T::G(vec![c(1), c(2)])]);
        v.push(vec![T::G(vec![T::G(vec![c(0), c(3)]), T::G(vec![c(1), c(2)])])]);
    }
    v
}
fn tree_job(id: String, p: Prog, ts: Vec<T>, explicit: impl Into<u8>, det: bool, opt: Opt) -> Job {
    adopting_job(id, p, ts, explicit, det, opt, vec![])
}
fn adopting_job(id: String, p: Prog, ts: Vec<T>, explicit: impl Into<u8>, det: bool, opt: Opt, chs: Vec<usize>) -> Job {
    let explicit = explicit.into();
    Job::new(id, move |cx| {
        let (p2, t2, chs) = (p.clone(), ts.clone(), chs.clone());
        every_schedule(cx, opt, det, move || run_tree_adopting(&p2, &t2, explicit, &chs), |r| {
            finished(r, &mut |o| {
                oracle::check(&p, &o.logs)?;
                let mut o = o;
                if o.nodes != ts.len() {
                    return Err(format!("num_children is {} of {}", o.nodes, ts.len()));
                }
                o.nodes = p.ctxs.len();
                super::core::accounting(&p, &o)?;
                Ok(hash(&oracle::canon(&o.logs)))
            })
        })
    })
}
struct Bell(Sh<usize>);
impl Drop for Bell {
    fn drop(&mut self) {
        self.0.with(|x| *x += 1);
    }
}
#[context_macro]
struct Ringer {
    bell: Bell,
    n: u64,
}
impl Context for Ringer {
    fn run(&mut self) {
        assert_eq!(self.bell.0.get(), 0);
        self.time.incr_cycles(self.n);
    }
}
/// Composites that declare which of their inputs influence which outputs, under inference.
pub fn declared(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    for x in progs::shapes(if th { Tier::Thorough } else { Tier::Quick }) {
        if x.name.ends_with("rev") || x.stuck_peek() || x.p.ctxs.len() < 3 || (!th && !x.name.contains("b1,1,1")) {
            continue;
        }
        for (i, t) in trees(x.p.ctxs.len()).into_iter().enumerate() {
            let k = if th { 2 } else { 1 };
            for how in if th { vec![1, 2, 3, 4, 5, 6, 7] } else { vec![1, 4 + 3 * (i as u8 % 2)] } {
                out.push(tree_job(format!("{} declared {i}.{how} | {k} delays", x.name), x.p.clone().infer(true), t.clone(), how, x.det, delay(k).max(if th { 60_000 } else { 3_000 })).cost(x.cost));
            }
        }
    }
    for (j, x) in progs::voids(tier).into_iter().enumerate() {
        if x.stuck_peek() || x.p.ctxs.len() < 2 || (!th && j % 3 > 0) {
            continue;
        }
        for (i, t) in trees(x.p.ctxs.len()).into_iter().enumerate() {
            if th || i % 2 == j % 2 {
                let how = 1 + (i + j) as u8 % 7;
                out.push(tree_job(format!("{} declared {i}.{how} | 1 delays", x.name), x.p.clone().infer(true), t.clone(), how, x.det, delay(1).max(3_000)).cost(x.cost));
            }
        }
    }
    for x in progs::full_rings(if th { Tier::Thorough } else { Tier::Quick }) {
        let n = x.p.ctxs.len();
        if n > 5 {
            continue;
        }
        for (i, t) in trees(n).into_iter().enumerate() {
            for how in if x.name.starts_with("rings") && !th { vec![1 + i as u8 % 6, 7] } else { (1..8u8).collect() } {
                out.push(tree_job(format!("{} declared {i}.{how} | 1 delays", x.name), x.p.clone().infer(true), t.clone(), how, x.det, delay(1)).cost(x.cost));
            }
        }
    }
    out
}
pub fn c26(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    for x in progs::shapes(if th { Tier::Thorough } else { Tier::Quick }).into_iter().chain(progs::closing(Tier::Quick)) {
        if x.name.ends_with("rev") || (!th && !x.name.contains("b1,1,1") && !x.name.contains("u1")) {
            continue;
        }
        let n = x.p.ctxs.len();
        if n == 1 && !th {
            continue;
        }
        for (i, t) in trees(n).into_iter().enumerate() {
            for (infer, explicit) in [(false, false), (true, false), (true, true)] {
                if infer && x.stuck_peek() {
                    continue;
                }
                if !th && n > 2 && (i % 4 == 2 || (i % 4 == 1 && !explicit)) {
                    continue;
                }
                let mode = delay(2).max(if th { 60_000 } else { 3_000 });
                out.push(
                    tree_job(
                        format!("{} grouped {i}{}{} | {}", x.name, if infer { " infer" } else { "" }, if explicit { " explicit" } else { "" }, "2 delays"),
                        x.p.clone().infer(infer),
                        t.clone(),
                        explicit,
                        x.det,
                        mode,
                    )
                    .cost(x.cost),
                );
            }
        }
    }
    // many members, deep nesting; every single delay
    for x in progs::large_graphs(tier) {
        let n = x.p.ctxs.len();
        let cs = |v: &[usize]| v.iter().map(|i| T::C(*i)).collect::<Vec<T>>();
        let all: Vec<usize> = (0..n).collect();
        let nest = |v: &[usize]| v.iter().fold(None, |g: Option<T>, i| Some(T::G(g.into_iter().chain([T::C(*i)]).collect()))).unwrap();
        let mut inside_out = all.clone();
        inside_out.reverse();
        for (i, t) in [
            vec![T::G(cs(&all))],
            vec![nest(&all)],
            vec![nest(&inside_out)],
            all.chunks(3).map(|c| T::G(cs(c))).collect(),
            [vec![T::G(vec![T::G(cs(&all[1..n / 2])), T::G(cs(&all[n / 2..]))])], cs(&[0])].concat(),
        ]
        .into_iter()
        .enumerate()
        {
            for explicit in [false, true] {
                let infer = explicit && !x.stuck_peek();
                if explicit && !infer {
                    continue;
                }
                out.push(
                    tree_job(format!("{} grouped {i}{} | 1 delay", x.name, if infer { " declared, infer" } else { "" }), x.p.clone().infer(infer), t.clone(), explicit, x.det, delay(1)).cost(15),
                );
            }
        }
    }
    // a composite of many members that owns a sending end: the last of them is the slow one
    for slow in [1usize, 4, 6] {
        let k = 7;
        for c in [b(2, 1, 1), u(3)] {
            let mut ctxs: Vec<Vec<Op>> = (0..k).map(|i| if i == slow { vec![Op::Incr(3), Op::Incr(4), Op::Incr(8)] } else { vec![Op::Adv(70 + i as u64)] }).collect();
            ctxs[0] = vec![Op::Incr(2), e(0, 10), Op::Incr(20), e(0, 11)];
            ctxs.push(vec![Op::Incr(2), e(1, 20), Op::Incr(6), e(1, 21)]);
            ctxs.push(vec![Op::Next(0), Op::Arb(vec![0, 1], None, 1)]);
            let p = Prog::new(vec![c, c], ctxs);
            for rev in [false, true] {
                let mut m: Vec<T> = (0..k).map(T::C).collect();
                if rev {
                    m.reverse();
                }
                out.push(adopting_job(format!("a sender and {} bystanders, {slow} slow, {:?}{} | 1 delay", k - 1, c.cap, if rev { " rev" } else { "" }), p.clone(), vec![T::G(m), T::C(k), T::C(k + 1)], false, true, delay(1), vec![0]).cost(10));
            }
        }
    }
    out.push(Job::new("proxy", |cx| {
        cases(cx, |ta| {
            for n in [0u64, 1, 5, 77] {
                let r = once(move || {
                    let drops = Sh::new(0usize);
                    let d = drops.clone();
                    let f = Ringer { bell: Bell(d), n, context_info: Default::default() };
                    let (id, name) = (f.id(), f.name());
                    let mut p: ProxyContext<_> = f.into();
                    let v = p.view();
                    let mut bad = vec![];
                    let mut is = |ok: bool, what: &str| {
                        if !ok {
                            bad.push(what.to_string());
                        }
                    };
                    is(p.id() == id && p.name() == name, "a running context's identity");
                    is(p.verbose().id == id && p.ids().len() == 1, "a running context's identifiers");
                    p.run();
                    is(p.view().tick_lower_bound().time() == n, "a running context's clock");
                    is(drops.get() == 0, "dropped while running");
                    p.cleanup();
                    is(drops.get() == 1, "not dropped by cleaning");
                    is(matches!(p, ProxyContext::Cleaned(_)), "not cleaned");
                    for _ in 0..2 {
                        let s = p.summarize();
                        is(s.id.id == id && s.id.name == name && s.children.is_empty(), "the summary's identity");
                        is(s.max_time() == n, "the summary's time");
                        is(p.view().tick_lower_bound().time() == n, "the clock after cleaning");
                        p.cleanup();
                        is(drops.get() == 1, "dropped twice");
                    }
                    is(v.tick_lower_bound().is_infinite() && v.tick_lower_bound().time() == n, "an old view");
                    bad
                });
                ta.case(finished(r, &mut |b: Vec<String>| if b.is_empty() { Ok(n) } else { Err(format!("a proxy of a context of {n} cycles: {b:?}")) }));
            }
        })
    }));
    out.push(Job::new("proxy of a composite with a clock of its own", |cx| {
        cases(cx, |ta| {
            for shape in [&[1usize, 0][..], &[2, 0, 0], &[1, 1, 0], &[2, 1, 0, 0]] {
                for times in [[(3u64, 1u64), (7, 0), (0, 2), (5, 5)], [(9, 9), (1, 0), (4, 1), (2, 2)], [(0, 0), (1, 0), (4, 1), (12, 2)]] {
                    let r = once(move || {
                        let mut p: ProxyContext<Host> = Host::grow(&mut shape.iter(), &mut times[..shape.len()].iter()).into();
                        let (id, kids) = (p.id(), p.kids.iter().map(|k| k.id()).collect::<Vec<_>>());
                        let (own, all) = (times[0].0 + times[0].1, times[..shape.len()].iter().map(|t| t.0 + t.1).max().unwrap());
                        let mut bad = vec![];
                        p.init();
                        p.run();
                        if p.view().tick_lower_bound().time() != own || p.view().tick_lower_bound().is_infinite() {
                            bad.push(format!("before cleaning its clock is {:?}, not {own}", p.view().tick_lower_bound()));
                        }
                        p.cleanup();
                        let t = p.view().tick_lower_bound();
                        if t.time() != own || !t.is_infinite() {
                            bad.push(format!("its final clock is {t:?}, not {own}"));
                        }
                        let s = p.summarize();
                        if s.id.id != id || s.children.iter().map(|c| c.id.id).collect::<Vec<_>>() != kids || s.max_time() != all {
                            bad.push(format!("its summary names {:?} with {:?} and {}, not {id:?} with {kids:?} and {all}", s.id, s.children.iter().map(|c| c.id.id).collect::<Vec<_>>(), s.max_time()));
                        }
                        bad
                    });
                    let ok = finished(r, &mut |b: Vec<String>| if b.is_empty() { Ok(1) } else { Err(format!("{shape:?} {times:?}: {b:?}")) });
                    if !ta.case(ok) {
                        return;
                    }
                }
            }
        })
    }));
    // sending ends that belong to the composite itself, whose clock is the earliest of its members'
    let c = T::C;
    for (name, p, chs) in shared_ends() {
        let n = p.ctxs.len();
        let members: Vec<usize> = (0..n).filter(|i| *i < 2).collect();
        let m = |v: &[usize]| v.iter().map(|i| c(*i)).collect::<Vec<T>>();
        let rest = m(&(2..n).collect::<Vec<_>>());
        let groups = [
            [vec![T::G(m(&members))], rest.clone()].concat(),
            [rest.clone(), vec![T::G(vec![c(1), c(0)])]].concat(),
            [vec![T::G(vec![T::G(vec![c(0)]), c(1)])], rest.clone()].concat(),
        ];
        for (i, g) in groups.into_iter().enumerate() {
            for infer in [false, true] {
                let q = P { name: String::new(), p: p.clone(), det: true, tiny: false, cost: 1 };
                if infer && q.stuck_peek() {
                    continue;
                }
                out.push(
                    adopting_job(
                        format!("{name} {i}{} | 2 delays", if infer { " infer" } else { "" }),
                        p.clone().infer(infer),
                        g.clone(),
                        false,
                        true,
                        delay(2).max(if th { 200_000 } else { 5_000 }),
                        chs.clone(),
                    )
                    .cost(6),
                );
            }
        }
    }
    out
}
/// Programs whose first two contexts form a composite to which the senders of the listed channels are attached.
fn shared_ends() -> Vec<(String, Prog, Vec<usize>)> {
    let mut v = vec![];
    for c in [b(1, 1, 1), b(2, 2, 1), u(1), u(3)] {
        let n = format!("{:?},{}", c.cap, c.lat);
        let other = vec![Op::Incr(2), e(1, 20), Op::Incr(6), e(1, 21)];
        for (k, idle) in [vec![Op::Incr(9)], vec![Op::Incr(1), Op::Incr(1)], vec![Op::Adv(30), Op::Incr(1)]].into_iter().enumerate() {
            // one member sends, the other passes its time
            v.push((
                format!("a sender and a bystander {k} {n}"),
                Prog::new(vec![c, c], vec![vec![Op::Incr(4), e(0, 10), Op::Incr(3), e(0, 11)], idle.clone(), other.clone(), vec![Op::Arb(vec![0, 1], None, 1)]]),
                vec![0],
            ));
        }
        // both send to the same arbiter
        v.push((
            format!("two senders {n}"),
            Prog::new(vec![c, c], vec![vec![Op::Incr(4), e(0, 10), Op::Incr(3), e(0, 11)], other.clone(), vec![Op::Arb(vec![0, 1], None, 1)]]),
            vec![0, 1],
        ));
        v.push((
            format!("two senders, two peeks {n}"),
            Prog::new(vec![c, c], vec![vec![Op::Incr(4), e(0, 10)], vec![Op::Incr(7), e(1, 11)], vec![Op::Next(0), Op::Next(1), Op::Incr(5), Op::Next(1), Op::Next(0), Op::Deq(1), Op::Next(0), Op::Deq(0)]]),
            vec![0, 1],
        ));
    }
    v
}

// ---------------------------------------------------------------- C20

/// A context with a clock of its own that has others work for it.
#[context_macro]
struct Host {
    before: u64,
    after: u64,
    kids: Vec<ProxyContext<Host>>,
}
impl Host {
    /// `times` in the order of the tree; its shape: for each node the number of its children
    fn grow(shape: &mut std::slice::Iter<usize>, times: &mut std::slice::Iter<(u64, u64)>) -> Host {
        let (before, after) = *times.next().unwrap();
        let n = *shape.next().unwrap();
        Host { before, after, kids: (0..n).map(|_| Host::grow(shape, times).into()).collect(), context_info: Default::default() }
    }
}
impl Context for Host {
    fn init(&mut self) {
        self.kids.iter_mut().for_each(|k| k.init());
    }
    fn run(&mut self) {
        self.time.incr_cycles(self.before);
        dam::shim::scope(|s| {
            for k in &mut self.kids {
                dam::shim::spawn!(s, move || {
                    k.run();
                    k.cleanup();
                })
                .unwrap();
            }
        });
        self.time.incr_cycles(self.after);
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut m: HashMap<_, _> = [(self.verbose(), self.kids.iter().map(|k| k.verbose()).collect())].into();
        self.kids.iter().for_each(|k| m.extend(k.ids()));
        m
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary { id: self.verbose(), time: self.view(), children: self.kids.iter().map(|k| k.summarize()).collect() }
    }
}
fn hosts(shapes: &[&[usize]], times: &[(u64, u64)], beside: Option<u64>) -> Result<u64, String> {
    let r = once(|| {
        let mut pb = ProgramBuilder::default();
        let mut t = times.iter();
        for s in shapes {
            pb.add_child(Host::grow(&mut s.iter(), &mut t));
        }
        if let Some(n) = beside {
            pb.add_child(Ringer { bell: Bell(Sh::new(0)), n, context_info: Default::default() });
        }
        let n = pb.num_children();
        let e = pb.initialize(InitializationOptionsBuilder::default().build().unwrap()).unwrap().run(RunOptions::default());
        (n, e.elapsed_cycles(), e.passed())
    });
    let want = times.iter().map(|(a, b)| a + b).chain(beside).max();
    let n = shapes.len() + beside.is_some() as usize;
    finished(r, &mut |o| if o == (n, want, true) { Ok(hash(&o)) } else { Err(format!("{shapes:?} with clocks {times:?} and {beside:?} beside: (children, elapsed, passed) is {o:?}")) })
}
pub fn c20(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    // composites with clocks of their own
    let vals: &[(u64, u64)] = if th { &[(0, 0), (3, 0), (0, 3), (2, 2), (9, 1), (0, 70_000)] } else { &[(0, 0), (3, 1), (0, 9), (5, 0)] };
    let sh: &[&[&[usize]]] = &[&[&[0]], &[&[1, 0]], &[&[2, 0, 0]], &[&[1, 1, 0]], &[&[1, 0], &[0]], &[&[2, 1, 0, 0]], &[&[1, 0], &[1, 0]]];
    for shapes in sh {
        for beside in [None, Some(4u64)] {
            let (shapes, vals) = (*shapes, vals.to_vec());
            out.push(Job::new(format!("composites {shapes:?} with clocks of their own, beside {beside:?}"), move |cx| {
                cases(cx, |ta| {
                    let n: usize = shapes.iter().map(|s| s.len()).sum();
                    let k = vals.len();
                    for code in 0..k.pow(n as u32) {
                        let times: Vec<(u64, u64)> = (0..n).map(|i| vals[code / k.pow(i as u32) % k]).collect();
                        if !ta.case(hosts(shapes, &times, beside)) {
                            return;
                        }
                    }
                })
            }));
        }
    }
    // contexts that only spend time
    let clocks: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Incr(1)],
        vec![Op::Incr(7)],
        vec![Op::Adv(5)],
        vec![Op::Adv(5), Op::Adv(3), Op::Incr(1)],
        vec![Op::Incr(4_000_000_000_000)],
    ];
    let max = if th { 4 } else { 3 };
    for n in 0..=max {
        for style in [Style::Macro, Style::Func, Style::Fallible] {
            let clocks = clocks.clone();
            out.push(Job::new(format!("{n} clocks {style:?}"), move |cx| {
                cases(cx, |ta| {
                    let k = clocks.len();
                    for code in 0..k.pow(n as u32) {
                        let ctxs: Vec<Vec<Op>> = (0..n).map(|i| clocks[code / k.pow(i as u32) % k].clone()).collect();
                        let p = Prog::new(vec![], ctxs).style(style);
                        let p2 = p.clone();
                        let r = once(move || run_prog(&p2));
                        let ok = ta.case(finished(r, &mut |o| {
                            oracle::check(&p, &o.logs)?;
                            super::core::accounting(&p, &o)?;
                            Ok(hash(&o.elapsed))
                        }).map_err(|m| format!("{:?}: {m}", p.ctxs)));
                        if !ok {
                            return;
                        }
                    }
                })
            }));
        }
    }
    // in every order of finishing; every kind of failure among them
    for fail in [None, Some(Op::Panic), Some(Op::Fail)] {
        for at in 0..3usize {
            let style = if fail == Some(Op::Fail) { Style::Fallible } else { Style::Macro };
            let mut ctxs = vec![vec![Op::Incr(9)], vec![Op::Incr(4), Op::Incr(1)], vec![Op::Adv(7)]];
            if let Some(f) = &fail {
                ctxs[at].push(f.clone());
            }
            let p = Prog::new(vec![], ctxs).style(style);
            out.push(failure_job(format!("three clocks {fail:?} in {at} | all"), p, dpor().max(60_000)).cost(3));
            if fail.is_none() {
                break;
            }
        }
    }
    // many, and late
    for n in if th { vec![6usize, 12, 14] } else { vec![6, 12] } {
        for top in [0, 1, 4, n - 1] {
            for far in [200u64, 70_000, 5_000_000_000] {
                let ctxs: Vec<Vec<Op>> = (0..n).map(|i| vec![Op::Adv(if i == top { far + 3 } else { (far + 2) / (1 + i as u64 % 3) })]).collect();
                out.push(super::core::prog_job(format!("{n} clocks, {top} latest, {far} | 1 delay"), Prog::new(vec![], ctxs.clone()), true, delay(1)).cost(3));
                let deep = (0..n).fold(None, |g: Option<T>, i| Some(T::G(g.into_iter().chain([T::C(i)]).collect()))).unwrap();
                let t = if far == 200 { vec![deep] } else { vec![T::G((0..n / 2).map(T::C).collect()), T::G((n / 2..n).map(T::C).collect())] };
                out.push(tree_job(format!("{n} clocks in composites, {top} latest, {far} | 1 delay"), Prog::new(vec![], ctxs), t, false, true, delay(1)).cost(3));
            }
        }
    }
    // an element in the future does not count, the time of the context does
    for c in [b(1, 1, 1), u(3), void()] {
        let mut ctxs = vec![vec![progs::ef(0, 50, 1), Op::Incr(2)]];
        if !c.void {
            ctxs.push(vec![Op::PeekNext(0)]);
        }
        let p = Prog::new(vec![c], ctxs);
        out.push(super::core::prog_job(format!("element in the future {c:?} | 2 delays"), p, true, delay(2)));
    }
    // the children of composites count
    for (i, t) in trees(4).into_iter().enumerate() {
        for top in 0..4usize {
            let mut ctxs: Vec<Vec<Op>> = (0..4).map(|i| vec![Op::Incr(i + 1)]).collect();
            ctxs[top] = vec![Op::Incr(11)];
            out.push(tree_job(format!("composite {i}, slowest {top} | 2 delays"), Prog::new(vec![], ctxs), t.clone(), false, true, delay(2).max(20_000)).cost(2));
        }
    }
    // a longer program: elapsed is the largest local time, whoever reaches it
    for x in progs::shapes(Tier::Quick) {
        let k = if th { 3 } else { 2 };
        out.push(super::core::prog_job(format!("{} | {k} delays", x.name), x.p, x.det, delay(k)).cost(x.cost));
    }
    out
}

// ---------------------------------------------------------------- C24

pub fn c24(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    for (threads, each) in if th { vec![(2usize, 2usize), (3, 1), (3, 2), (2, 4), (4, 1)] } else { vec![(2, 2), (3, 1), (3, 2)] } {
        for weak in [false, true] {
            for chans in [false, true] {
                let opt = if weak { dpor().weak() } else { dpor() }.max(400_000);
                out.push(Job::new(format!("{threads} threads make {each} {} each{}", if chans { "channel ids" } else { "identifiers" }, if weak { ", weak" } else { "" }), move |cx| {
                    every_schedule(
                        cx,
                        opt,
                        false,
                        move || {
                            let got = Sh::new(vec![]);
                            dam::shim::scope(|s| {
                                for _ in 0..threads {
                                    let got = got.clone();
                                    dam::shim::spawn!(s, move || {
                                        for _ in 0..each {
                                            let x = if chans { format!("{}", ChannelID::new()) } else { format!("{}", Identifier::new()) };
                                            got.with(|g| g.push(x));
                                        }
                                    })
                                    .unwrap();
                                }
                            });
                            got.get()
                        },
                        |r| {
                            finished(r, &mut |v: Vec<String>| {
                                let n: HashSet<&String> = v.iter().collect();
                                if n.len() != threads * each {
                                    return Err(format!("not unique: {v:?}"));
                                }
                                Ok(0)
                            })
                        },
                    )
                }));
            }
        }
    }
    // two programs built at the same time
    for weak in [false, true] {
        let opt = if weak { dpor().weak() } else { dpor() }.max(200_000);
        out.push(Job::new(format!("programs built in parallel{}", if weak { ", weak" } else { "" }), move |cx| {
            every_schedule(
                cx,
                opt,
                false,
                || {
                    let got = Sh::new((vec![], vec![]));
                    dam::shim::scope(|s| {
                        for _ in 0..2 {
                            let got = got.clone();
                            dam::shim::spawn!(s, move || {
                                let mut pb = ProgramBuilder::default();
                                let (s, r) = pb.unbounded::<E>();
                                let v = pb.void::<E>();
                                let log = Sh::new(vec![]);
                                let n = Node { tx: vec![], rx: vec![], log, me: 0, context_info: Default::default() };
                                let g = Comp::new(vec![], false);
                                let same = s.id() == r.id();
                                got.with(|x| {
                                    x.0.extend([format!("{}", s.id()), format!("{}", v.id())]);
                                    x.1.extend([n.id(), g.id()]);
                                    if !same {
                                        x.0.push("two ends with different ids".into());
                                        x.0.push("two ends with different ids".into());
                                    }
                                });
                            })
                            .unwrap();
                        }
                    });
                    got.get()
                },
                |r| {
                    finished(r, &mut |(c, n): (Vec<String>, Vec<Identifier>)| {
                        if c.iter().collect::<HashSet<_>>().len() != 4 || n.iter().collect::<HashSet<_>>().len() != 4 {
                            return Err(format!("not unique: {c:?} {n:?}"));
                        }
                        Ok(0)
                    })
                },
            )
        }));
    }
    // and so many of them
    for chans in [false, true] {
        let n = if th { 300_000usize } else { 140_000 };
        out.push(Job::new(format!("{n} {}", if chans { "channel ids" } else { "identifiers" }), move |cx| {
            cases(cx, |ta| {
                let r = once_long(move || {
                    let mut seen = HashSet::new();
                    for i in 0..n {
                        let new = if chans { seen.insert(format!("{}", ChannelID::new())) } else { seen.insert(format!("{}", Identifier::new())) };
                        if !new {
                            return Some(i);
                        }
                    }
                    None
                });
                ta.case(finished(r, &mut |again| match again {
                    None => Ok(0),
                    Some(i) => Err(format!("number {i} is one that was given before")),
                }));
            })
        }));
    }
    // every component gets an identifier of its own
    out.push(Job::new("components", |cx| {
        cases(cx, |ta| {
            let r = once(|| {
                use dam::templates::{datastore::Behavior, pmu::PMU};
                use dam::utility_contexts::*;
                let mut pb = ProgramBuilder::default();
                let mut ids: Vec<Identifier> = vec![];
                let bh = Behavior { mod_address: true, use_default_value: true };
                for _ in 0..2 {
                    let pmu = PMU::<E, E, E>::new(2, bh);
                    ids.extend(Context::ids(&pmu).keys().map(|k| k.id));
                    #[cfg(not(dam_mc_plain))]
                    {
                        let d = dam::templates::dram::DRAM::<E, E, E>::new(dam::templates::dram::mc::config(1, 1, dam::structures::Time::new(1), 1), bh);
                        ids.push(d.id());
                    }
                    let mut f = || {
                        let (s, r) = pb.unbounded::<E>();
                        (s, r)
                    };
                    let (s, r) = f();
                    ids.push(GeneratorContext::new(|| 0..1usize, s).id());
                    ids.push(ConsumerContext::new(r).id());
                    let (s, r) = f();
                    ids.push(TraceContext::new(|| [(1usize, dam::structures::Time::new(1))].into_iter(), s).id());
                    ids.push(CheckerContext::new(|| 0..1usize, r).id());
                    let (_s, r) = f();
                    ids.push(BroadcastContext::new(r).id());
                    let (_s, r) = f();
                    ids.push(PrinterContext::new(r).id());
                    ids.push(FunctionContext::<fn(&mut dam::structures::TimeManager)>::default().id());
                }
                ids
            });
            ta.case(finished(r, &mut |v: Vec<Identifier>| {
                if v.iter().collect::<HashSet<_>>().len() != v.len() || v.len() != if cfg!(dam_mc_plain) { 20 } else { 22 } {
                    return Err(format!("not unique: {v:?}"));
                }
                Ok(0)
            }));
        })
    }));
    out
}
