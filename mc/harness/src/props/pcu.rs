//! The pattern compute unit: a pipeline of register operations behind channels.
use super::device::Dev;
use super::progs::{self, e, ef};
use super::store::seqs;
use crate::dsl::*;
use crate::job::*;
use crate::oracle::Ghost;
use dam::channel::{ChannelElement, Receiver, Sender};
use dam::context_tools::*;
use dam::structures::{Time, TimeManager};
use dam::templates::ops::*;
use dam::templates::pcu::*;
use dam::RegisterALUOp;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

RegisterALUOp!(AccOp, |(i0), (acc)| [i0 + acc], T: std::ops::Add<T, Output = T> + Copy);
RegisterALUOp!(SumProdOp, |(i0, i1), ()| [i0.clone() + i1.clone(), i0 * i1], T: std::ops::Add<T, Output = T> + std::ops::Mul<T, Output = T>);
RegisterALUOp!(SwapOp, |(i0), (a, b)| [b, i0, a], T: Copy);
RegisterALUOp!(MixOp, |(a, b, c, d), (w, x, y, z)| [a + z, b + y + y, c + x + x + x, d + w + w + w + w], T: std::ops::Add<T, Output = T> + Copy);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    Add,
    Sub,
    Mul,
    Div,
    /// prev[0] + next[0]
    Acc,
    /// sum and product of two
    Sp,
    /// (next[1], prev[0], next[0])
    Swap,
    /// four of each
    Mix,
}
impl O {
    fn op(self) -> ALUOp<E> {
        match self {
            O::Add => ALUAddOp(),
            O::Sub => ALUSubOp(),
            O::Mul => ALUMulOp(),
            O::Div => ALUDivOp(),
            O::Acc => AccOp(),
            O::Sp => SumProdOp(),
            O::Swap => SwapOp(),
            O::Mix => MixOp(),
        }
    }
    /// what the operation computes
    fn eval(self, p: &[u64], n: &[u64]) -> Vec<u64> {
        match self {
            O::Add => vec![p[0] + p[1]],
            O::Sub => vec![p[0] - p[1]],
            O::Mul => vec![p[0] * p[1]],
            O::Div => vec![p[0] / p[1]],
            O::Acc => vec![p[0] + n[0]],
            O::Sp => vec![p[0] + p[1], p[0] * p[1]],
            O::Swap => vec![n[1], p[0], n[0]],
            O::Mix => vec![p[0] + n[3], p[1] + 2 * n[2], p[2] + 3 * n[1], p[3] + 4 * n[0]],
        }
    }
    /// how many previous, next and output registers
    fn arity(self) -> (usize, usize, usize) {
        match self {
            O::Add | O::Sub | O::Mul | O::Div => (2, 0, 1),
            O::Acc => (1, 1, 1),
            O::Sp => (2, 0, 2),
            O::Swap => (1, 2, 3),
            O::Mix => (4, 4, 4),
        }
    }
    fn name(self) -> &'static str {
        match self {
            O::Add => "ALUAddOp",
            O::Sub => "ALUSubOp",
            O::Mul => "ALUMulOp",
            O::Div => "ALUDivOp",
            O::Acc => "AccOp",
            O::Sp => "SumProdOp",
            O::Swap => "SwapOp",
            O::Mix => "MixOp",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct St {
    op: O,
    fwd: Vec<(usize, usize)>,
    prev: Vec<usize>,
    next: Vec<usize>,
    out: Vec<usize>,
}
fn st(op: O, fwd: &[(usize, usize)], prev: &[usize], next: &[usize], out: &[usize]) -> St {
    St { op, fwd: fwd.to_vec(), prev: prev.to_vec(), next: next.to_vec(), out: out.to_vec() }
}
impl St {
    fn real(&self) -> PipelineStage<E> {
        PipelineStage {
            op: self.op.op(),
            forward: self.fwd.clone(),
            prev_register_ids: self.prev.clone(),
            next_register_ids: self.next.clone(),
            output_register_ids: self.out.clone(),
        }
    }
    fn eval(&self, prev: &[u64], next: &[u64]) -> Vec<u64> {
        let p: Vec<u64> = self.prev.iter().map(|i| prev[*i]).collect();
        let n: Vec<u64> = self.next.iter().map(|i| next[*i]).collect();
        let r = self.op.eval(&p, &n);
        (0..next.len())
            .map(|i| {
                if let Some((s, _)) = self.fwd.iter().find(|f| f.1 == i) {
                    prev[*s]
                } else if let Some(k) = self.out.iter().position(|o| *o == i) {
                    r[k]
                } else {
                    next[i]
                }
            })
            .collect()
    }
}

fn regs(v: &[u64]) -> Vec<PipelineRegister<E>> {
    v.iter().map(|x| PipelineRegister { data: *x as E }).collect()
}
fn perms(n: usize, k: usize) -> Vec<Vec<usize>> {
    let all: Vec<usize> = (0..n).collect();
    seqs(&all, k).into_iter().filter(|v| (0..v.len()).all(|i| !v[..i].contains(&v[i]))).collect()
}

/// Every stage over `n` registers.
fn stages(cx: &Ctx, n: usize) -> crate::job::Outcome {
    let all: Vec<usize> = (0..n).collect();
    cases(cx, |c| {
        let pv: Vec<u64> = [60, 12, 5, 3][..n].to_vec();
        let nv: Vec<u64> = [1000, 2000, 3000, 4000][..n].to_vec();
        // of operations with many registers, the rotations
        let choose = |k: usize| -> Vec<Vec<usize>> {
            if k <= 2 {
                seqs(&all, k)
            } else {
                (0..n).map(|s| (0..k).map(|i| (s + i) % n).collect()).collect()
            }
        };
        for op in [O::Add, O::Sub, O::Mul, O::Div, O::Acc, O::Sp, O::Swap, O::Mix] {
            let (a, b, o) = op.arity();
            for prev in choose(a) {
                for next in choose(b) {
                    for outk in 0..=o {
                        for out in perms(n, outk) {
                            for fk in 0..=2 {
                                for fd in perms(n, fk) {
                                    for fs in seqs(&all, fk) {
                                        if op == O::Sub && pv[prev[0]] < pv[prev[1]] {
                                            continue;
                                        }
                                        let s = st(op, &fs.iter().copied().zip(fd.iter().copied()).collect::<Vec<_>>(), &prev, &next, &out);
                                        let want = s.eval(&pv, &nv);
                                        let r = s.real();
                                        let got = catch_unwind(AssertUnwindSafe(|| r.run(&regs(&pv), &regs(&nv)))).ok();
                                        let got: Option<Vec<u64>> = got.map(|v| v.iter().map(|x| x.data as u64).collect());
                                        let ok = got.as_ref() == Some(&want) && r.op.name == op.name();
                                        if !c.case(if ok { Ok(hash(&want)) } else { Err(format!("{s:?} on {pv:?} {nv:?} gives {got:?}, expected {want:?}")) }) {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Io {
    Lib,
    /// an ingress that reads its inputs one after the other until each is closed, an egress that writes odd results only
    Own,
}
type Chans = (Vec<Receiver<E>>, Vec<Sender<E>>);

fn own_in(r: &Vec<Receiver<E>>, g: &mut Vec<PipelineRegister<E>>, t: &TimeManager) -> bool {
    for x in r {
        if let Ok(v) = x.dequeue(t) {
            g[0].data = v.data;
            return true;
        }
    }
    false
}
fn own_out(s: &Vec<Sender<E>>, g: &Vec<PipelineRegister<E>>, at: Time, t: &TimeManager) {
    if g[0].data % 2 == 1 {
        s[0].enqueue(t, ChannelElement::new(at, g[0].data)).unwrap();
    }
}

fn pcu(chans: Vec<Ch>, ins: usize, depth: usize, nregs: usize, stg: Vec<St>, io: Io, feeds: Vec<Vec<Op>>, sinks: Vec<Vec<Op>>) -> Dev {
    let outs = chans.len() - ins;
    let voids: Vec<bool> = chans.iter().map(|c| c.void).collect();
    let mut ctxs = feeds;
    ctxs.extend(sinks);
    let mut g: Vec<Op> = (0..ins).map(Op::Deq).collect();
    g.extend((0..outs).map(|j| e(ins + j, 0)));
    let st2 = stg.clone();
    Dev {
        p: Prog::new(chans, ctxs),
        ghosts: vec![g],
        make: Rc::new(move |pb, tx, rx| {
            let (i, o) = match io {
                Io::Lib => (PCU::<E>::READ_ALL_INPUTS, PCU::<E>::WRITE_ALL_RESULTS),
                Io::Own => (own_in as _, own_out as _),
            };
            let mut p = PCU::<E>::new(PCUConfig { pipeline_depth: depth, num_registers: nregs }, i, o);
            for s in &stg {
                p.push_stage(s.real());
            }
            let c: Chans = ((0..ins).map(|i| rx[i].take().unwrap()).collect(), (ins..ins + outs).map(|j| tx[j].take().unwrap()).collect());
            for x in c.0 {
                p.add_input_channel(x);
            }
            for x in c.1 {
                p.add_output_channel(x);
            }
            pb.add_child(p);
        }),
        model: Rc::new(move |p, vs| {
            let mut g = Ghost::new(p, vs);
            let mut regs = vec![vec![0u64; nregs]; depth + 1];
            'run: loop {
                match io {
                    Io::Lib => {
                        for i in 0..ins {
                            g.peek_next(i);
                        }
                        let got: Vec<_> = (0..ins).map(|i| g.deq(i)).collect();
                        for (i, v) in got.into_iter().enumerate() {
                            match v {
                                Some((_, v)) => regs[0][i] = v,
                                None => break 'run,
                            }
                        }
                    }
                    Io::Own => {
                        let mut got = None;
                        for i in 0..ins {
                            got = g.deq(i);
                            if got.is_some() {
                                break;
                            }
                        }
                        match got {
                            Some((_, v)) => regs[0][0] = v,
                            None => break 'run,
                        }
                    }
                }
                for k in 0..depth {
                    regs[k + 1] = match st2.get(k) {
                        Some(s) => s.eval(&regs[k], &regs[k + 1]),
                        None => regs[k].clone(),
                    };
                }
                let at = g.now + depth as u64;
                let last = &regs[depth];
                for j in 0..outs {
                    if voids[ins + j] || (io == Io::Own && last[0] % 2 == 0) {
                        continue;
                    }
                    g.enq_at(ins + j, at, last[j]);
                    if io == Io::Own {
                        break;
                    }
                }
                g.incr(1);
            }
            Ok(vec![g.end()?])
        }),
        det: true,
    }
}

fn cs(c: &Ch) -> String {
    match c.cap {
        _ if c.void => "void".into(),
        Some(n) => format!("b{n},{},{}", c.lat, c.resp),
        None => format!("u{}", c.lat),
    }
}

/// Pipelines: name, depth, registers, stages
fn pipes() -> Vec<(&'static str, usize, usize, Vec<St>)> {
    vec![
        ("nothing", 0, 3, vec![]),
        ("no-ops", 2, 3, vec![]),
        ("add", 1, 3, vec![st(O::Add, &[(1, 1)], &[0, 1], &[], &[0])]),
        ("multiply-add", 3, 3, vec![st(O::Mul, &[(1, 1)], &[0, 1], &[], &[0]), st(O::Add, &[(0, 1)], &[0, 1], &[], &[0])]),
        ("scan", 1, 3, vec![st(O::Acc, &[(0, 1)], &[0], &[0], &[0])]),
        ("scan of a scan", 2, 3, vec![st(O::Acc, &[(1, 1)], &[0], &[2], &[2]), st(O::Acc, &[(2, 1)], &[2], &[0], &[0])]),
        ("delay line", 3, 3, vec![st(O::Swap, &[], &[0], &[0, 1], &[2, 1, 0])]),
        ("two results", 2, 3, vec![st(O::Sp, &[(0, 2)], &[0, 1], &[], &[1, 0])]),
    ]
}

pub fn c15(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    for n in 2..=(if th { 4 } else { 3 }) {
        out.push(Job::new(format!("every stage over {n} registers"), move |cx| stages(cx, n)).cost(5));
    }
    out.push(Job::new("stages beyond the depth are refused", |cx| {
        cases(cx, |c| {
            for depth in 0..4usize {
                for k in 0..6usize {
                    let mut p = PCU::<E>::new(PCUConfig { pipeline_depth: depth, num_registers: 2 }, PCU::<E>::READ_ALL_INPUTS, PCU::<E>::WRITE_ALL_RESULTS);
                    let mut n = 0;
                    for _ in 0..k {
                        if catch_unwind(AssertUnwindSafe(|| p.push_stage(st(O::Add, &[], &[0, 1], &[], &[0]).real()))).is_ok() {
                            n += 1;
                        } else {
                            break;
                        }
                    }
                    if !c.case(if n == k.min(depth) { Ok(n as u64) } else { Err(format!("{n} of {k} stages accepted with depth {depth}")) }) {
                        return;
                    }
                }
            }
        })
    }));
    let k = if th { 3 } else { 2 };
    let mut add = |id: String, d: Dev, n: u16| {
        out.push(d.job(format!("{id} | {n} delays"), delay(n).max(if th { 400_000 } else { 30_000 })));
        out.push(d.infer().job(format!("{id} infer | {n} delays"), delay(n).max(if th { 400_000 } else { 30_000 })));
    };
    // every pipeline with one input (other registers stay at their defaults) and one output
    for (name, depth, nr, s) in pipes() {
        for (i, o) in [(b(1, 1, 1), b(1, 1, 1)), (u(2), b(2, 3, 2)), (b(2, 1, 1), u(1)), (b(1, 1, 1), b(1, 1, 4))] {
            for pat in ["burst", "paced", "mixed"] {
                if !th && (pat == "mixed") != (o.cap == Some(1) && o.resp == 1) {
                    continue;
                }
                let d = pcu(vec![i, o], 1, depth, nr, s.clone(), Io::Lib, vec![progs::sender(0, 3, pat)], vec![vec![Op::Drain(1, if pat == "burst" { 3 } else { 0 })]]);
                add(format!("{name} {} -> {} {pat}", cs(&i), cs(&o)), d, k);
            }
        }
        // two inputs arriving at different times and of different length; two outputs
        for (la, lb) in [(2, 2), (3, 1), (1, 2), (0, 1)] {
            let late: Vec<Op> = [vec![Op::Incr(4)], (0..lb).map(|i| if i % 2 == 0 { e(1, 3 + i) } else { ef(1, 5, 3 + i) }).collect()].concat();
            let early: Vec<Op> = [(0..la).map(|i| e(0, 10 + i)).collect(), vec![Op::DropTx(0)]].concat();
            if th || name != "no-ops" {
                let mut d = pcu(vec![b(1, 1, 1), b(1, 2, 1), u(1)], 2, depth, nr, s.clone(), Io::Lib, vec![early.clone(), late.clone()], vec![vec![Op::Drain(2, 0)]]);
                // whether a surplus element is still accepted depends on when the unit leaves
                d.det = la == lb;
                add(format!("{name} two inputs of {la} and {lb}"), d, 2);
            }
            if th || (la, lb) == (2, 2) {
                let mut d = pcu(vec![b(3, 1, 1), b(1, 2, 1), b(1, 1, 1), b(2, 2, 3)], 2, depth, nr, s.clone(), Io::Lib, vec![[early, late].concat()], vec![vec![Op::Drain(2, 0)], vec![Op::Drain(3, 6)]]);
                d.det = la == lb;
                add(format!("{name} two outputs of {la} and {lb}"), d, 2);
            }
        }
        let d = pcu(vec![u(1), void(), u(2)], 1, depth, nr, s.clone(), Io::Lib, vec![progs::sender(0, 2, "burst")], vec![vec![Op::Drain(2, 0)]]);
        add(format!("{name} to a void"), d, k);
        let d = pcu(vec![b(1, 1, 1)], 1, depth, nr, s.clone(), Io::Lib, vec![progs::sender(0, 2, "burst")], vec![]);
        add(format!("{name} without output"), d, k);
        let d = pcu(vec![b(1, 1, 1), u(2), b(1, 1, 2)], 2, depth, nr, s.clone(), Io::Own, vec![progs::sender(0, 3, "burst"), progs::sender(1, 2, "paced")], vec![vec![Op::Drain(2, 2)]]);
        add(format!("{name} with its own ingress and egress"), d, 2);
    }
    // deep pipelines, many registers, long streams, long latencies; every single delay
    for depth in if th { vec![5usize, 9, 17, 40] } else { vec![5, 12] } {
        let nr = depth.min(9).max(3);
        // every stage different: sums with the neighbour, scans, copies; each register moves on
        let deep: Vec<St> = (0..depth)
            .map(|k| {
                let a = k % nr;
                let c = (k + 1) % nr;
                let f = [((k + 2) % nr, (k + 2) % nr)];
                match k % 4 {
                    0 => st(O::Add, &f, &[a, c], &[], &[c]),
                    1 => st(O::Acc, &f, &[a], &[c], &[c]),
                    2 => st(O::Sub, &f, &[a, (k + 2) % nr], &[], &[a]),
                    _ => st(O::Swap, &f, &[a], &[a, c], &[c, a, (k + 3) % nr]),
                }
            })
            .filter(|s| s.op != O::Sub)
            .collect();
        // every stage shows in both results
        let shown: Vec<St> = (0..depth)
            .map(|k| match k % 3 {
                0 => st(O::Add, &[(1, 1)], &[0, 1], &[], &[0]),
                1 => st(O::Acc, &[(0, 0)], &[0], &[1], &[1]),
                _ => st(O::Swap, &[], &[0], &[1, 1], &[1, 0]),
            })
            .collect();
        for (i, o) in [(b(1, 1, 1), b(1, 1, 1)), (u(2), b(12, 70, 3))] {
            for used in 1..=depth {
                if !th && used > 5 && used < 8 || used > 12 && used < depth {
                    continue;
                }
                let feed = progs::sender(0, 4, "mixed");
                let d = pcu(vec![i, o, u(1)], 1, depth, 2, shown[..used].to_vec(), Io::Lib, vec![feed], vec![vec![Op::Drain(1, 2)], vec![Op::Drain(2, 0)]]);
                add(format!("{used} of {depth} stages shown {} -> {}", cs(&i), cs(&o)), d, 1);
            }
        }
        for (i, o) in [(b(1, 1, 1), b(1, 1, 1)), (u(300), b(12, 70_000, 3)), (b(20, 2, 1), u(1))] {
            for used in [deep.len(), deep.len() / 2] {
                let feed = progs::sender(0, if th { 40 } else { 18 }, "mixed");
                let d = pcu(vec![i, o, u(1)], 1, depth, nr, deep[..used].to_vec(), Io::Lib, vec![feed], vec![vec![Op::Drain(1, 2)], vec![Op::Drain(2, 0)]]);
                add(format!("{used} of {depth} stages, {nr} registers {} -> {}", cs(&i), cs(&o)), d, 1);
            }
        }
    }
    // many inputs and outputs
    {
        let n = if th { 8 } else { 6 };
        let sum: Vec<St> = (0..n - 1).map(|k| st(O::Add, &(0..n).filter(|j| *j != 0).map(|j| (j, j)).collect::<Vec<_>>(), &[0, k + 1], &[], &[0])).collect();
        for c in [b(1, 1, 1), u(2)] {
            let feeds = (0..n).map(|i| [vec![Op::Incr(((i * 5) % n) as u64)], progs::sender(i, 3, if i % 2 == 0 { "paced" } else { "burst" })].concat()).collect();
            let sinks = (0..n).map(|i| vec![Op::Drain(n + i, if i == 3 { 9 } else { 0 })]).collect();
            let d = pcu(vec![c; 2 * n], n, n, n, sum.clone(), Io::Lib, feeds, sinks);
            add(format!("{n} inputs and outputs {}", cs(&c)), d, 1);
        }
    }
    // a loop through the unit: results come back as the second operand
    for (o, back) in [(u(1), u(1)), (b(2, 1, 1), b(1, 2, 1))] {
        let s = vec![st(O::Add, &[(0, 1)], &[0, 1], &[], &[0])];
        // channels: 0 operands, 1 feedback, 2 result, 3 result copy
        let d = pcu(vec![b(1, 1, 1), back, o], 2, 2, 2, s, Io::Lib, vec![progs::sender(0, 3, "burst"), vec![e(1, 5), Op::Deq(2), ea(1), Op::Deq(2), ea(1), Op::Deq(2)]], vec![]);
        add(format!("feedback {} {}", cs(&o), cs(&back)), d, k);
    }
    out
}
fn ea(ch: usize) -> Op {
    Op::Enq(ch, 0, V::Acc)
}
