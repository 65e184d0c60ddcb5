//! Channel programs.
use super::progs::{self, P};
use crate::dsl::*;
use crate::job::*;
use crate::oracle;
type Outcome = crate::dsl::Outcome;

/// Every schedule of a program: it finishes, obeys the timing rules and always has the same outcome.
pub fn prog_job(id: impl Into<String>, p: Prog, det: bool, opt: Opt) -> Job {
    Job::new(id, move |cx| {
        assert!(oracle::finishes(&p), "{}: the program itself deadlocks", cx.id);
        let p2 = p.clone();
        every_schedule(
            cx,
            opt,
            det,
            move || run_prog(&p2),
            |r| {
                finished(r, &mut |o| {
                    oracle::check(&p, &o.logs)?;
                    accounting(&p, &o)?;
                    Ok(hash(&oracle::canon(&o.logs)))
                })
            },
        )
    })
}
/// elapsed = the largest local time of any context; no failures
pub fn accounting(p: &Prog, o: &Outcome) -> Result<(), String> {
    if let Some(e) = &o.init_error {
        return Err(format!("initialization failed: {e}"));
    }
    if !o.passed || !o.failures.is_empty() {
        return Err(format!("failures reported for a correct program: {:?}", o.failures));
    }
    if o.nodes != p.ctxs.len() {
        return Err(format!("num_children is {} of {}", o.nodes, p.ctxs.len()));
    }
    let want = o.logs.iter().map(|l| l.last().map(|e| e.after).unwrap_or(0)).max();
    if o.elapsed != want {
        return Err(format!("elapsed_cycles is {:?}, the largest local time is {want:?}", o.elapsed));
    }
    Ok(())
}

/// delay-bounded exploration of everything, full partial-order reduction of the tiny ones
pub fn jobs_of(v: Vec<P>, tier: Tier) -> Vec<Job> {
    let mut out = vec![];
    let th = tier == Tier::Thorough;
    for x in v {
        let max = if th { 500_000 } else { 60_000 };
        if x.tiny || th {
            let n = format!("{} | all", x.name);
            out.push(prog_job(n, x.p.clone(), x.det, dpor().max(max)).cost(if x.tiny { 1 } else { x.cost + 20 }));
        }
        out.push(prog_job(format!("{} | 2 delays", x.name), x.p.clone(), x.det, delay(2)).cost(x.cost));
        if th {
            out.push(prog_job(format!("{} | 3 delays", x.name), x.p, x.det, delay(3).max(max)).cost(x.cost + 10));
        }
    }
    out
}

/// large programs: every single delay
pub fn large_jobs(v: Vec<P>, infer: bool) -> Vec<Job> {
    let i = v
        .iter()
        .filter(|x| infer && !x.stuck_peek() && (0..x.p.chans.len()).all(|c| x.p.chans[c].void || !x.cyclic(c)))
        .map(|x| x.inferred())
        .collect::<Vec<_>>();
    v.into_iter()
        .chain(i)
        .map(|x| prog_job(format!("{} | 1 delay", x.name), x.p, x.det, delay(1).max(60_000)).cost(x.cost))
        .collect()
}

/// programs too large for more than the default schedule
pub fn huge_jobs(v: Vec<P>) -> Vec<Job> {
    let mut out = vec![];
    for x in v {
        let n = x.p.ctxs.iter().map(|c| c.len()).sum::<usize>();
        // several times what they take
        let steps = 1_000_000 + 300 * n;
        if !x.stuck_peek() {
            let y = x.inferred();
            out.push(prog_job(format!("{} | 0 delays", y.name), y.p, y.det, delay(0).steps(steps)).cost(6));
        }
        let small = n < 700;
        out.push(prog_job(format!("{} | 0 delays", x.name), x.p.clone(), x.det, delay(0).steps(steps)).cost(6));
        if small {
            out.push(prog_job(format!("{} | 1 delay", x.name), x.p, x.det, delay(1).max(1_000)).cost(6));
        }
    }
    out
}

pub fn c02(tier: Tier) -> Vec<Job> {
    let mut v = progs::pc(tier);
    v.extend(progs::shapes(Tier::Thorough));
    let mut j = both(v, tier);
    j.extend(large_jobs(progs::voids(tier), true));
    j.extend(large_jobs(progs::large(tier), true));
    j.extend(huge_jobs(progs::huge(tier)));
    j
}
pub fn c03(tier: Tier) -> Vec<Job> {
    let mut j = both(progs::pressure(Tier::Thorough), tier);
    j.extend(large_jobs(progs::large_streams(tier), true));
    j.extend(large_jobs(progs::large_times(tier), true));
    j.extend(large_jobs(progs::large_pressure(tier), true));
    j.extend(huge_jobs(progs::huge(tier)));
    j
}
pub fn c05(tier: Tier) -> Vec<Job> {
    let mut j = both(progs::peeking(Tier::Thorough), tier);
    j.extend(large_jobs(progs::large_times(tier), true));
    j.extend(large_jobs(progs::large_graphs(tier), true));
    let mut f = progs::full_rings(tier);
    f.extend(progs::self_loops(tier));
    j.extend(large_jobs(f.iter().map(|x| x.inferred()).collect(), false));
    j.extend(large_jobs(f, false));
    j.extend(large_jobs(progs::large_streams(tier).into_iter().filter(|x| x.name.contains("peeky")).collect(), true));
    j
}
pub fn c06(tier: Tier) -> Vec<Job> {
    let mut j = both(progs::closing(Tier::Thorough), tier);
    j.extend(large_jobs(progs::large_closing(tier), true));
    j.extend(huge_jobs(progs::huge(tier).into_iter().filter(|x| x.name.contains("stream")).collect()));
    j
}

/// with and without flavor inference
fn both(v: Vec<P>, tier: Tier) -> Vec<Job> {
    let i = v.iter().filter(|x| !x.stuck_peek() && (0..x.p.chans.len()).all(|c| !x.cyclic(c))).map(|x| x.inferred()).collect::<Vec<_>>();
    jobs_of(v.into_iter().chain(i).collect(), tier)
}

/// The same programs under flavor inference.
pub fn c08(tier: Tier) -> Vec<Job> {
    let mut v = progs::pc(tier);
    v.extend(progs::shapes(Tier::Thorough));
    v.extend(progs::pressure(Tier::Thorough));
    v.extend(progs::peeking(Tier::Thorough));
    v.extend(progs::closing(Tier::Thorough));
    let v = v
        .into_iter()
        .filter(|x| !x.stuck_peek())
        .map(|x| {
            let acyclic = (0..x.p.chans.len()).all(|c| !x.cyclic(c));
            let x = x.inferred();
            if acyclic {
                x.tiny()
            } else {
                x
            }
        })
        .collect();
    let mut j = jobs_of(v, tier);
    j.extend(super::run::declared(tier));
    let mut l = progs::large(tier);
    l.extend(progs::large_pressure(tier));
    l.extend(progs::large_closing(tier));
    l.extend(progs::full_rings(tier));
    l.extend(progs::self_loops(tier));
    let l = l.into_iter().filter(|x| !x.stuck_peek()).map(|x| x.inferred()).collect();
    j.extend(large_jobs(l, false));
    for x in progs::late_comers().into_iter().filter(|x| !x.stuck_peek()) {
        j.push(prog_job(format!("{} infer | 0 delays", x.name), x.p.infer(true), x.det, delay(0)));
    }
    j.push(prog_job("finding: peek at a full acyclic channel", progs::stuck_peek(), true, dpor()));
    j
}

fn delays(v: Vec<P>, k: u16, infer: bool) -> Vec<Job> {
    v.into_iter()
        .filter(|x| x.connected() && oracle::finishes(&x.p))
        .flat_map(|x| if infer && !x.stuck_peek() { vec![x.inferred(), x] } else { vec![x] })
        .map(|x| prog_job(format!("{} | {k} delays", x.name), x.p, x.det, delay(k)).cost(0))
        .collect()
}
/// Same program, same result: all small programs, the shapes in every style and order.
pub fn c01(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut j = vec![];
    for x in progs::shapes(Tier::Thorough) {
        if !x.det || x.name.ends_with("rev") {
            continue;
        }
        let heavy = x.cost >= 8 && !th;
        if !heavy || x.name.contains("b1,1,1") {
            for s in [Style::Func, Style::Fallible] {
                let y = x.styled(s);
                j.push(prog_job(format!("{} | 2 delays", y.name), y.p, true, delay(2)).cost(x.cost));
            }
        }
        if th {
            j.push(prog_job(format!("{} | 3 delays", x.name), x.p.clone(), true, delay(3).max(600_000)).cost(x.cost + 20));
            if !x.stuck_peek() {
                let y = x.inferred();
                j.push(prog_job(format!("{} | 3 delays", y.name), y.p, true, delay(3).max(600_000)).cost(x.cost + 20));
            }
        }
    }
    if th {
        j.extend(delays(progs::all_pairs(3, 3, &[b(1, 1, 1), b(2, 2, 1), u(2)]), 1, true));
        j.extend(delays(progs::all_pairs(2, 3, &[b(1, 1, 1), b(1, 2, 3), u(2)]), 2, true));
        j.extend(delays(progs::all_crossing(3, &[b(1, 1, 1), u(2)]), 2, false));
    } else {
        j.extend(delays(progs::all_pairs(2, 3, &[b(1, 1, 1), b(1, 2, 3)]), 2, true));
        j.extend(delays(progs::all_pairs(2, 3, &[u(2)]), 1, true));
        j.extend(delays(progs::all_pairs(3, 2, &[b(1, 1, 1)]), 1, true));
    }
    for (s, name) in [(Style::Func, "streams"), (Style::Fallible, "graphs"), (Style::Func, "graphs")] {
        let v = if name == "graphs" { progs::large_graphs(tier) } else { progs::large_streams(tier) };
        j.extend(large_jobs(v.into_iter().map(|x| x.styled(s)).collect(), true));
    }
    // what is recorded rather than demanded
    j.push(Job::new("finding: clock after the end of the stream", |cx| {
        let p = progs::after_the_end();
        let p2 = p.clone();
        every_schedule(cx, delay(2), true, move || run_prog(&p2), |r| {
            finished(r, &mut |o| {
                oracle::check(&p, &o.logs)?;
                Ok(hash(&o))
            })
        })
    }));
    j
}
/// Programs that can finish do.
pub fn c04(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut j = vec![];
    if th {
        j.extend(delays(progs::all_crossing(4, &[b(1, 1, 1)]), 1, true));
        j.extend(delays(progs::all_crossing(3, &[b(1, 1, 1), b(2, 3, 1), b(1, 2, 4), u(1)]), 2, true));
        j.extend(delays(progs::all_double(4, &[b(1, 1, 1)]), 1, true));
        j.extend(delays(progs::tight(&[b(1, 1, 1), b(1, 2, 1), b(1, 1, 2), b(1, 3, 2)], &[1, 2, 3, 4]), 2, true));
        j.extend(delays(progs::all_meeting(4, &[b(1, 1, 1), b(1, 3, 2), u(1)], Op::Next(0)), 1, true));
        j.extend(delays(progs::all_meeting(3, &[b(1, 1, 1), b(1, 2, 1), b(2, 1, 2), u(1), u(3)], Op::Peek(0)), 2, true));
        j.extend(delays(progs::all_double(3, &[b(1, 1, 1), b(1, 2, 3), u(1)]), 2, true));
        for x in progs::shapes(tier).into_iter().chain(progs::closing(tier)) {
            j.push(prog_job(format!("{} | 2 delays, weak", x.name), x.p.clone(), x.det, delay(2).weak().max(400_000)).cost(x.cost + 5));
            j.push(prog_job(format!("{} | 2 delays, spurious", x.name), x.p, x.det, delay(2).spurious(2).max(400_000)).cost(x.cost + 5));
        }
    } else {
        j.extend(delays(progs::all_crossing(3, &[b(1, 1, 1)]), 2, true));
        j.extend(delays(progs::all_double(3, &[b(1, 1, 1)]), 2, true));
        j.extend(delays(progs::tight(&[b(1, 1, 1)], &[1, 2]), 1, true));
        j.extend(delays(progs::all_meeting(3, &[b(1, 1, 1)], Op::Next(0)), 2, true));
        for x in progs::closing(tier).into_iter().chain(progs::shapes(tier)) {
            j.push(prog_job(format!("{} | 1 delay, spurious", x.name), x.p.clone(), x.det, delay(1).spurious(1)).cost(x.cost + 5));
            if x.cost < 6 {
                j.push(prog_job(format!("{} | 1 delay, weak", x.name), x.p.clone(), x.det, delay(1).weak()).cost(x.cost + 5));
            }
        }
    }
    for v in [progs::large_graphs(tier), progs::large_streams(tier), progs::large_pressure(tier), progs::large_closing(tier), progs::full_rings(tier)] {
        j.extend(large_jobs(v, true));
    }
    j.extend(large_jobs(progs::full_rings(tier).iter().map(|x| x.inferred()).collect(), false));
    j.extend(huge_jobs(progs::huge(tier)));
    for x in progs::late_comers().into_iter().filter(|x| !x.stuck_peek()) {
        j.push(prog_job(format!("{} infer | 0 delays", x.name), x.p.infer(true), x.det, delay(0)));
    }
    j.push(prog_job("finding: peek at a full acyclic channel", progs::stuck_peek(), true, dpor()));
    j
}
