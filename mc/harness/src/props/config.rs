//! The same programs under every way of building and running the simulator.
use super::progs;
use crate::dsl::*;
use crate::job::*;
use crate::oracle;
use dam::simulation::{RunMode, RunOptions, RunOptionsBuilder};

fn modes() -> Vec<(&'static str, RunMode)> {
    #[cfg(feature = "os")]
    let v = vec![("", RunMode::Simple), ("fifo", RunMode::FIFO)];
    #[cfg(not(feature = "os"))]
    let v = vec![("", RunMode::Simple), ("one worker", RunMode::Constrained(1)), ("three workers", RunMode::Constrained(3))];
    v
}
fn opts(m: RunMode) -> RunOptions {
    RunOptionsBuilder::default().mode(m).build().unwrap()
}
pub fn c22(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    let mut v = progs::shapes(Tier::Thorough);
    v.extend(progs::closing(tier));
    v.extend(progs::pressure(tier));
    v.extend(progs::peeking(tier));
    let large = |s: &str| ["n70 b9,1,1 burst drain3", "n70 b17", "many times full b4", "watchers", "ring of", "arbiter of", "wide", "late 300", "slow b2,300,300"].iter().any(|p| s.contains(p));
    for x in progs::large(Tier::Quick).into_iter().chain(progs::large_pressure(Tier::Quick)).filter(|x| large(&x.name)) {
        v.push(x);
    }
    for x in v {
        if x.name.ends_with("rev") || (!th && x.cost >= 8 && !x.name.contains("b1,1,1") && !large(&x.name)) {
            continue;
        }
        for infer in [false, true] {
            if infer && x.stuck_peek() {
                continue;
            }
            for (mi, (m, mode)) in modes().into_iter().enumerate() {
                let p = x.p.clone().infer(infer);
                let det = x.det;
                let k = if large(&x.name) { th as u16 } else if th { 2 } else { 1 };
                if mi > 0 && !th && !x.name.contains("b1,1,1") {
                    continue;
                }
                let id = format!("{}{}{}{m} | {k} delays", x.name, if infer { " infer" } else { "" }, if mi > 0 { " " } else { "" });
                out.push(
                    Job::new(id, move |cx| {
                        let p2 = p.clone();
                        every_schedule(cx, delay(k).max(if th { 100_000 } else { 2_000 }), det, move || run_prog_with(&p2, |_, _, _| {}, opts(mode)), |r| {
                            finished(r, &mut |o| {
                                oracle::check(&p, &o.logs)?;
                                super::core::accounting(&p, &o)?;
                                Ok(hash(&(oracle::canon(&o.logs), o.passed)))
                            })
                        })
                    })
                    .cost(x.cost),
                );
            }
        }
    }
    // a part of what the other checks explore in the default configuration
    for (prop, every) in [("C07", 9), ("C09", 13), ("C10", 41), ("C13", 29), ("C14", 23), ("C15", 17), ("C16", 7), ("C17", 31), ("C20", 5), ("C23", 31), ("C26", 19)] {
        let every = if th { (every / 5).max(1) } else { every };
        for (i, mut j) in super::jobs(prop, Tier::Quick).into_iter().enumerate() {
            // polling builds step through every cycle of a far time
            let far = [" clocks", "long consumer late", "long trace 1", "70000", "5000000000", " waiters ", "late waiter", "parent of", " every "].iter().any(|s| j.id.contains(s));
            if i % every == 0 && !j.id.starts_with("finding") && !(far && cfg!(feature = "cyc")) {
                j.id = format!("{prop}: {}", j.id);
                out.push(j);
            }
        }
    }
    out
}
