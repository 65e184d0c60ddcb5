//! Programs in which one context is a component of the library and the others are scripts.
use crate::dsl::*;
use crate::job::*;
use crate::oracle::{self, Ghost};
use dam::simulation::{ProgramBuilder, RunOptions};
use std::rc::Rc;

pub type Extra = Rc<dyn Fn(&mut ProgramBuilder<'static>, &mut Tx, &mut Rx)>;
/// the reference histories of the component's contexts
pub type Model = Rc<dyn Fn(&Prog, &[oracle::ChanView]) -> Result<Vec<Vec<Ev>>, String>>;

#[derive(Clone)]
pub struct Dev {
    pub p: Prog,
    /// which channels each context of the component uses, as operations
    pub ghosts: Vec<Vec<Op>>,
    pub make: Extra,
    pub model: Model,
    pub det: bool,
}
impl Dev {
    pub fn infer(mut self) -> Dev {
        self.p.infer = true;
        self
    }
    pub fn full(&self) -> Prog {
        let mut f = self.p.clone();
        f.ctxs.extend(self.ghosts.iter().cloned());
        f
    }
    pub fn judge(&self, o: &crate::dsl::Outcome) -> Judged {
        if let Some(e) = &o.init_error {
            return Err(format!("initialization failed: {e}"));
        }
        if !o.passed || !o.failures.is_empty() {
            return Err(format!("failures reported for a correct program: {:?}", o.failures));
        }
        let full = self.full();
        let mut logs = o.logs.clone();
        logs.resize(full.ctxs.len(), vec![]);
        let vs = oracle::views(&full, &logs);
        let n = self.p.ctxs.len();
        for (i, g) in (self.model)(&full, &vs)?.into_iter().enumerate() {
            logs[n + i] = g;
        }
        oracle::check(&full, &logs)?;
        // everything the component sent arrived
        let vs = oracle::views(&full, &logs);
        for (ch, v) in vs.iter().enumerate() {
            if v.saw_closed && v.takes.len() != v.sends.len() {
                return Err(format!("channel {ch}: {} elements of {} arrived", v.takes.len(), v.sends.len()));
            }
        }
        // how late the end of a stream was seen is only known within bounds
        let sure = |l: &Vec<Ev>| l.iter().find(|e| e.res == Res::Closed).map(|e| e.before).or(l.last().map(|e| e.after)).unwrap_or(0);
        let low = o.logs.iter().map(|l| l.last().map(|e| e.after).unwrap_or(0)).chain(logs[n..].iter().map(sure)).max();
        let high = logs.iter().map(|l| l.last().map(|e| e.after).unwrap_or(0)).max();
        if o.elapsed < low || o.elapsed > high {
            return Err(format!("elapsed_cycles is {:?}, the local times reached between {low:?} and {high:?}", o.elapsed));
        }
        Ok(hash(&oracle::canon(&o.logs)))
    }
    pub fn job(&self, id: impl Into<String>, opt: Opt) -> Job {
        let d = self.clone();
        Job::new(id, move |cx| {
            let d2 = d.clone();
            every_schedule(
                cx,
                opt,
                d.det,
                move || run_prog_with(&d2.p, |pb, tx, rx| (d2.make)(pb, tx, rx), RunOptions::default()),
                |r| finished(r, &mut |o| d.judge(&o)),
            )
        })
        .cost(3)
    }
}
#[allow(unused)]
pub fn ghost<'a>(p: &'a Prog, vs: &'a [oracle::ChanView]) -> Ghost<'a> {
    Ghost::new(p, vs)
}
