//! Validation of the explorer itself: on small generated concurrent programs the reduced exploration must reach
//! exactly the outcomes that brute-force enumeration of every interleaving reaches, and the weak-memory mode must
//! produce exactly the textbook litmus outcomes.
use crate::atomic::{AtomicU64, Ordering::*};
use crate::rt::{outcomes, Config, Mode, Report};
use crate::sync::mpsc;
use crate::{pl, thread};
use ::std::cell::RefCell;
use ::std::collections::BTreeSet;
use ::std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Load(usize),
    Store(usize),
    Add(usize),
    Locked(usize),
    TryLocked(usize),
    Send,
    Recv,
    TryRecv,
    Unpark(usize),
    Park,
    Yield,
}

struct World {
    v: [AtomicU64; 2],
    m: pl::Mutex<u64>,
}

fn run_prog(prog: &[Vec<A>]) -> String {
    let n = prog.len();
    let w = Arc::new(World { v: [AtomicU64::new(0), AtomicU64::new(0)], m: pl::Mutex::new(0) });
    let _ = n;
    let (tx, rx) = mpsc::channel::<u64>();
    let mut tx = Some(tx);
    let mut rx = Some(rx);
    // thread 0 owns the sender, thread 1 the receiver; unpark targets are spawned in order, so handles go via a table
    let table: Arc<RefCell<Vec<thread::Thread>>> = Arc::new(RefCell::new(vec![]));
    struct Sp<T>(T);
    unsafe impl<T> Send for Sp<T> {}
    unsafe impl<T> Sync for Sp<T> {}
    let go = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for (i, p) in prog.iter().enumerate() {
        let p = p.clone();
        let w = w.clone();
        let mytx = if i == 0 { tx.take() } else { None };
        let myrx = if i == 1 { rx.take() } else { None };
        let tab = Sp(table.clone());
        hs.push(thread::spawn(move || {
            let tab = tab;
            let mut s = String::new();
            for (k, a) in p.iter().enumerate() {
                let val = (i * 10 + k + 1) as u64;
                match *a {
                    A::Load(x) => s += &format!("l{}", w.v[x].load(SeqCst)),
                    A::Store(x) => w.v[x].store(val, SeqCst),
                    A::Add(x) => s += &format!("a{}", w.v[x].fetch_add(val, SeqCst)),
                    A::Locked(x) => {
                        let mut g = w.m.lock();
                        let v = w.v[x].load(SeqCst);
                        s += &format!("m{}:{v}", *g);
                        *g += val;
                        w.v[x].store(v + val, SeqCst);
                    }
                    A::TryLocked(x) => match w.m.try_lock() {
                        Some(mut g) => {
                            s += &format!("t{}", *g);
                            *g += val;
                            w.v[x].store(val, SeqCst);
                        }
                        None => s += "tf",
                    },
                    A::Send => {
                        if let Some(t) = &mytx {
                            s += &format!("s{}", t.send(val).is_ok())
                        }
                    }
                    A::Recv => {
                        if let Some(r) = &myrx {
                            s += &format!("r{:?}", r.recv().ok())
                        }
                    }
                    A::TryRecv => {
                        if let Some(r) = &myrx {
                            s += &format!("q{:?}", r.try_recv())
                        }
                    }
                    A::Unpark(t) => {
                        let th = tab.0.borrow().get(t).cloned();
                        match th {
                            Some(th) => th.unpark(),
                            None => s += "?",
                        }
                    }
                    A::Park => thread::park(),
                    A::Yield => thread::yield_now(),
                }
            }
            s
        }));
        table.borrow_mut().push(hs[i].thread().clone());
    }
    let _ = go;
    let mut o = String::new();
    for h in hs {
        o += &h.join().unwrap_or_default();
        o += "|";
    }
    format!("{o}{}:{}", w.v[0].load(SeqCst), w.v[1].load(SeqCst))
}

fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}

pub struct SelfStats {
    pub programs: u64,
    pub dpor_execs: u64,
    pub brute_execs: u64,
    pub litmus: u64,
}

pub fn run(seed: u64, programs: usize) -> Result<SelfStats, String> {
    let mut st = SelfStats { programs: 0, dpor_execs: 0, brute_execs: 0, litmus: 0 };
    let mut s = seed.wrapping_mul(77777).wrapping_add(12345);
    while (st.programs as usize) < programs {
        let n = 2 + (lcg(&mut s) % 2) as usize;
        let per = if n == 2 { 3 } else { 2 };
        let prog: Vec<Vec<A>> = (0..n)
            .map(|i| {
                (0..per)
                    .map(|_| match lcg(&mut s) % 12 {
                        0 | 1 => A::Load((lcg(&mut s) % 4 / 3) as usize),
                        2 | 3 => A::Store((lcg(&mut s) % 4 / 3) as usize),
                        4 => A::Add((lcg(&mut s) % 4 / 3) as usize),
                        5 => A::Locked((lcg(&mut s) % 4 / 3) as usize),
                        6 => A::TryLocked((lcg(&mut s) % 4 / 3) as usize),
                        7 | 8 => match i {
                            0 => A::Send,
                            1 => [A::Recv, A::TryRecv][(lcg(&mut s) % 2) as usize],
                            _ => A::Load(0),
                        },
                        9 => A::Unpark((lcg(&mut s) % n as u64) as usize),
                        10 => {
                            if lcg(&mut s) % 3 == 0 {
                                A::Park
                            } else {
                                A::Unpark(0)
                            }
                        }
                        _ => {
                            if lcg(&mut s) % 2 == 0 {
                                A::Yield
                            } else {
                                A::Store(0)
                            }
                        }
                    })
                    .collect()
            })
            .collect();
        // Unpark through the table is a read of a not-instrumented RefCell: keep it deterministic by pre-spawn order.
        if prog.iter().flatten().any(|a| matches!(a, A::Unpark(_))) {
            // handles of later threads may not be there yet; avoid that data race in the test itself
            let ok = prog.iter().enumerate().all(|(i, p)| p.iter().all(|a| !matches!(a, A::Unpark(t) if *t >= i)));
            if !ok {
                continue;
            }
        }
        let cfg = Config { yield_blocks: false, ..Default::default() };
        let (d, rd) = outcomes(&cfg, || run_prog(&prog));
        let brute = Config { mode: Mode::Brute, max_execs: 12_000, ..cfg };
        let (b, rb) = outcomes(&brute, || run_prog(&prog));
        if !rd.complete {
            return Err(format!("self-test: reduced exploration capped on {prog:?}"));
        }
        if !rb.complete {
            continue;
        }
        st.programs += 1;
        st.dpor_execs += rd.execs;
        st.brute_execs += rb.execs;
        if d != b {
            return Err(format!(
                "self-test: reduced exploration reached {} outcomes, brute force {}: program {prog:?}\nmissing {:?}\nextra {:?}",
                d.len(),
                b.len(),
                b.difference(&d).collect::<Vec<_>>(),
                d.difference(&b).collect::<Vec<_>>()
            ));
        }
    }
    litmus(&mut st)?;
    Ok(st)
}

fn two(f: fn(&[AtomicU64; 2], usize) -> String) -> String {
    let v = Arc::new([AtomicU64::new(0), AtomicU64::new(0)]);
    let out = Arc::new(pl::Mutex::new(vec![String::new(), String::new()]));
    let hs: Vec<_> = (0..2)
        .map(|i| {
            let v = v.clone();
            let out = out.clone();
            thread::spawn(move || {
                let s = f(&v, i);
                out.lock()[i] = s;
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let o = out.lock().join(",");
    o
}

fn litmus(st: &mut SelfStats) -> Result<(), String> {
    let cfg = Config { weak: true, ..Default::default() };
    let mut expect = |name: &str, f: fn(&[AtomicU64; 2], usize) -> String, want: &[&str]| -> Result<(), String> {
        let (got, rep): (BTreeSet<String>, Report) = outcomes(&cfg, || two(f));
        st.litmus += rep.execs;
        let want: BTreeSet<String> = want.iter().map(|s| s.to_string()).collect();
        if got != want {
            return Err(format!("litmus {name}: got {got:?}, want {want:?}"));
        }
        Ok(())
    };
    // store buffering: allowed with release/acquire
    expect(
        "SB",
        |v, i| {
            v[i].store(1, Release);
            v[1 - i].load(Acquire).to_string()
        },
        &["0,0", "0,1", "1,0", "1,1"],
    )?;
    // message passing, release/acquire
    expect(
        "MP",
        |v, i| {
            if i == 0 {
                v[0].store(1, Relaxed);
                v[1].store(1, Release);
                String::new()
            } else {
                let f = v[1].load(Acquire);
                format!("{f}{}", v[0].load(Relaxed))
            }
        },
        &[",00", ",01", ",11"],
    )?;
    // message passing with a relaxed flag
    expect(
        "MP-rlx",
        |v, i| {
            if i == 0 {
                v[0].store(1, Relaxed);
                v[1].store(1, Relaxed);
                String::new()
            } else {
                let f = v[1].load(Acquire);
                format!("{f}{}", v[0].load(Relaxed))
            }
        },
        &[",00", ",01", ",10", ",11"],
    )?;
    // coherence of reads
    expect(
        "CoRR",
        |v, i| {
            if i == 0 {
                v[0].store(1, Relaxed);
                v[0].store(2, Relaxed);
                String::new()
            } else {
                let a = v[0].load(Relaxed);
                format!("{a}{}", v[0].load(Relaxed))
            }
        },
        &[",00", ",01", ",02", ",11", ",12", ",22"],
    )?;
    // read-modify-writes never lose an update
    expect(
        "RMW",
        |v, _| {
            v[0].fetch_add(1, Relaxed);
            let _ = v[0].load(Relaxed);
            String::new()
        },
        &[","],
    )?;
    Ok(())
}
