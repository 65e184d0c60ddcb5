//! Coordinator and workers. A worker explores one job at a time on one OS thread; the coordinator hands jobs out, watches
//! for workers that hang or die, and writes the merged result.
mod dsl;
mod job;
mod oracle;
mod props;

use job::{Ctx, Job, Known, Outcome, Tier};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Debug, Default)]
struct JobReport {
    id: String,
    wall: f64,
    out: Outcome,
    #[serde(default)]
    crashed: bool,
    #[serde(default)]
    skipped: bool,
}
#[derive(Serialize, Deserialize, Debug, Default)]
struct Merged {
    property: String,
    tier: String,
    build: String,
    jobs: Vec<JobReport>,
    wall: f64,
}

fn build_name() -> String {
    let mut v = vec![];
    for (n, on) in [
        ("os", cfg!(feature = "os")),
        ("co", cfg!(feature = "co")),
        ("unb", cfg!(feature = "unb")),
        ("cyc", cfg!(feature = "cyc")),
        ("log", cfg!(feature = "log")),
        ("dot", cfg!(feature = "dot")),
    ] {
        if on {
            v.push(n)
        }
    }
    v.join(",")
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    for k in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] {
        std::env::remove_var(k);
    }
    if args.len() < 4 {
        eprintln!("usage: harness run|worker|list|replay PROPERTY TIER ...");
        std::process::exit(2);
    }
    let prop = args[2].as_str();
    let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let known: Vec<Known> = arg(&args, "--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| {
            s.lines()
                .filter(|l| l.starts_with('{'))
                .map(|l| serde_json::from_str(l).expect("known findings"))
                .collect()
        })
        .unwrap_or_default();
    let limit = Duration::from_secs(arg(&args, "--job-limit").and_then(|x| x.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 60,
        Tier::Thorough => 300,
    }));
    let mut jobs = props::jobs(prop, tier);
    if let Some(f) = arg(&args, "--only") {
        jobs.retain(|j| j.id.contains(&f));
    }
    {
        let mut ids: Vec<_> = jobs.iter().map(|j| j.id.clone()).collect();
        ids.sort();
        if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
            panic!("two jobs are called {:?}", w[0]);
        }
    }
    match args[1].as_str() {
        "list" => {
            for j in &jobs {
                println!("{}", j.id);
            }
        }
        "worker" => worker(jobs, tier, known, limit, prop),
        "replay" => {
            dam_mc::panic::install_quiet_hook();
            let job = jobs.iter().find(|j| j.id == args[4]).expect("no such job");
            let forced: Vec<(u8, u8)> = serde_json::from_str(&args[5]).expect("schedule");
            let cx = Ctx { id: job.id.clone(), tier, known: vec![], forced: Some(forced), limit };
            let o = (job.f)(&cx);
            for l in &o.trace {
                println!("{l}");
            }
            match o.violation {
                Some(v) => {
                    println!("REPRODUCED: {v}");
                    std::process::exit(1)
                }
                None => println!("no violation on this schedule"),
            }
        }
        "run" => {
            let out = arg(&args, "--out").expect("--out");
            let n = arg(&args, "--jobs").and_then(|x| x.parse().ok()).unwrap_or(8usize);
            let budget = Duration::from_secs(arg(&args, "--budget").and_then(|x| x.parse().ok()).unwrap_or(600));
            let m = coordinate(jobs, &args, n, budget);
            std::fs::write(out, serde_json::to_string(&m).unwrap()).unwrap();
        }
        _ => std::process::exit(2),
    }
}

fn worker(jobs: Vec<Job>, tier: Tier, known: Vec<Known>, limit: Duration, prop: &str) {
    dam_mc::panic::install_quiet_hook();
    // A job that computes without ever reaching a scheduling point hangs the only thread: give up on the process.
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let h = dam_mc::rt::HEARTBEAT.load(Ordering::Relaxed);
            if h != last {
                last = h;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(20) && BUSY.load(Ordering::Relaxed) {
                println!("@@HANG");
                let _ = std::io::stdout().flush();
                std::process::exit(9);
            }
        }
    });
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(i) = line.trim().parse::<usize>() else { continue };
        let j = &jobs[i];
        let cx = Ctx {
            id: j.id.clone(),
            tier,
            known: known.iter().filter(|k| k.property == prop).cloned().collect(),
            forced: None,
            limit,
        };
        let t0 = Instant::now();
        dam_mc::rt::HEARTBEAT.fetch_add(1, Ordering::Relaxed);
        BUSY.store(true, Ordering::Relaxed);
        let out = (j.f)(&cx);
        BUSY.store(false, Ordering::Relaxed);
        let r = JobReport { id: j.id.clone(), wall: t0.elapsed().as_secs_f64(), out, crashed: false, skipped: false };
        println!("\n@@DONE {i} {}", serde_json::to_string(&r).unwrap());
        let _ = std::io::stdout().flush();
    }
}
static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct W {
    child: Child,
    job: Option<usize>,
    started: Instant,
}

enum Msg {
    Line(usize, u64, String),
    Eof(usize, u64),
}

fn coordinate(jobs: Vec<Job>, args: &[String], n: usize, budget: Duration) -> Merged {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |slot: usize, gen: u64| -> W {
        let mut a: Vec<String> = args[1..].to_vec();
        a[0] = "worker".into();
        let mut child = Command::new(&exe)
            .args(&a)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("MC_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("worker");
        let so = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                if l.starts_with("@@") && tx.send(Msg::Line(slot, gen, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Eof(slot, gen));
        });
        W { child, job: None, started: Instant::now() }
    };
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    order.sort_by_key(|i| std::cmp::Reverse(jobs[*i].cost));
    let mut queue: std::collections::VecDeque<usize> = order.into();
    let n = n.min(jobs.len()).max(1);
    let mut gens = vec![0u64; n];
    let mut ws: Vec<W> = (0..n).map(|s| spawn(s, 0)).collect();
    let mut done: Vec<Option<JobReport>> = (0..jobs.len()).map(|_| None).collect();
    let mut crashes = vec![0u32; jobs.len()];
    let mut violated = false;
    fn give(w: &mut W, i: usize) {
        w.job = Some(i);
        w.started = Instant::now();
        let _ = writeln!(w.child.stdin.as_mut().unwrap(), "{i}");
    }
    for w in ws.iter_mut() {
        if let Some(i) = queue.pop_front() {
            give(w, i);
        }
    }
    while ws.iter().any(|w| w.job.is_some()) {
        let m = rx.recv_timeout(Duration::from_millis(500));
        let over = t0.elapsed() > budget;
        match m {
            Ok(Msg::Line(s, g, l)) if g == gens[s] => {
                if let Some(r) = l.strip_prefix("@@DONE ") {
                    let (i, js) = r.split_once(' ').unwrap();
                    let i: usize = i.parse().unwrap();
                    // a line cut short comes from a worker that has just died
                    let Ok(r) = serde_json::from_str::<JobReport>(js) else { continue };
                    if r.out.violation.is_some() && std::env::var("MC_KEEP_GOING").is_err() {
                        violated = true;
                    }
                    done[i] = Some(r);
                    ws[s].job = None;
                    if !violated && !over {
                        if let Some(i) = queue.pop_front() {
                            give(&mut ws[s], i);
                        }
                    }
                }
            }
            Ok(Msg::Eof(s, g)) if g == gens[s] => {
                let st = ws[s].child.wait().map(|s| s.to_string()).unwrap_or_default();
                if let Some(i) = ws[s].job.take() {
                    crashes[i] += 1;
                    let hung = st.contains('9') && st.contains("exit");
                    if crashes[i] >= 2 {
                        violated = true;
                        done[i] = Some(JobReport {
                            id: jobs[i].id.clone(),
                            wall: 0.0,
                            crashed: true,
                            out: Outcome {
                                violation: Some(if hung {
                                    "the code computes forever without reaching a scheduling point".into()
                                } else {
                                    format!("the process running it died twice ({st})")
                                }),
                                ..Default::default()
                            },
                            skipped: false,
                        });
                    } else {
                        queue.push_front(i);
                    }
                }
                gens[s] += 1;
                ws[s] = spawn(s, gens[s]);
                if !violated && !over {
                    if let Some(i) = queue.pop_front() {
                        give(&mut ws[s], i);
                    }
                }
            }
            _ => {}
        }
        // A violation ends the run shortly; a job far over its limit is abandoned.
        let hard = budget + Duration::from_secs(30);
        if violated || t0.elapsed() > hard {
            let grace = Duration::from_secs(2);
            for (s, w) in ws.iter_mut().enumerate() {
                if w.job.is_some() && (t0.elapsed() > hard || w.started.elapsed() > grace) {
                    let _ = w.child.kill();
                    gens[s] += 1;
                    w.job = None;
                }
            }
        }
    }
    for w in ws.iter_mut() {
        drop(w.child.stdin.take());
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let reports = done
        .into_iter()
        .enumerate()
        .map(|(i, r)| r.unwrap_or_else(|| JobReport { id: jobs[i].id.clone(), skipped: true, ..Default::default() }))
        .collect();
    Merged {
        property: args[2].clone(),
        tier: args[3].clone(),
        build: build_name(),
        jobs: reports,
        wall: t0.elapsed().as_secs_f64(),
    }
}
