//! The DOT export: what is drawn is the program.
use super::run::{grow, trees, Comp, Kid, T};
use crate::dsl::*;
use crate::job::*;
use crate::kid;
use dam::simulation::*;
use dam::structures::Identifiable;
use std::collections::{BTreeMap, BTreeSet};

type Attrs = BTreeMap<String, String>;
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Drawn {
    attrs: Attrs,
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(String, String, Attrs)>,
    clusters: Vec<(String, Drawn)>,
}

// ------------------------------------------------------------- a reader of the DOT language
fn tokens(s: &str) -> Result<Vec<String>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            '"' => {
                let mut t = String::from("\"");
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\\') if c.get(i + 1) == Some(&'"') => {
                            t.push('"');
                            i += 1;
                        }
                        Some(x) => t.push(*x),
                    }
                    i += 1;
                }
                i += 1;
                v.push(t);
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                v.push("->".into());
                i += 2;
            }
            x if x.is_alphanumeric() || x == '_' || x == '.' => {
                let st = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                    i += 1;
                }
                v.push(c[st..i].iter().collect());
            }
            x if "{}[]=,;".contains(x) => {
                v.push(x.to_string());
                i += 1;
            }
            x => return Err(format!("unexpected character {x:?}")),
        }
    }
    Ok(v)
}
struct Reader {
    t: Vec<String>,
    i: usize,
}
impl Reader {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> Result<String, String> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(r)
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        let n = self.next()?;
        if n == s {
            Ok(())
        } else {
            Err(format!("expected {s}, found {n}"))
        }
    }
    fn word(&mut self) -> Result<String, String> {
        let w = self.next()?;
        if "{}[]=,;->".contains(w.as_str()) {
            return Err(format!("expected a name, found {w}"));
        }
        Ok(w.trim_start_matches('"').to_string())
    }
    fn attrs(&mut self) -> Result<Attrs, String> {
        let mut a = Attrs::new();
        while self.peek() == "[" {
            self.next()?;
            while self.peek() != "]" {
                let k = self.word()?;
                self.want("=")?;
                let v = self.word()?;
                a.insert(k, v);
                if self.peek() == "," || self.peek() == ";" {
                    self.next()?;
                }
            }
            self.want("]")?;
        }
        Ok(a)
    }
    fn body(&mut self) -> Result<Drawn, String> {
        let mut d = Drawn::default();
        self.want("{")?;
        while self.peek() != "}" {
            if self.peek() == ";" {
                self.next()?;
                continue;
            }
            if self.peek() == "subgraph" {
                self.next()?;
                let n = self.word()?;
                let b = self.body()?;
                d.clusters.push((n, b));
                continue;
            }
            let w = self.word()?;
            match self.peek() {
                "=" => {
                    self.next()?;
                    let v = self.word()?;
                    d.attrs.insert(w, v);
                }
                "->" => {
                    self.next()?;
                    let to = self.word()?;
                    let a = self.attrs()?;
                    d.edges.push((w, to, a));
                }
                _ if ["node", "edge", "graph"].contains(&w.as_str()) => {
                    self.attrs()?;
                }
                _ => {
                    let a = self.attrs()?;
                    d.nodes.push((w, a));
                }
            }
        }
        self.want("}")?;
        Ok(d)
    }
}
pub fn read(s: &str) -> Result<Drawn, String> {
    let mut r = Reader { t: tokens(s)?, i: 0 };
    r.want("digraph")?;
    if r.peek() != "{" {
        r.word()?;
    }
    let d = r.body()?;
    if r.i != r.t.len() {
        return Err("text after the graph".into());
    }
    Ok(d)
}

// ------------------------------------------------------------- what has to be drawn
#[derive(Clone, Debug)]
struct Item {
    id: usize,
    name: String,
    kids: Vec<Item>,
    /// the context's script
    who: Option<usize>,
}
impl Item {
    fn label(&self) -> String {
        format!("{}(ID_{})", self.name, self.id)
    }
}
#[derive(Clone, Debug)]
struct Line {
    from: usize,
    to: usize,
    id: String,
    ch: Ch,
}
fn item(k: &Kid, ids: &[usize]) -> Item {
    let id = kid!(k, x => x.id()).id;
    let name = kid!(k, x => x.name());
    match k {
        Kid::G(g) => match &**g {
            dam::context::ProxyContext::Running(c) => comp(c, ids),
            _ => unreachable!(),
        },
        _ => Item { id, name, kids: vec![], who: ids.iter().position(|i| *i == id) },
    }
}
fn comp(c: &Comp, ids: &[usize]) -> Item {
    Item { id: c.id().id, name: c.name(), kids: c.kids.iter().map(|k| item(k, ids)).collect(), who: None }
}
/// the number at the end of a drawn identifier (however identifiers are spelled)
fn number(s: &str) -> Option<usize> {
    let t: String = s.chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
    t.parse().ok()
}
fn has_number(s: &str, n: u64) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse() == Ok(n))
}
/// A drawn value is that number (a capacity is an option) and nothing else.
fn says(s: &str, n: u64) -> bool {
    let s = s.trim();
    let s = s.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')).unwrap_or(s);
    s.parse() == Ok(n)
}
fn all_edges(d: &Drawn, out: &mut Vec<(String, String, Attrs)>) {
    out.extend(d.edges.iter().cloned());
    d.clusters.iter().for_each(|(_, c)| all_edges(c, out));
}

/// `clocks`: of the contexts that completed; None before the run.
fn compare(d: &Drawn, want: &[Item], top: &[String], clocks: Option<&[Option<u64>]>) -> Result<(), String> {
    let plain: Vec<&(String, Attrs)> = d.nodes.iter().filter(|(n, _)| !top.contains(n)).collect();
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    for (n, a) in &plain {
        let Some(id) = number(n) else { return Err(format!("a node {n:?} that is no context")) };
        let Some(w) = want.iter().find(|w| w.id == id && w.kids.is_empty()) else {
            return Err(format!("a node {n:?} where no such context is"));
        };
        if !seen.insert(id) {
            return Err(format!("node {n:?} is drawn twice"));
        }
        let l = a.get("label").cloned().unwrap_or_default();
        if !l.contains(&w.name) || !has_number(&l, id as u64) {
            return Err(format!("context {} is labelled {l:?}", w.label()));
        }
        if let (Some(cl), Some(who)) = (clocks, w.who) {
            let t = a.get("tooltip").cloned().unwrap_or_default();
            let Some(c) = cl[who] else { continue };
            if !t.rsplit(':').next().is_some_and(|v| says(v, c)) {
                return Err(format!("context {} ran for {c} cycles, drawn as {t:?}", w.label()));
            }
        }
    }
    for (n, sub) in &d.clusters {
        let Some(id) = number(n) else { return Err(format!("a cluster {n:?} that is no context")) };
        let Some(w) = want.iter().find(|w| w.id == id && !w.kids.is_empty()) else {
            return Err(format!("a cluster {n:?} where no such composite is"));
        };
        if !n.starts_with("cluster") {
            return Err(format!("the subgraph {n:?} is not drawn as a cluster"));
        }
        if !seen.insert(id) {
            return Err(format!("cluster {n:?} is drawn twice"));
        }
        let l = sub.attrs.get("label").cloned().unwrap_or_default();
        if !l.contains(&w.name) || !has_number(&l, id as u64) {
            return Err(format!("composite {} is labelled {l:?}", w.label()));
        }
        compare(sub, &w.kids, top, clocks)?;
    }
    for w in want {
        let done = |w: &Item| clocks.zip(w.who).map(|(c, i)| c[i].is_some()).unwrap_or(true);
        if !seen.contains(&w.id) && done(w) {
            return Err(format!("{} is not drawn", w.label()));
        }
    }
    Ok(())
}
fn leaves(want: &[Item], out: &mut Vec<usize>) {
    for w in want {
        if w.kids.is_empty() {
            out.push(w.id);
        }
        leaves(&w.kids, out);
    }
}
fn edges(d: &Drawn, want: &[Item], lines: &[Line]) -> Result<Vec<String>, String> {
    let mut es = vec![];
    all_edges(d, &mut es);
    let mut ctxs = vec![];
    leaves(want, &mut ctxs);
    let mut others: Vec<String> = vec![];
    let mut used = vec![false; lines.len()];
    for (f, t, a) in &es {
        let is = |n: &String| number(n).filter(|i| ctxs.contains(i) && !n.starts_with("Channel"));
        let (Some(from), Some(to)) = (is(f), is(t)) else {
            // something else may be drawn at the end of a void
            others.push(t.clone());
            continue;
        };
        let l = a.get("label").cloned().unwrap_or_default();
        let num = number(l.trim_end_matches(')'));
        let Some(i) = lines.iter().position(|x| !x.ch.void && number(x.id.trim_end_matches(')')) == num) else {
            return Err(format!("an edge {f} -> {t} labelled {l:?} that is no channel"));
        };
        if std::mem::replace(&mut used[i], true) {
            return Err(format!("channel {l} is drawn twice"));
        }
        let x = &lines[i];
        if (from, to) != (x.from, x.to) {
            return Err(format!("channel {l} goes from {} to {} and is drawn {f} -> {t}", x.from, x.to));
        }
        let tip = a.get("tooltip").cloned().unwrap_or_default();
        let mut got: BTreeMap<String, String> = BTreeMap::new();
        for part in tip.split("\\n").flat_map(|x| x.split('\n')) {
            if let Some((k, v)) = part.split_once(':') {
                got.insert(k.trim().to_lowercase(), v.trim().to_string());
            }
        }
        let is = |k: &str, v: u64| got.get(k).map(|g| says(g, v)).unwrap_or(false);
        let cap = match x.ch.cap {
            Some(c) => is("capacity", c as u64),
            None => got.get("capacity").map(|g| !g.chars().any(|c| c.is_ascii_digit())).unwrap_or(false),
        };
        if !cap || !is("latency", x.ch.lat) || (x.ch.cap.is_some() && !is("resplatency", x.ch.resp)) {
            return Err(format!("channel {l} is {:?}, drawn as {tip:?}", x.ch));
        }
    }
    if let Some(i) = (0..lines.len()).find(|i| !lines[*i].ch.void && !used[*i]) {
        return Err(format!("{:?} is not drawn", lines[i]));
    }
    if others.len() > lines.iter().filter(|l| l.ch.void).count() {
        return Err(format!("edges to {others:?}"));
    }
    Ok(others)
}

/// Each context sends one element on all its outputs, then takes one from all its inputs, then idles a while.
fn program(n: usize, chs: &[(usize, usize, Ch)], bomb: Option<usize>) -> Prog {
    let mut ops = vec![vec![]; n];
    for (i, (f, ..)) in chs.iter().enumerate() {
        ops[*f].push(Op::Enq(i, 0, V::C(7)));
    }
    for (i, (_, t, c)) in chs.iter().enumerate() {
        if !c.void {
            ops[*t].push(Op::Deq(i));
        }
    }
    for (i, o) in ops.iter_mut().enumerate() {
        o.push(if bomb == Some(i) { Op::Panic } else { Op::Incr(3 * i as u64 + 1) });
    }
    Prog::new(chs.iter().map(|c| c.2).collect(), ops)
}
fn drawn(p: &Prog, chs: &[(usize, usize, Ch)], ts: &[T], explicit: bool) -> Result<u64, String> {
    let mut pb = ProgramBuilder::default();
    let (mut tx, mut rx) = channels(p, &mut pb);
    let names: Vec<String> = tx.iter().map(|t| t.as_ref().unwrap().id().to_string()).collect();
    let ss = scripts(p, &mut tx, &mut rx);
    let logs: Vec<Log> = ss.iter().map(|s| s.log.clone()).collect();
    let mut ss: Vec<Option<Script>> = ss.into_iter().map(Some).collect();
    let mut ids = vec![usize::MAX; ss.len()];
    let mut kids = vec![];
    for t in ts {
        kids.push(grow(t, &mut ss, &mut ids, explicit as u8));
    }
    let want: Vec<Item> = kids.iter().map(|k| item(k, &ids)).collect();
    for k in kids {
        match k {
            Kid::S(dam::context::ProxyContext::Running(c)) => pb.add_child(c),
            Kid::G(g) => match *g {
                dam::context::ProxyContext::Running(c) => pb.add_child(c),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }
    let lines: Vec<Line> =
        chs.iter().zip(names).map(|((f, t, c), id)| Line { from: ids[*f], to: if c.void { usize::MAX } else { ids[*t] }, id, ch: *c }).collect();
    let init = pb.initialize(options(p.infer)).map_err(|e| e.to_string())?;
    let s = init.to_dot_string();
    let mut see = |s: &str, clocks: Option<&[Option<u64>]>, when: &str| -> Result<(), String> {
        let d = read(s).map_err(|m| format!("{when}: {m} in {s}"))?;
        let top = edges(&d, &want, &lines).map_err(|m| format!("{when}: {m} in {s}"))?;
        compare(&d, &want, &top, clocks).map_err(|m| format!("{when}: {m} in {s}"))
    };
    see(&s, None, "initialized")?;
    let again = init.to_dot_string();
    see(&again, None, "initialized, again")?;
    let ex = init.run(RunOptions::default());
    let clocks: Vec<Option<u64>> = logs
        .iter()
        .map(|l| {
            let l = l.get();
            l.last().filter(|e| matches!(e.k, Kind::End)).map(|e| e.after)
        })
        .collect();
    see(&ex.to_dot_string(), Some(&clocks), "executed")?;
    Ok(hash(&clocks))
}

pub fn c21(tier: Tier) -> Vec<Job> {
    let th = tier == Tier::Thorough;
    let mut out = vec![];
    let kinds = [b(1, 1, 1), b(2, 3, 4), u(2), void()];
    for n in 1..=if th { 5 } else { 4 } {
        let flat: Vec<T> = (0..n).map(T::C).collect();
        for (ti, t) in [vec![flat]].concat().into_iter().chain(trees(n)).enumerate() {
            for explicit in [false, true] {
                if explicit && ti == 0 {
                    continue;
                }
                let t = t.clone();
                out.push(Job::new(format!("{n} contexts, grouping {ti}{}", if explicit { ", declared connections" } else { "" }), move |cx| {
                    cases(cx, |ta| {
                        let mut one: Vec<(usize, usize, Ch)> = vec![];
                        for k in kinds {
                            for f in 0..n {
                                for to in 0..if k.void { 1 } else { n } {
                                    one.push((f, to, k));
                                }
                            }
                        }
                        let mut sets: Vec<Vec<(usize, usize, Ch)>> = vec![vec![]];
                        sets.extend(one.iter().map(|x| vec![*x]));
                        for (i, x) in one.iter().enumerate() {
                            for y in &one[i..] {
                                sets.push(vec![*x, *y]);
                            }
                        }
                        if th {
                            for k in 0..n {
                                sets.push((0..n).map(|i| (i, (i + k) % n, kinds[i % 3])).collect());
                                sets.push((0..2 * n).map(|i| (i % n, (i + k) % n, kinds[i % 4])).collect());
                            }
                        }
                        for s in sets {
                            for infer in [false, true] {
                                for bomb in if s.is_empty() { (0..n).map(Some).chain([None]).collect() } else { vec![None] } {
                                    if bomb.is_some() && t.iter().any(|t| matches!(t, T::G(_))) {
                                        continue;
                                    }
                                    let p = program(n, &s, bomb).infer(infer);
                                    let (s2, t2) = (s.clone(), t.clone());
                                    let r = once(move || drawn(&p, &s2, &t2, explicit));
                                    let r = finished(r, &mut |x| x).map_err(|m| format!("{s:?} infer {infer}: {m}"));
                                    if !ta.case(r) {
                                        return;
                                    }
                                }
                            }
                        }
                    })
                }));
            }
        }
    }
    // in a process that has made many contexts and channels before
    for used in crate::props::progs::USED {
        out.push(Job::new(format!("3 contexts after {used:?} identifiers"), move |cx| {
            cases(cx, |ta| {
                for t in [vec![T::C(0), T::C(1), T::C(2)], vec![T::G(vec![T::C(0), T::C(1)]), T::C(2)]] {
                    for bomb in [None, Some(1)] {
                        if bomb.is_some() && matches!(t[0], T::G(_)) {
                            continue;
                        }
                        let s = vec![(0, 1, b(1, 1, 1)), (1, 2, u(2)), (2, 0, void())];
                        let p = program(3, &s, bomb).after(used.0, used.1);
                        let t = t.clone();
                        let r = once(move || drawn(&p, &s, &t, false));
                        if !ta.case(finished(r, &mut |x| x)) {
                            return;
                        }
                    }
                }
            })
        }));
    }
    // many contexts, many channels, deep nesting
    for n in if th { vec![7usize, 11, 15] } else { vec![7, 11] } {
        let c = |v: &[usize]| v.iter().map(|i| T::C(*i)).collect::<Vec<T>>();
        let all: Vec<usize> = (0..n).collect();
        let nest = |v: &[usize]| v.iter().fold(None, |g: Option<T>, i| Some(T::G(g.into_iter().chain([T::C(*i)]).collect()))).unwrap();
        for (ti, t) in [
            c(&all),
            vec![T::G(c(&all))],
            vec![nest(&all)],
            all.chunks(3).map(|v| T::G(c(v))).collect(),
            vec![T::G(all.chunks(4).map(|v| T::G(c(v))).collect())],
            [c(&all[..2]), vec![nest(&all[2..5])], c(&all[5..])].concat(),
        ]
        .into_iter()
        .enumerate()
        {
            for explicit in [false, true] {
                if explicit && ti == 0 {
                    continue;
                }
                let t = t.clone();
                out.push(Job::new(format!("{n} contexts, large grouping {ti}{}", if explicit { ", declared connections" } else { "" }), move |cx| {
                    cases(cx, |ta| {
                        let kinds = [b(1, 1, 1), b(200, 300, 4), u(70_000), void(), b(12, 5_000_000_000, 70_000)];
                        let mut sets: Vec<Vec<(usize, usize, Ch)>> = vec![vec![]];
                        for k in [1, 2, n - 1] {
                            sets.push((0..n).map(|i| (i, (i + k) % n, kinds[i % 3])).collect());
                            sets.push((0..3 * n).map(|i| (i % n, (i * 2 + k) % n, kinds[i % 5])).collect());
                        }
                        // parallel channels, and a star
                        sets.push((0..12).map(|i| (0, 1, kinds[i % 3])).collect());
                        sets.push((1..n).flat_map(|i| [(0, i, kinds[i % 3]), (i, 0, kinds[i % 2])]).collect());
                        for s in sets {
                            for infer in [false, true] {
                                for bomb in [None, Some(n - 1)] {
                                    if bomb.is_some() && (ti != 0 || !s.is_empty()) {
                                        continue;
                                    }
                                    let p = program(n, &s, bomb).infer(infer);
                                    let (s2, t2) = (s.clone(), t.clone());
                                    let r = once(move || drawn(&p, &s2, &t2, explicit));
                                    let r = finished(r, &mut |x| x).map_err(|m| format!("{s:?} infer {infer}: {m}"));
                                    if !ta.case(r) {
                                        return;
                                    }
                                }
                            }
                        }
                    })
                }));
            }
        }
    }
    out
}
