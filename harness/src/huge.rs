//! Huge trees (MCHuge): traversals, single operations and builder programs on
//! trees of tens of thousands of levels or siblings, on threads whose stack is
//! small.

use std::collections::HashMap;
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::NodeId;

use crate::builders::{chain_prog, nest_prog, run_calls, run_toks};
use crate::graph::{read_lines, trans, Graph, St};
use crate::iters::{node_iters, Effort, Names, Stats};
use crate::report::{beat, catch, idle, note, step, Report};
use crate::shapes::{build, shape, Shape, ALONE};
use crate::lockstep::With;
use crate::sessions::lines;
use crate::steps::step_once;
use crate::val::V;
use crate::world::{FSpec, ALIVE_PAYLOADS, P};

enum Job<'a> {
    /// Tree, way, start node.
    Walk(&'a Shape, u64, usize),
    /// A line with a step from the forest, variant, way.
    Step(&'a FSpec, &'a V, usize, u64),
    /// A line with a tree and the lines printed for it, way.
    Print(&'a V, u64),
    Chain(&'a V),
    Nest(&'a V),
}

fn tree(par: &V, kids: &V) -> FSpec {
    let par = par.ints();
    let data = vec![0; par.len()];
    FSpec { par, kids: kids.t().iter().map(V::ints).collect(), data }
}

fn empty() -> FSpec {
    FSpec { par: Vec::new(), kids: Vec::new(), data: Vec::new() }
}

/// A forest given as the nodes that differ.
fn patched(f: &FSpec, d: &V) -> FSpec {
    let mut g = f.clone();
    let d = d.t();
    let n = d[0].i() as usize;
    g.par.resize(n, 0);
    g.kids.resize(n, Vec::new());
    g.data.resize(n, 0);
    for e in d[1].t() {
        let e = e.t();
        let y = e[0].i() as usize - 1;
        g.par[y] = e[1].i();
        g.kids[y] = e[2].ints();
    }
    g
}

fn run<I: NodeId + Send + Sync>(j: &Job, k: usize, want: &(dyn Fn(&str) -> bool + Sync), rep: &mut Report) {
    let mut bad = |tag: &'static str, m: String| {
        note(&["C22", tag], || m.clone());
        rep.add(&["C22", tag], || m);
    };
    match j {
        Job::Walk(s, way, x) => {
            let text = format!("tree {} built in way {}, iterators of {}", crate::report::brief(&s.par), way, x + 1);
            step(&["C22"], || text.clone());
            let (f, ids) = match catch(|| build::<I>(s, *way, P::new)) {
                Some(b) => b,
                None => return bad("C09", format!("{}: building panics", text)),
            };
            let n = Names::new(&ids);
            let t = s.trav[*x].as_ref().expect("tool: huge");
            let mut stats = Stats { sequences: 0, steps: 0 };
            for (tag, m) in node_iters(&f, ids[*x], &n, t, Effort::Huge(k as u64 * 31 + 7), want, &mut stats) {
                bad(tag, format!("{}: {}", text, m));
            }
            drop(f);
            ALIVE_PAYLOADS.with(|c| c.set(0));
            rep.count("iterator_sequences", stats.sequences);
            rep.count("iterator_steps", stats.steps);
        }
        Job::Step(f, l, v, way) => {
            let t = l.t();
            let pre = vec![(*f).clone(), empty()];
            let post = vec![patched(f, &t[6]), patched(&empty(), &t[7])];
            let tr = trans(&t[3], &t[4], &t[5], &V::T(Vec::new()), &pre, 1);
            let out = t[8].ints();
            let tr = crate::graph::Trans { out, ..tr };
            let st = vec![St { f: pre, trans: Vec::new(), trav: Vec::new() }, St { f: post, trans: Vec::new(), trav: Vec::new() }];
            let g = Graph { st, init: 0, begin: Vec::new(), ntrans: 1 };
            let text = format!("forest {} built in way {}", crate::report::brief(&f.par), way);
            let mut r = Report::default();
            step_once::<I>(&g, 0, &tr, *v, *way, false, false, With::Nothing, &text, &mut r);
            // Whatever goes wrong here is about size, too.
            for (tag, x) in &r.viol {
                bad(tag, x.1.first().cloned().unwrap_or_default());
            }
            rep.count("steps_executed", 1);
        }
        Job::Print(l, way) => {
            let t = l.t();
            let par = t[2].ints();
            let mut kids: Vec<Vec<i64>> = vec![Vec::new(); par.len()];
            for (y, p) in par.iter().enumerate() {
                if *p > 0 {
                    kids[*p as usize - 1].push(y as i64 + 1);
                }
            }
            let x = t[3].i();
            let s = Shape { par, kids, trav: Vec::new() };
            let text = format!("tree {} built in way {}, printed from {}", crate::report::brief(&s.par), way, x);
            step(&["C22", "C18"], || text.clone());
            let (f, ids) = match catch(|| build::<I>(&s, *way, P::new)) {
                Some(b) => b,
                None => return bad("C09", format!("{}: building panics", text)),
            };
            let mut w = crate::world::World::<I>::new(1);
            w.f[0] = f;
            let mut want: Vec<Line> = Vec::new();
            for e in t[4].t() {
                let e = e.t();
                let runs = e[1].t().iter().map(|r| (r.t()[0].i() as usize, r.t()[1].s().to_string())).collect();
                want.push(Line { runs, datum: e[0].i() });
            }
            let long: usize = want.iter().map(Line::len).sum();
            // In all ways, unless it takes long.
            for how in 0..if long > 20_000_000 { 2 } else { 6 } {
                let mut sink = Checker { want: &want, at: 0, line: String::new(), right: String::new(), how, bad: None };
                if let Some(m) = sink.run(&mut w, ids[x as usize - 1]) {
                    bad("C18", format!("{}: printed in way {}, {}", text, how, m));
                    break;
                }
            }
            drop(w);
            ALIVE_PAYLOADS.with(|c| c.set(0));
            rep.count("huge_prints", 1);
        }
        Job::Chain(l) => {
            let p = chain_prog(l.t());
            let text = format!("chain builder program of {} calls building {}", p.calls.len(), crate::report::brief(&p.f.par));
            step(&["C22"], || text.clone());
            let m = catch(|| run_calls::<I>(&p)).unwrap_or_else(|| Some("panics".into()));
            ALIVE_PAYLOADS.with(|c| c.set(0));
            if let Some(m) = m {
                bad("C16", format!("{}: {}", text, m));
            }
            rep.count("chain_programs", 1);
        }
        Job::Nest(l) => {
            let p = nest_prog(l.t());
            let text = format!("nest builder program of {} calls", p.toks.len());
            step(&["C22"], || text.clone());
            let m = catch(|| run_toks::<I>(&p, false)).unwrap_or_else(|| Some("panics".into()));
            ALIVE_PAYLOADS.with(|c| c.set(0));
            if let Some(m) = m {
                bad("C17", format!("{}: {}", text, m));
            }
            rep.count("nest_programs", 1);
        }
    }
}

/// What is expected of a line: pieces of the branches drawn, each so many
/// times, and the datum.
struct Line {
    runs: Vec<(usize, String)>,
    datum: i64,
}

impl Line {
    fn len(&self) -> usize {
        self.runs.iter().map(|(n, s)| n * s.len()).sum::<usize>() + 8
    }

    fn write(&self, to: &mut String) {
        to.clear();
        for (n, s) in &self.runs {
            for _ in 0..*n {
                to.push_str(s);
            }
        }
        let _ = write!(to, "p{}", self.datum);
    }
}

/// Compares what is printed line by line, without keeping it.
struct Checker<'a> {
    want: &'a [Line],
    at: usize,
    line: String,
    right: String,
    how: usize,
    bad: Option<String>,
}

impl Checker<'_> {
    fn end_line(&mut self) -> fmt::Result {
        self.right.clear();
        if let Some(l) = self.want.get(self.at) {
            l.write(&mut self.right);
        }
        let got = lines(&self.line, self.how);
        self.line.clear();
        self.at += 1;
        if got[0] == self.right && self.at <= self.want.len() {
            beat();
            return Ok(());
        }
        let tail = |l: &str| l.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>();
        let right = if self.at <= self.want.len() { tail(&self.right) } else { "nothing".into() };
        self.bad = Some(format!("line {} of {} ends with {}, expected {}", self.at, self.want.len(), tail(&got[0]), right));
        Err(fmt::Error)
    }

    /// What is wrong.
    fn run<I: NodeId>(&mut self, w: &mut crate::world::World<I>, id: I) -> Option<String> {
        let f = &mut w.f[0];
        let how = self.how;
        let reply = catch(|| match how {
            0 => write!(self, "{}", f.debug_print(id)),
            1 => write!(self, "{:?}", f.debug_print(id)),
            2 => write!(self, "{}", f.node(id).expect("live").debug_print()),
            3 => write!(self, "{:?}", f.node(id).expect("live").debug_print()),
            4 => write!(self, "{}", f.node_mut(id).expect("live").debug_print()),
            _ => write!(self, "{:?}", f.node_mut(id).expect("live").debug_print()),
        });
        if self.bad.is_none() {
            match reply {
                None => return Some(format!("it panics after {} of {} lines", self.at, self.want.len())),
                Some(Err(_)) => return Some(format!("it reports an error after {} of {} lines", self.at, self.want.len())),
                Some(Ok(())) => (),
            }
            if !self.line.is_empty() || self.at == 0 {
                let _ = self.end_line();
            }
            if self.bad.is_none() && self.at < self.want.len() {
                return Some(format!("it ends after {} of {} lines", self.at, self.want.len()));
            }
        }
        self.bad.take()
    }
}

impl Write for Checker<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut s = s;
        while let Some(k) = s.find('\n') {
            self.line.push_str(&s[..k]);
            self.end_line()?;
            s = &s[k + 1..];
        }
        self.line.push_str(s);
        Ok(())
    }
}

/// Nothing is begun after `budget` seconds: the code may well be correct and
/// take quadratic time.
pub fn check<I: NodeId + Send + Sync>(path: &str, threads: usize, budget: u64, only: Option<&str>) -> Report {
    let want = |t: &str| only.map_or(true, |x| x == t);
    // Inserting below a node takes time in proportion to its depth: deep trees
    // are built from below.
    let ways = |par: &[i64]| if par[par.len() - 1] == 1 { 0..2 } else { 1..2 };
    let lines = read_lines(path);
    let mut shapes: Vec<Shape> = Vec::new();
    let mut trees: HashMap<(String, i64), FSpec> = HashMap::new();
    for l in &lines {
        let t = l.t();
        match t[0].s() {
            "I" => shapes.push(shape(t)),
            "B" => {
                trees.insert((t[1].s().to_string(), t[2].i()), tree(&t[3], &t[4]));
            }
            _ => {}
        }
    }
    let mut jobs: Vec<Job> = Vec::new();
    for l in &lines {
        let t = l.t();
        match t[0].s() {
            "C" if want("C16") => jobs.push(Job::Chain(l)),
            "N" if want("C17") => jobs.push(Job::Nest(l)),
            "P" if want("C18") => {
                for way in ways(&t[2].ints()) {
                    jobs.push(Job::Print(l, way));
                }
            }
            "H" => {
                let f = &trees[&(t[1].s().to_string(), t[2].i())];
                let pre = [f.clone(), empty()];
                let n = trans(&t[3], &t[4], &t[5], &V::T(Vec::new()), &pre, 1).variants();
                for v in 0..n {
                    for way in ways(&f.par) {
                        jobs.push(Job::Step(f, l, v, way + ALONE * (v as u64 % 2)));
                    }
                }
            }
            _ => {}
        }
    }
    for s in &shapes {
        for x in 0..s.par.len() {
            if s.trav[x].is_some() {
                for way in ways(&s.par) {
                    jobs.push(Job::Walk(s, way, x));
                }
            }
        }
    }
    let cursor = AtomicUsize::new(0);
    let begun = std::time::Instant::now();
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs, want, begun) = (&cursor, &jobs, &want, &begun);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        if begun.elapsed().as_secs() > budget {
                            rep.count("jobs_skipped_for_time", 1);
                            continue;
                        }
                        run::<I>(&jobs[jobs.len() - 1 - k], k, want, &mut rep);
                    }
                    idle();
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("huge_trees", trees.len() as u64);
    for ((fam, n), _) in &trees {
        rep.samples.push(format!("{} of {} nodes", fam, n));
    }
    rep
}
