//! Every builder program of MCBuilders, run in the real code.

use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{InsertAs, NodeId};

use crate::graph::{fspec, read_lines};
use crate::report::{beat, brief, catch, idle, note, step, Report};
use crate::sessions::*;
use crate::val::V;
use crate::world::*;

struct Edge {
    step: CStep,
    r: String,
    to: usize,
}

struct State {
    f: FSpec,
    root: i64,
    cur: i64,
    out: Vec<Edge>,
}

/// A chain program with the current node after each call (MCPrograms).
pub struct ChainProg {
    pub calls: Vec<CStep>,
    curs: Vec<i64>,
    pub f: FSpec,
}

pub fn run_calls<I: NodeId>(p: &ChainProg) -> Option<String> {
    let mut w = World::<I>::new(1);
    let (_, st, res) = run_chain(&mut w, 0, |k, _| p.calls.get(k).copied());
    if (st.root, st.cur) != (1, 1) {
        return Some(format!("a new builder reports root {} and current {}", st.root, st.cur));
    }
    for (k, r) in res.iter().enumerate() {
        if r.r != "ok" || r.root != 1 || r.cur != p.curs[k] {
            return Some(format!(
                "call {} ({:?}): {}, root {} and current {} reported, expected ok, 1 and {}",
                k + 1, p.calls[k], r.r, r.root, r.cur, p.curs[k]
            ));
        }
    }
    same(&w, &p.f)
}

pub struct NestProg {
    pub toks: Vec<NTok>,
    roots: Vec<i64>,
    f: FSpec,
}

pub fn chain_prog(t: &[V]) -> ChainProg {
    ChainProg { calls: t[1].t().iter().map(|x| cstep(x.s(), 0, 0)).collect(), curs: t[2].ints(), f: fspec(&t[3]) }
}

pub fn nest_prog(t: &[V]) -> NestProg {
    let toks = t[1]
        .t()
        .iter()
        .map(|x| match x.s() {
            "add" => NTok::Add,
            "open" => NTok::Open,
            _ => NTok::Close,
        })
        .collect();
    NestProg { toks, roots: t[2].ints(), f: fspec(&t[3]) }
}

pub fn run_toks<I: NodeId>(n: &NestProg, others: bool) -> Option<String> {
    let mut w = start::<I>(others);
    match run_nest(&mut w, 0, &n.toks) {
        (_, None) => Some("panics".to_string()),
        (_, Some((r0, roots))) => {
            let got: Vec<i64> = std::iter::once(r0).chain(roots.iter().copied()).take(n.roots.len()).collect();
            if got != n.roots {
                Some(format!("roots {} reported, expected {}", brief(&got), brief(&n.roots)))
            } else {
                same(&w, &n.f)
            }
        }
    }
}

fn cstep(c: &str, x: i64, y: i64) -> CStep {
    match c {
        "child" => CStep::Child,
        "sibling" => CStep::Sibling,
        "parent" => CStep::Parent,
        "tryparent" => CStep::TryParent,
        "det" => CStep::Det(x),
        "rem" => CStep::Rem(x),
        "ins" => CStep::Ins(x, y),
        c => panic!("tool: builder call {}", c),
    }
}

/// The forest a builder starts on: F0 of MCBuilders.
fn start<I: NodeId>(others: bool) -> World<I> {
    let mut w = World::<I>::new(1);
    if others {
        let a = w.f[0].create_root(P::new(1));
        let b = w.f[0].create_insert(P::new(2), InsertAs::LastChildOf(a));
        let c = w.f[0].create_root(P::new(3));
        w.f[0].remove(c);
        w.ids[0] = vec![a, b, c];
        w.vals[0] = vec![1, 2, 3];
        w.tries[0] = 3;
    }
    w
}

/// The final forest against the specified one.
fn same<I: NodeId>(w: &World<I>, want: &FSpec) -> Option<String> {
    beat();
    let got = project(&w.f[0], &w.ids[0]);
    if w.ids[0].len() != want.par.len() {
        return Some(format!("{} nodes known, expected {}", w.ids[0].len(), want.par.len()));
    }
    let probs = compare(&got, &want.proj(&w.vals[0]), &["C16"], |_| true, "the forest");
    if let Some(p) = probs.first() {
        return Some(p.msg.clone());
    }
    let alive = want.par.iter().filter(|p| **p != DEAD).count() as i64;
    let have = ALIVE_PAYLOADS.with(|c| c.get());
    if COUNTED && (have < alive || have > alive + w.orphans[0]) {
        return Some(format!("{} data exist, {} nodes are alive", have, alive));
    }
    None
}

fn run_one<I: NodeId>(states: &[State], first: usize, path: &[(usize, usize)], others: bool) -> Option<String> {
    let mut w = start::<I>(others);
    let (_, st, res) = run_chain(&mut w, 0, |k, _| path.get(k).map(|(s, e)| states[*s].out[*e].step));
    let s0 = &states[first];
    if (st.root, st.cur) != (s0.root, s0.cur) {
        return Some(format!("a new builder reports root {} and current {}, expected {} and {}", st.root, st.cur, s0.root, s0.cur));
    }
    for (k, r) in res.iter().enumerate() {
        let e = &states[path[k].0].out[path[k].1];
        let t = &states[e.to];
        let at = || format!("call {} ({:?})", k + 1, e.step);
        if r.r != e.r {
            return Some(format!("{}: {}, expected {}", at(), r.r, e.r));
        }
        if (r.root, r.cur) != (t.root, t.cur) {
            return Some(format!("{}: root {} and current {} reported, expected {} and {}", at(), r.root, r.cur, t.root, t.cur));
        }
    }
    let last = path.last().map_or(first, |(s, e)| states[*s].out[*e].to);
    same(&w, &states[last].f)
}

fn names(states: &[State], path: &[(usize, usize)]) -> String {
    path.iter().map(|(s, e)| format!("{:?}", states[*s].out[*e].step)).collect::<Vec<_>>().join("; ")
}

struct Walk<'s> {
    states: &'s [State],
    first: usize,
    others: bool,
    depth: usize,
    rep: Report,
    programs: u64,
    path: Vec<(usize, usize)>,
}

impl Walk<'_> {
    fn here<I: NodeId>(&mut self) {
        self.programs += 1;
        let (states, path) = (self.states, &self.path);
        step(&["C16"], || format!("chain builder program [{}]", names(states, path)));
        let m = match catch(|| run_one::<I>(states, self.first, path, self.others)) {
            Some(m) => m,
            None => Some("panics where no call does".into()),
        };
        ALIVE_PAYLOADS.with(|c| c.set(0));
        if let Some(m) = m {
            let text = format!("chain builder program [{}]{}: {}", names(states, path), if self.others { " beside other trees" } else { "" }, m);
            note(&["C16"], || text.clone());
            self.rep.add(&["C16"], || text);
        }
    }
    fn all<I: NodeId>(&mut self, at: usize) {
        self.here::<I>();
        if self.path.len() >= self.depth || self.rep.viol.values().any(|v| v.0 > 100) {
            return;
        }
        for e in 0..self.states[at].out.len() {
            self.path.push((at, e));
            self.all::<I>(self.states[at].out[e].to);
            self.path.pop();
        }
    }
}

pub fn check<I: NodeId>(path: &str, others: bool, depth: usize, threads: usize) -> Report {
    let mut idx: HashMap<V, usize> = HashMap::new();
    let mut states: Vec<State> = Vec::new();
    let mut nests: Vec<NestProg> = Vec::new();
    let mut chains: Vec<ChainProg> = Vec::new();
    let mut first: Option<usize> = None;
    let mut intern = |v: &V, states: &mut Vec<State>| {
        *idx.entry(v.clone()).or_insert_with(|| {
            let t = v.t();
            states.push(State { f: fspec(&t[0]), root: t[1].i(), cur: t[2].i(), out: Vec::new() });
            states.len() - 1
        })
    };
    for l in &read_lines(path) {
        let t = l.t();
        match t[0].s() {
            "B" => {
                let a = intern(&t[1], &mut states);
                let to = intern(&t[6], &mut states);
                let step = cstep(t[2].s(), t[3].i(), t[4].i());
                // A call may be emitted more than once when TLC revisits a state.
                if !states[a].out.iter().any(|e| e.step == step) {
                    states[a].out.push(Edge { step, r: t[5].s().to_string(), to });
                }
            }
            "A" => first = Some(intern(&t[1], &mut states)),
            "C" => chains.push(chain_prog(t)),
            "N" => nests.push(nest_prog(t)),
            x => panic!("tool: unknown line {}", x),
        }
    }
    let mut rep = Report::default();
    let mut tasks: Vec<Vec<(usize, usize)>> = Vec::new();
    if let Some(f) = first {
        // Split by the first two calls.
        for e in 0..states[f].out.len() {
            let to = states[f].out[e].to;
            for e2 in 0..states[to].out.len() {
                tasks.push(vec![(f, e), (to, e2)]);
            }
        }
        let mut w = Walk { states: &states, first: f, others, depth: 1, rep: Report::default(), programs: 0, path: vec![] };
        w.all::<I>(f);
        rep.count("chain_programs", w.programs);
        rep.merge(w.rep);
        idle();
    }
    for p in &chains {
        let text = || format!("chain builder program of {} calls building {}", p.calls.len(), crate::report::brief(&p.f.par));
        step(&["C16"], text);
        rep.count("chain_programs", 1);
        let m = catch(|| run_calls::<I>(p)).unwrap_or_else(|| Some("panics".into()));
        ALIVE_PAYLOADS.with(|c| c.set(0));
        if let Some(m) = m {
            note(&["C16"], || format!("{}: {}", text(), m));
            rep.add(&["C16"], || format!("{}: {}", text(), m));
        }
    }
    idle();
    let cursor = AtomicUsize::new(0);
    let nc = tasks.len();
    let chunk = 64;
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, tasks, states, nests) = (&cursor, &tasks, &states, &nests);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k < nc {
                            let p = tasks[k].clone();
                            let at = states[p[1].0].out[p[1].1].to;
                            let mut w = Walk { states, first: p[0].0, others, depth, rep: Report::default(), programs: 0, path: p };
                            w.all::<I>(at);
                            rep.count("chain_programs", w.programs);
                            rep.merge(w.rep);
                            continue;
                        }
                        let lo = (k - nc) * chunk;
                        if lo >= nests.len() {
                            break;
                        }
                        for n in &nests[lo..nests.len().min(lo + chunk)] {
                            let text = || format!("nest builder program {:?}{}{}", &n.toks[..n.toks.len().min(60)], if n.toks.len() > 60 { " and so on" } else { "" }, if others { " beside other trees" } else { "" });
                            step(&["C17"], text);
                            rep.count("nest_programs", 1);
                            let m = catch(|| run_toks::<I>(n, others)).unwrap_or_else(|| Some("panics".into()));
                            ALIVE_PAYLOADS.with(|c| c.set(0));
                            if let Some(m) = m {
                                note(&["C17"], || format!("{}: {}", text(), m));
                                rep.add(&["C17"], || format!("{}: {}", text(), m));
                            }
                        }
                    }
                    idle();
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("builder_states", states.len() as u64);
    if let Some(n) = nests.last() {
        rep.samples.push(format!("nest {:?}", &n.toks[..n.toks.len().min(60)]));
    }
    if let Some(t) = tasks.last() {
        rep.samples.push(format!("chain [{}; ...]", names(&states, t)));
    }
    rep
}
