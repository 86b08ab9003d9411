//! Trees the specification emitted (MCShapes), built in the real code in
//! several ways; every iterator from every node for which the specification
//! gives the expected sequences.

use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{Forest, InsertAs, NodeId};

use crate::graph::{read_lines, trav, Trav};
use crate::iters::{node_iters, Effort, Names, Stats};
use crate::report::{beat, catch, idle, step, Report};
use crate::val::V;
use crate::world::P;
use crate::Rng;

/// Added to a way of building.
pub const ALONE: u64 = 4;

pub struct Shape {
    pub par: Vec<i64>,
    pub kids: Vec<Vec<i64>>,
    pub trav: Vec<Option<Trav>>,
}

pub fn shape(t: &[V]) -> Shape {
    assert!(t[0].s() == "I", "tool: shapes");
    Shape {
        par: t[2].ints(),
        kids: t[3].t().iter().map(V::ints).collect(),
        trav: t[4].t().iter().map(trav).collect(),
    }
}

pub fn load(path: &str) -> Vec<Shape> {
    read_lines(path).iter().map(|l| shape(l.t())).collect()
}

/// Preorder names.
pub fn order(par: &[i64], kids: &[Vec<i64>]) -> Vec<i64> {
    let mut out = Vec::new();
    let mut stack: Vec<i64> = (1..=par.len() as i64).filter(|x| par[*x as usize - 1] == 0).collect();
    while let Some(x) = stack.pop() {
        out.push(x);
        stack.extend(kids[x as usize - 1].iter().rev());
    }
    out
}

/// Builds the shape: 0 in document order, appending; 1 from single roots,
/// prepending, the ids running against the document order; 2 from single roots
/// in a random order, each moved beside a sibling that is already there; 3 with
/// detours: nodes that are removed again, and each node moved twice.
/// Other trees stand before and after it, if it is not built ALONE.
pub fn build<I: NodeId>(s: &Shape, way: u64, label: impl Fn(i64) -> P) -> (Forest<I, P>, Vec<I>) {
    let mut f = Forest::new();
    if way < ALONE {
        others(&mut f);
    }
    let ids = plant(&mut f, &s.par, &s.kids, way % ALONE, label);
    if way < ALONE {
        others(&mut f);
    }
    (f, ids)
}

/// A tree that is not part of what is looked at.
pub fn others<I: NodeId>(f: &mut Forest<I, P>) -> Vec<I> {
    let r = f.create_root(P::new(0));
    let mut ids = vec![r];
    for _ in 0..2 {
        let c = f.create_insert(P::new(0), InsertAs::LastChildOf(r));
        ids.push(c);
        ids.push(f.create_insert(P::new(0), InsertAs::LastChildOf(c)));
    }
    ids
}

pub fn plant<I: NodeId>(f: &mut Forest<I, P>, par: &[i64], kids: &[Vec<i64>], way: u64, label: impl Fn(i64) -> P) -> Vec<I> {
    let n = par.len();
    let mut ids: Vec<Option<I>> = vec![None; n];
    let ord = order(par, kids);
    match way {
        0 => {
            for x in &ord {
                let p = par[*x as usize - 1];
                ids[*x as usize - 1] = Some(match p {
                    0 => f.create_root(label(*x)),
                    p => f.create_insert(label(*x), InsertAs::LastChildOf(ids[p as usize - 1].expect("tool: order"))),
                });
            }
        }
        1 => {
            for x in ord.iter().rev() {
                let id = f.create_root(label(*x));
                ids[*x as usize - 1] = Some(id);
                for c in kids[*x as usize - 1].iter().rev() {
                    f.insert(ids[*c as usize - 1].expect("tool: order"), InsertAs::FirstChildOf(id)).expect("insert");
                }
            }
        }
        3 => {
            let far = f.create_root(P::new(0));
            for x in &ord {
                let p = par[*x as usize - 1];
                let tmp = f.create_insert(P::new(0), InsertAs::LastChildOf(far));
                let id = f.create_insert(label(*x), InsertAs::PreviousSiblingOf(tmp));
                ids[*x as usize - 1] = Some(id);
                if p == 0 {
                    f.insert(tmp, InsertAs::LastChildOf(id)).expect("insert");
                    f.detach(id);
                } else {
                    let p = ids[p as usize - 1].expect("tool: order");
                    f.insert(tmp, InsertAs::FirstChildOf(p)).expect("insert");
                    f.insert(id, InsertAs::PreviousSiblingOf(tmp)).expect("insert");
                    f.insert(id, InsertAs::LastChildOf(p)).expect("insert");
                }
                f.remove(tmp);
            }
            f.remove(far);
        }
        w => {
            let mut r = Rng(w * 977 + n as u64);
            let mut todo = ord.clone();
            for k in (1..todo.len()).rev() {
                todo.swap(k, r.below(k as u64 + 1) as usize);
            }
            for x in &todo {
                ids[*x as usize - 1] = Some(f.create_root(label(*x)));
            }
            let mut done = vec![false; n];
            for x in &todo {
                let p = par[*x as usize - 1];
                if p == 0 {
                    continue;
                }
                let me = ids[*x as usize - 1].expect("tool: order");
                let sib = &kids[p as usize - 1];
                let k = sib.iter().position(|y| y == x).expect("tool: shape");
                let before = sib[..k].iter().rev().find(|y| done[**y as usize - 1]);
                let after = sib[k..].iter().find(|y| done[**y as usize - 1]);
                let id = |y: &i64| ids[*y as usize - 1].expect("tool: order");
                let at = match (before, after) {
                    (Some(b), Some(a)) => {
                        if r.below(2) == 0 {
                            InsertAs::NextSiblingOf(id(b))
                        } else {
                            InsertAs::PreviousSiblingOf(id(a))
                        }
                    }
                    (Some(b), None) => {
                        if r.below(2) == 0 {
                            InsertAs::NextSiblingOf(id(b))
                        } else {
                            InsertAs::LastChildOf(id(&p))
                        }
                    }
                    (None, Some(a)) => {
                        if r.below(2) == 0 {
                            InsertAs::PreviousSiblingOf(id(a))
                        } else {
                            InsertAs::FirstChildOf(id(&p))
                        }
                    }
                    (None, None) => InsertAs::LastChildOf(id(&p)),
                };
                f.insert(me, at).expect("insert");
                done[*x as usize - 1] = true;
            }
        }
    }
    ids.into_iter().map(|x| x.expect("tool: shape")).collect()
}

pub fn check<I: NodeId>(shapes: &[Shape], small: usize, only: Option<&str>, threads: usize, ways: u64) -> Report {
    let jobs: Vec<(usize, u64, usize)> = {
        let mut v: Vec<(usize, u64, usize)> = Vec::new();
        for (k, s) in shapes.iter().enumerate() {
            for way in 0..ways {
                for x in 0..s.par.len() {
                    if s.trav[x].is_some() {
                        v.push((k, way + ALONE * ((k as u64 + way) % 2), x));
                    }
                }
            }
        }
        v.sort_by_key(|j| std::cmp::Reverse(shapes[j.0].par.len()));
        v
    };
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let want = |t: &str| only.map_or(true, |x| x == t);
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs) = (&cursor, &jobs);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    let mut stats = Stats { sequences: 0, steps: 0 };
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        let (si, way, x) = jobs[k];
                        let s = &shapes[si];
                        let text = || format!("tree {} built in way {}", crate::report::brief(&s.par), way);
                        step(&["C02", "C09"], text);
                        beat();
                        let (f, ids) = match catch(|| build::<I>(s, way, P::new)) {
                            Some(b) => b,
                            None => {
                                // Not for these properties to judge.
                                rep.add(&["C02", "C09"], || format!("{}: building panics", text()));
                                rep.count("not_built", 1);
                                continue;
                            }
                        };
                        let n = Names::new(&ids);
                        step(&["C12", "C13", "C14", "C15"], text);
                        let effort = if s.par.len() <= small { Effort::All } else { Effort::Long(k as u64 * 31 + 7) };
                        let t = s.trav[x].as_ref().expect("tool: shapes");
                        for (tag, m) in node_iters(&f, ids[x], &n, t, effort, want, &mut stats) {
                            crate::report::note(&[tag], || format!("{}: {}", text(), m));
                            rep.add(&[tag], || format!("{}: {}", text(), m));
                        }
                        rep.count("start_nodes", 1);
                    }
                    idle();
                    rep.count("iterator_sequences", stats.sequences);
                    rep.count("iterator_steps", stats.steps);
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("trees", shapes.len() as u64);
    rep.samples.push(format!("tree {:?} from every node", shapes[shapes.len() - 1].par));
    rep
}
