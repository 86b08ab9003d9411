//! Single steps from forests the specification gives (MCSteps): all small
//! ones and members of families of big ones, each built in several ways in the
//! real code, among other trees; every operation through every entry point.

use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{Forest, NodeId};

use crate::graph::{Graph, Trans};
use crate::lockstep::{check_step, With};
use crate::report::{catch, idle, note, prob, step, Report};
use crate::shapes::{others, plant, ALONE};
use crate::world::*;

pub struct Built<I: NodeId> {
    pub w: World<I>,
    /// Ids of other trees, per forest.
    pub beside: Vec<Vec<I>>,
}

pub fn build<I: NodeId>(f: &[FSpec], way: u64) -> Built<I> {
    let alone = way >= ALONE;
    let mut w = World::<I>::new(f.len());
    let mut beside = Vec::new();
    for (i, s) in f.iter().enumerate() {
        let before = ALIVE_PAYLOADS.with(|c| c.get());
        let n = s.par.len();
        let mut t: Forest<I, P> = Forest::new();
        let mut b = if alone { Vec::new() } else { others(&mut t) };
        let val = |x: i64| told((i as i64 + 1) * 10000 + x);
        let ids = plant(&mut t, &s.par, &s.kids, way % ALONE, |x| P::new(val(x)));
        if !alone {
            b.extend(others(&mut t));
        }
        w.f[i] = t;
        w.ids[i] = ids;
        w.vals[i] = (1..=n as i64).map(val).collect();
        w.tries[i] = 4 * n + 20;
        w.fill += ALIVE_PAYLOADS.with(|c| c.get()) - before - n as i64;
        beside.push(b);
    }
    Built { w, beside }
}

pub fn check<I: NodeId + Send + Sync>(g: &Graph, only: Option<&str>, threads: usize, ways: u64, with: With) -> Report {
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    for s in &g.begin {
        for way in 0..ways {
            jobs.push((*s, way + ALONE * ((*s as u64 + way) % 2)));
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(g.st[j.0].f[0].par.len()));
    let look = only.map_or(true, |x| x == "C21");
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs) = (&cursor, &jobs);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        let (s, way) = jobs[k];
                        one::<I>(g, s, way, look, with, &mut rep);
                    }
                    idle();
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("forests", g.begin.len() as u64);
    rep.count("spec_transitions", g.ntrans as u64);
    rep
}

fn one<I: NodeId + Send + Sync>(g: &Graph, s: usize, way: u64, look: bool, with: With, rep: &mut Report) {
    let f = &g.st[s].f;
    let look = look && f[0].par.len() <= 60;
    let text = format!("forest {} built in way {}", crate::report::brief(&f[0].par), way);
    for t in &g.st[s].trans {
        for v in 0..t.variants() {
            let first = v == 0 && std::ptr::eq(t, &g.st[s].trans[0]);
            if !step_once::<I>(g, s, t, v, way, look, first, with, &text, rep) {
                return;
            }
        }
    }
    if rep.samples.len() < 2 {
        if let Some(t) = g.st[s].trans.last() {
            rep.samples.push(format!("{} on {}", show(&t.op, 0), text));
        }
    }
}

/// One transition through one entry point, from a forest built for it; false
/// if that could not be built.
#[allow(clippy::too_many_arguments)]
pub fn step_once<I: NodeId + Send + Sync>(
    g: &Graph,
    s: usize,
    t: &Trans,
    v: usize,
    way: u64,
    look: bool,
    first: bool,
    with: With,
    text: &str,
    rep: &mut Report,
) -> bool {
    let f = &g.st[s].f;
    step(&["C01", "C02", "C09"], || text.to_string());
    let mut b = match catch(|| build::<I>(f, way)) {
        Some(b) => b,
        None => {
            rep.add(&["C02", "C09"], || format!("{}: building panics", text));
            rep.count("not_built", 1);
            ALIVE_PAYLOADS.with(|c| c.set(0));
            return false;
        }
    };
    // Is it what it was to be?
    let mut probs = Vec::new();
    for i in 0..f.len() {
        let got = project(&b.w.f[i], &b.w.ids[i]);
        let want = f[i].proj(&b.w.vals[i]);
        if got != want {
            probs.extend(compare(&got, &want, &["C02", "C09"], |_| true, &text));
        } else if look && first {
            let ids: Vec<I> = b.w.ids[i].iter().chain(&b.beside[i]).copied().collect();
            if let Some(m) = views(&mut b.w.f[i], &ids) {
                probs.push(prob(&["C21"], format!("{}: {}", text, m)));
            }
        }
    }
    if probs.is_empty() {
        let tags = op_tags(t.op.k, t.allowed);
        let what = || format!("{} on {}", show(&t.op, v), text);
        step(tags, what);
        let beside: Vec<Proj> = (0..f.len()).map(|i| project(&b.w.f[i], &b.beside[i])).collect();
        with.prepare(&mut b.w);
        probs = with.before(&mut b.w, f[0].par.len() / 12 + 1, v + way as usize);
        probs.extend(check_step(&mut b.w, g, s, t, v, f.len(), &[]));
        if !rep.viol.contains_key(with.tag()) {
            with.blame(&mut probs, || {
                let mut b = build::<I>(f, way);
                check_step(&mut b.w, g, s, t, v, f.len(), &[]).is_empty()
            });
        }
        rep.count("steps_executed", 1);
        if t.op.k != K::Copy {
            for i in 0..f.len() {
                if project(&b.w.f[i], &b.beside[i]) != beside[i] {
                    let mut tg = tags.to_vec();
                    tg.push("C20");
                    probs.push(prob(&tg, format!("a tree beside the one concerned in forest {} is affected", i + 1)));
                }
            }
        }
        if look && probs.is_empty() {
            for i in 0..f.len() {
                let ids = b.w.ids[i].clone();
                if let Some(m) = views(&mut b.w.f[i], &ids) {
                    probs.push(prob(&["C21"], m));
                }
            }
        }
        for p in &mut probs {
            p.msg = format!("{}: {}", what(), p.msg);
        }
    }
    let bad = !probs.is_empty();
    for p in probs {
        note(&p.tags, || p.msg.clone());
        rep.add(&p.tags, || p.msg.clone());
    }
    let ok = catch(|| drop(b)).is_some();
    let left = ALIVE_PAYLOADS.with(|c| c.replace(0));
    if !bad && (!ok || left != 0) {
        rep.add(&["C10"], || format!("{} on {}: {} data left after dropping the forests", show(&t.op, v), text, left));
    }
    true
}
