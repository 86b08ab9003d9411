//! Sustained use (MCDrills): behaviours of hundreds of steps, each carried out
//! on one forest in the real code, in several ways.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::NodeId;

use crate::graph::{fspec, read_lines, trans, trav, Graph, St, Trans, Trav};
use crate::iters::{node_iters, Effort, Names, Stats};
use crate::lockstep::{check_step, fresh, With};
use crate::report::{beat, brief, catch, idle, note, prob, step, Prob, Report};
use crate::steps::build;
use crate::val::V;
use crate::shapes::ALONE;
use crate::world::*;

struct Drill {
    name: String,
    begin: Vec<FSpec>,
    /// By number: the lines of the steps.
    steps: BTreeMap<i64, V>,
    /// Traversals expected after so many steps, by node.
    looks: BTreeMap<i64, Vec<(i64, Trav)>>,
}

fn load(path: &str) -> Vec<Drill> {
    let mut m: BTreeMap<i64, Drill> = BTreeMap::new();
    let lines = read_lines(path);
    for l in &lines {
        let t = l.t();
        if t[0].s() == "B" {
            m.insert(
                t[1].i(),
                Drill {
                    name: t[2].s().to_string(),
                    begin: t[3].t().iter().map(fspec).collect(),
                    steps: BTreeMap::new(),
                    looks: BTreeMap::new(),
                },
            );
        }
    }
    for l in lines {
        let t = l.t();
        let (d, k) = (t[1].i(), || t[2].i());
        match t[0].s() {
            "D" => {
                let d = m.get_mut(&d).expect("tool: drill");
                let k = k();
                d.steps.insert(k, l);
            }
            "V" => {
                let e = (t[3].i(), trav(&t[4]).expect("tool: drill"));
                m.get_mut(&d).expect("tool: drill").looks.entry(k()).or_default().push(e);
            }
            _ => {}
        }
    }
    let v: Vec<Drill> = m.into_values().collect();
    for d in &v {
        assert!(d.steps.keys().copied().eq(0..d.steps.len() as i64), "tool: drill {} has gaps", d.name);
        assert!(!d.steps.is_empty(), "tool: drill {} is empty", d.name);
    }
    v
}

/// A forest given as what differs from another one.
fn patched(f: &FSpec, d: &V) -> FSpec {
    let mut g = f.clone();
    let d = d.t();
    let n = d[0].i() as usize;
    g.par.resize(n, 0);
    g.kids.resize(n, Vec::new());
    g.data.resize(n, 0);
    for e in d[1].t() {
        let e = e.t();
        let y = e[0].i() as usize - 1;
        g.par[y] = e[1].i();
        g.kids[y] = e[2].ints();
        g.data[y] = e[3].i();
    }
    g
}

fn pick(t: &Trans, k: i64, pass: u64) -> usize {
    let n = t.variants() as i64;
    (match pass {
        0 => 0,
        1 => n - 1,
        2 => k % n,
        p => (k * 5 + k / 7 + p as i64) % n,
    }) as usize
}

fn run<I: NodeId>(d: &Drill, pass: u64, alone: u64, with: With, want: &dyn Fn(&str) -> bool, rep: &mut Report) {
    let text = format!("drill \"{}\" from {} built in way {}", d.name, brief(&d.begin[0].par), pass + alone);
    step(&["C01", "C02", "C09"], || text.clone());
    let mut b = match catch(|| build::<I>(&d.begin, pass + alone)) {
        Some(b) => b,
        None => {
            rep.add(&["C02", "C09"], || format!("{}: building panics", text));
            ALIVE_PAYLOADS.with(|c| c.set(0));
            return;
        }
    };
    with.prepare(&mut b.w);
    let nf = d.begin.len();
    let beside: Vec<Proj> = (0..nf).map(|i| project(&b.w.f[i], &b.beside[i])).collect();
    // Whatever was done before may be what something goes wrong for.
    let mut all: Vec<&'static str> = Vec::new();
    let mut copied = false;
    let mut cur = d.begin.clone();
    let mut probs: Vec<Prob> = Vec::new();
    let mut at = String::new();
    for (k, l) in &d.steps {
        let t = l.t();
        let post: Vec<FSpec> = cur.iter().zip(t[7].t()).map(|(f, x)| patched(f, x)).collect();
        let tr = trans(&t[3], &t[4], &t[5], &t[6], &cur, 1);
        let v = pick(&tr, *k, pass);
        let tags = op_tags(tr.op.k, tr.allowed);
        for x in tags {
            if !all.contains(x) {
                all.push(x);
            }
        }
        copied |= tr.op.k == K::Copy;
        at = format!("step {} ({}) of {}", k + 1, show(&tr.op, v), text);
        step(&all, || at.clone());
        let st = |f: Vec<FSpec>| St { f, trans: Vec::new(), trav: Vec::new() };
        let g = Graph { st: vec![st(cur), st(post)], init: 0, begin: Vec::new(), ntrans: 1 };
        probs = with.before(&mut b.w, g.st[0].f[0].par.len() / 12 + 1, *k as usize);
        probs.extend(check_step(&mut b.w, &g, 0, &tr, v, nf, &[]));
        cur = g.st.into_iter().nth(1).expect("tool").f;
        rep.count("steps_executed", 1);
        if !probs.is_empty() {
            break;
        }
        let last = *k as usize + 1 == d.steps.len();
        if (last || *k % 100 == 99) && !copied {
            for i in 0..nf {
                if project(&b.w.f[i], &b.beside[i]) != beside[i] {
                    probs.push(prob(&["C20"], format!("a tree beside those concerned in forest {} is affected", i + 1)));
                }
            }
        }
        if last && pass < 2 && want("C21") && b.w.ids.iter().all(|v| v.len() <= 700) {
            for i in 0..nf {
                let ids = b.w.ids[i].clone();
                if let Some(m) = views(&mut b.w.f[i], &ids) {
                    probs.push(prob(&["C21"], m));
                }
            }
        }
        if let Some(look) = d.looks.get(&(k + 1)) {
            let n = Names::new(&b.w.ids[0]);
            let mut stats = Stats { sequences: 0, steps: 0 };
            for (x, t) in look {
                step(&["C12", "C13", "C14", "C15"], || format!("iterators of {} after {}", x, at));
                for (tag, m) in node_iters(&b.w.f[0], b.w.ids[0][*x as usize - 1], &n, t, Effort::Light, want, &mut stats) {
                    probs.push(prob(&[tag], m));
                }
            }
            rep.count("iterator_sequences", stats.sequences);
        }
        if !probs.is_empty() {
            break;
        }
    }
    let bad = !probs.is_empty();
    for p in probs {
        let mut tags = p.tags;
        tags.extend(&all);
        tags.push("C01");
        note(&tags, || format!("{}: {}", at, p.msg));
        rep.add(&tags, || format!("{}: {}", at, p.msg));
    }
    let ok = catch(|| drop(b)).is_some();
    let left = ALIVE_PAYLOADS.with(|c| c.replace(0));
    if !bad && (!ok || left != 0) {
        rep.add(&["C10"], || format!("{}: {} data left after dropping the forests", text, left));
    }
    rep.count("drills", 1);
    beat();
}

pub fn check<I: NodeId + Send + Sync>(path: &str, only: Option<&str>, threads: usize, passes: u64, with: With) -> Report {
    let drills = load(path);
    // Without other trees around for one half of the passes.
    let alone = |p: u64| if p >= if passes > 4 { 4 } else { 2 } { ALONE } else { 0 };
    let mut jobs: Vec<(&Drill, u64)> = drills.iter().flat_map(|d| (0..passes).map(move |p| (d, p))).collect();
    jobs.sort_by_key(|(d, _)| std::cmp::Reverse(d.steps.len() * d.begin[0].par.len()));
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs, alone) = (&cursor, &jobs, &alone);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    let want = |t: &str| only.map_or(true, |x| x == t || x == "C25");
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        let (pass, alone) = (jobs[k].1 % 4, alone(jobs[k].1));
                        if with == With::Nothing {
                            run::<I>(jobs[k].0, pass, alone, With::Nothing, &want, &mut rep);
                            continue;
                        }
                        let mut mine = Report::default();
                        run::<I>(jobs[k].0, pass, alone, with, &want, &mut mine);
                        if let Some(m) = mine.viol.values().next().map(|v| v.1[0].clone()) {
                            idle();
                            let d = jobs[k].0;
                            let fine = fresh(|| {
                                let mut r = Report::default();
                                run::<I>(d, pass, alone, With::Nothing, &|_| true, &mut r);
                                r.viol.is_empty()
                            });
                            if fine {
                                let m = format!("{} (not if nothing happens in between)", m);
                                note(&[with.tag()], || m.clone());
                                mine.add(&[with.tag()], || m);
                            }
                        }
                        rep.merge(mine);
                    }
                    idle();
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    for d in drills.iter().take(3) {
        rep.samples.push(format!("drill \"{}\" of {} steps from {}", d.name, d.steps.len(), brief(&d.begin[0].par)));
    }
    rep
}
