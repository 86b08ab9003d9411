//! One proxy (`NodeMut`) held over several operations: everything that can be
//! done through it in a row, from every forest of the state graph without
//! removed nodes, for every node.  After each operation the proxy and the
//! forest seen through it must be what the specification says.

use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{NodeId, NodeMut};

use crate::graph::{Graph, Trans};
use crate::report::{catch, idle, note, prob, step as at, Prob, Report};
use crate::shapes::ALONE;
use crate::steps::build;
use crate::world::*;

/// A transition that can be taken through a proxy of y, and the entry point
/// (1: the panicking one).
fn through(g: &Graph, s: usize, y: i64) -> Vec<(usize, usize)> {
    let n = g.st[s].f[0].par.len() as i64;
    let mut v = Vec::new();
    for (k, t) in g.st[s].trans.iter().enumerate() {
        let a = t.op.a;
        match t.op.k {
            K::CIns if a[2] == y => v.push((k, 0)),
            K::Ins if a[3] == y && a[1] >= 1 && a[1] <= n => v.extend([(k, 0), (k, 1)]),
            K::Det | K::DetS if a[1] == y => v.push((k, 0)),
            _ => (),
        }
    }
    v
}

/// The removal of y.
fn removal(g: &Graph, s: usize, y: i64) -> Option<&Trans> {
    g.st[s].trans.iter().find(|t| t.op.k == K::Rem && t.op.a[1] == y)
}

/// What is wrong after one operation through the proxy.
fn one<I: NodeId>(m: &mut NodeMut<'_, I, P>, t: &Trans, v: usize, y: i64, want: &FSpec, ids: &mut Vec<I>, vals: &mut Vec<i64>) -> Vec<Prob> {
    let tags = op_tags(t.op.k, t.allowed);
    let id = |x: i64| ids[x as usize - 1];
    let a = t.op.a;
    let reply = match t.op.k {
        K::CIns => {
            let datum = told(7000 + ids.len() as i64);
            match catch(|| m.create(P::new(datum), adopt_as(a[1]))) {
                Some(new) if ids.contains(&new) => return vec![prob(&["C08", "C09"], "the id handed out is in use".into())],
                Some(new) => {
                    ids.push(new);
                    vals.push(datum);
                    OK
                }
                None => PANIC,
            }
        }
        K::Ins if v == 0 => of_result(catch(|| m.try_adopt(id(a[1]), adopt_as(a[2])))),
        K::Ins => match catch(|| m.adopt(id(a[1]), adopt_as(a[2]))) {
            Some(()) => OK,
            None if t.allowed != OK => t.allowed & !OK,
            None => PANIC,
        },
        K::Det => of_result(catch(|| m.detach()).map(Ok)),
        _ => of_result(catch(|| m.detach_single())),
    };
    if reply & t.allowed == 0 {
        return vec![prob(tags, format!("the reply is {}, allowed is {}", reply_name(reply), reply_name(t.allowed)))];
    }
    let id = ids[y as usize - 1];
    // What is written through it is there, too.
    let mut probs = Vec::new();
    let old = vals[y as usize - 1];
    if catch(|| m.data().v()) != Some(old) {
        probs.push(prob(&["C10"], "the proxy reads another datum".into()));
    }
    let new = told(old + 100);
    if catch(|| *m.data_mut() = P::new(new)).is_none() {
        probs.push(prob(&["C10"], "writing through the proxy panics".into()));
    }
    vals[y as usize - 1] = new;
    probs.extend(compare(&project(m.forest(), ids), &want.proj(vals), tags, |_| true, &"through the proxy"));
    if probs.is_empty() {
        let r = catch(|| {
            let n = m.forest().node(id).ok_or("the node is not found")?;
            if m.id() != id || m.node().id() != id {
                return Err("the proxy has another id");
            }
            if m.data().v() != new || m.node().data().v() != new {
                return Err("the proxy reads another datum");
            }
            if nb(m.node()) != nb(n) {
                return Err("the proxy reports other neighbours");
            }
            if m.debug_print().to_string() != n.debug_print().to_string() {
                return Err("the proxy prints another tree");
            }
            Ok(())
        });
        match r {
            None => probs.push(prob(&["C21"], "an accessor of the proxy panics".into())),
            Some(Err(e)) => probs.push(prob(&["C21"], e.into())),
            Some(Ok(())) => (),
        }
    }
    probs
}

/// Runs a sequence, through one proxy or through one for each operation.
fn run<I: NodeId>(g: &Graph, s: usize, y: i64, seq: &[(usize, usize)], way: u64, end: usize, held: bool) -> Vec<Prob> {
    let mut b = build::<I>(&g.st[s].f, way);
    let (ids, vals, f) = (&mut b.w.ids[0], &mut b.w.vals[0], &mut b.w.f[0]);
    let yid = ids[y as usize - 1];
    if project(f, ids) != g.st[s].f[0].proj(vals) {
        return vec![prob(&["C02", "C09"], "the forest is not built as asked".into())];
    }
    let beside = project(f, &b.beside[0]);
    let none = || vec![prob(&["C08", "C21"], "there is no proxy of a live node".into())];
    let mut cur = s;
    {
        let mut m = match catch(|| f.node_mut(yid)).flatten() {
            Some(m) => m,
            None => return none(),
        };
        for (i, (k, v)) in seq.iter().enumerate() {
            if !held && i > 0 {
                m = match catch(|| f.node_mut(yid)).flatten() {
                    Some(m) => m,
                    None => return none(),
                };
            }
            let t = &g.st[cur].trans[*k];
            cur = t.post;
            let p = one(&mut m, t, *v, y, &g.st[cur].f[0], ids, vals);
            if !p.is_empty() {
                return p;
            }
        }
        if !held {
            m = match catch(|| f.node_mut(yid)).flatten() {
                Some(m) => m,
                None => return none(),
            };
        }
        // The end of the proxy.
        let mut probs = Vec::new();
        match (end % 6, removal(g, cur, y)) {
            (k @ 0..=2, Some(t)) => {
                let want: Vec<i64> = t.out.iter().map(|x| vals[*x as usize - 1]).collect();
                cur = t.post;
                let mut got = Vec::new();
                let r = match k {
                    0 => catch(|| m.remove()),
                    1 => catch(|| m.remove_hooked(|p: P| got.push(p.v()))),
                    _ => catch(|| m.remove_hooked_panic_safe(|p: P| got.push(p.v()))),
                };
                if r.is_none() {
                    probs.push(prob(&["C06"], "removing through the proxy panics".into()));
                } else if k > 0 && got != want {
                    probs.push(prob(&["C06", "C10"], format!("data handed to the hook: {:?}, expected {:?}", got, want)));
                }
            }
            (3, _) => match catch(|| {
                let n = m.into_node();
                (n.id() == yid, n.data().v() == vals[y as usize - 1], nb(n) == nb(n.forest().node(yid).expect("live")))
            }) {
                Some((true, true, true)) => (),
                x => probs.push(prob(&["C21"], format!("into_node(): id, datum, neighbours are right: {:?}", x))),
            },
            (4, _) => {
                if catch(|| m.into_data_ref_mut().v()) != Some(vals[y as usize - 1]) {
                    probs.push(prob(&["C10", "C21"], "into_data_ref_mut() gives another datum".into()));
                }
            }
            _ => (),
        }
        if !probs.is_empty() {
            return probs;
        }
    }
    let tags: &[&'static str] = if end % 6 < 3 { &["C06"] } else { &["C21"] };
    let mut probs = compare(&project(f, ids), &g.st[cur].f[0].proj(vals), tags, |_| true, &"in the end");
    if project(f, &b.beside[0]) != beside {
        probs.push(prob(&["C20"], "a tree beside the one concerned is affected".into()));
    }
    probs
}

fn sequences(g: &Graph, s: usize, y: i64, depth: usize, seq: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)])) {
    let next = if depth > 0 { through(g, s, y) } else { Vec::new() };
    if next.is_empty() {
        f(seq);
        return;
    }
    for (k, v) in next {
        seq.push((k, v));
        sequences(g, g.st[s].trans[k].post, y, depth - 1, seq, f);
        seq.pop();
    }
}

/// Sequences of `depth` operations from forests of up to 3 nodes, of one less from bigger ones.
pub fn check<I: NodeId + Send + Sync>(g: &Graph, threads: usize, depth: usize) -> Report {
    let mut jobs = Vec::new();
    for (s, st) in g.st.iter().enumerate() {
        let f = &st.f[0];
        if st.f.len() == 1 && !f.par.is_empty() && (1..=f.par.len() as i64).all(|x| f.alive(x)) {
            for y in 1..=f.par.len() as i64 {
                jobs.push((s, y, if f.par.len() <= 3 { depth } else { depth - 1 }));
            }
        }
    }
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs) = (&cursor, &jobs);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= jobs.len() {
                            break;
                        }
                        let (s, y, depth) = jobs[k];
                        let mut count = k;
                        sequences(g, s, y, depth, &mut Vec::new(), &mut |seq| {
                            count += 1;
                            try_out::<I>(g, s, y, seq, count, &mut rep);
                        });
                    }
                    idle();
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("spec_transitions", g.ntrans as u64);
    rep
}

fn try_out<I: NodeId>(g: &Graph, s: usize, y: i64, seq: &[(usize, usize)], count: usize, rep: &mut Report) {
    let way = count as u64 % 4 + ALONE * (count as u64 / 4 % 2);
    let text = || {
        let mut t = format!("through one proxy of {} in forest {} built in way {}:", y, crate::report::brief(&g.st[s].f[0].par), way);
        let mut cur = s;
        for (k, v) in seq {
            t += &format!(" {}", show(&g.st[cur].trans[*k].op, *v));
            cur = g.st[cur].trans[*k].post;
        }
        t + &format!(", end {}", count % 6)
    };
    at(&["C21"], text);
    let go = |held| catch(|| run::<I>(g, s, y, seq, way, count, held)).unwrap_or_else(|| vec![prob(&["C21"], "panics".into())]);
    let probs = go(true);
    let left = ALIVE_PAYLOADS.with(|c| c.replace(0));
    rep.count("proxies_held", 1);
    rep.count("steps_executed", seq.len() as u64);
    if probs.is_empty() {
        if left != 0 {
            rep.add(&["C10"], || format!("{}: {} data left after dropping the forest", text(), left));
        }
        if rep.samples.is_empty() {
            rep.samples.push(text());
        }
        return;
    }
    // Is it due to holding it?
    let alone = go(false).is_empty();
    ALIVE_PAYLOADS.with(|c| c.set(0));
    for p in probs {
        let mut t = p.tags.clone();
        if alone {
            t.push("C21");
        }
        let m = || format!("{}: {}{}", text(), p.msg, if alone { " (not with a new proxy for each)" } else { "" });
        note(&t, m);
        rep.add(&t, m);
    }
}
