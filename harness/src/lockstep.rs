//! Product exploration of the implementation with the state graph of the
//! specification (Forest.tla): a node of the product is a specification state
//! together with the fingerprint of the real forests; every transition of the
//! specification is taken from every product node through every entry point.

use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

use treena::dynamic::NodeId;

use crate::graph::{Graph, Trans};
use crate::iters::{node_iters, Effort, Names, Stats};
use crate::report::{beat, catch, idle, prob, step, Prob, Report};
use crate::world::*;

/// What happens besides, and is to make no difference.
#[derive(Clone, Copy, PartialEq)]
pub enum With {
    Nothing,
    /// Everything is read before every operation.
    Reads,
    /// Callbacks work on other forests.
    Nested,
}

impl With {
    pub fn new(n: u64) -> With {
        [With::Nothing, With::Reads, With::Nested][n as usize]
    }
    /// What it is a matter of if it does make a difference.
    pub fn tag(self) -> &'static str {
        match self {
            With::Nothing => "",
            With::Reads => "C25",
            With::Nested => "C20",
        }
    }
    pub fn prepare<I: NodeId>(self, w: &mut World<I>) {
        if self == With::Nested {
            w.set_nest();
        }
    }
    pub fn before<I: NodeId>(self, w: &mut World<I>, every: usize, from: usize) -> Vec<Prob> {
        if self == With::Reads {
            w.read(every, from)
        } else {
            Vec::new()
        }
    }
    /// Problems that are not there without it.
    pub fn blame(self, probs: &mut Vec<Prob>, without: impl FnOnce() -> bool + Send) {
        if self == With::Nothing || probs.is_empty() {
            return;
        }
        idle();
        if fresh(without) {
            let why = if self == With::Reads { "if nothing is read before" } else { "if callbacks leave other forests alone" };
            let msg = format!("{} (not {})", probs[0].msg, why);
            probs.push(prob(&[self.tag()], msg));
        }
    }
}

pub struct Opts {
    pub nf: usize,
    pub threads: usize,
    /// Refused or aborted calls that left something hidden behind, per history.
    pub orphan_budget: u32,
    /// Which properties' problems are of interest (None: all); iterator work is
    /// skipped for properties that are not.
    pub only: Option<String>,
    pub iters: bool,
    /// Stop after this many product nodes (0: no limit).
    pub max_nodes: usize,
    /// Begin no further product node after this many seconds (0: no limit).
    pub secs: u64,
    /// Nodes created in front of the history, so that ids are large.
    pub filler: usize,
    /// What else happens: see With.
    pub with: With,
    /// The specification's forests have room for this many ids (0: no limit);
    /// so has the real one, by way of the filler.
    pub full: usize,
}

impl Opts {
    fn want(&self, tag: &str) -> bool {
        // Any problem that is there only because of what was read is C25's.
        self.only.as_deref().map_or(true, |x| x == tag || x == "C25")
    }
}

struct Node {
    spec: usize,
    parent: usize,
    trans: usize,
    variant: usize,
    budget: u32,
}

struct Found {
    node: usize,
    trans: usize,
    variant: usize,
    probs: Vec<Prob>,
}

struct New {
    key: (usize, u32, u128),
    parent: usize,
    trans: usize,
    variant: usize,
}

/// The nodes a structural operation may affect: the trees of the nodes it names.
fn touched_trees(op: &Op, f: &FSpec) -> Vec<bool> {
    // The root of every node, each looked up once.
    let n = f.par.len();
    let mut roots_of = vec![0i64; n];
    for k in 0..n {
        let mut way = Vec::new();
        let mut x = k as i64 + 1;
        while roots_of[x as usize - 1] == 0 && f.par[x as usize - 1] > 0 {
            way.push(x);
            x = f.par[x as usize - 1];
        }
        let r = if roots_of[x as usize - 1] == 0 { x } else { roots_of[x as usize - 1] };
        roots_of[x as usize - 1] = r;
        for y in way {
            roots_of[y as usize - 1] = r;
        }
    }
    let root = |x: i64| roots_of[x as usize - 1];
    let named: Vec<i64> = match op.k {
        K::Ins => vec![op.a[1], op.a[3]],
        K::CIns => vec![op.a[2]],
        K::Det | K::DetS | K::Rem | K::RemP | K::Set => vec![op.a[1]],
        _ => vec![],
    };
    let roots: Vec<i64> = named.into_iter().filter(|x| f.alive(*x)).map(root).collect();
    (1..=f.par.len() as i64).map(|x| f.alive(x) && roots.contains(&root(x))).collect()
}

fn names_unknown(op: &Op, f: &[FSpec]) -> bool {
    let f = &f[op.a[0] as usize - 1];
    let out = |x: i64| x < 1 || x as usize > f.par.len();
    match op.k {
        K::Ins => out(op.a[1]) || out(op.a[3]),
        K::CIns => out(op.a[2]),
        K::Root | K::Copy => false,
        _ => out(op.a[1]),
    }
}

/// How many ids can be had from one forest, and is any handed out twice?
pub fn capacity<I: NodeId>(limit: usize) -> (usize, bool) {
    let mut f: treena::dynamic::Forest<I, P> = treena::dynamic::Forest::new();
    let mut seen: HashSet<I> = HashSet::new();
    let mut twice = false;
    while seen.len() < limit {
        beat();
        match catch(|| f.create_root(P::new(0))) {
            Some(id) => {
                if !seen.insert(id) {
                    twice = true;
                    break;
                }
            }
            None => break,
        }
    }
    let n = seen.len();
    // Refused again and again.
    if n < limit && !twice {
        for _ in 0..n + 300 {
            beat();
            if let Some(id) = catch(|| f.create_root(P::new(0))) {
                if !seen.insert(id) {
                    twice = true;
                    break;
                }
            }
        }
    }
    let _ = catch(|| drop(f));
    ALIVE_PAYLOADS.with(|c| c.set(0));
    (n, twice)
}

fn push(found: &mut Vec<Found>, g: &Graph, nodes: &[Node], f: Found) {
    for p in &f.probs {
        crate::report::note(&p.tags, || {
            let last = if f.trans == usize::MAX {
                String::new()
            } else {
                show(&g.st[nodes[f.node].spec].trans[f.trans].op, f.variant)
            };
            format!("after [{}] then {}: {}", history(g, nodes, f.node), last, p.msg)
        });
    }
    found.push(f);
}

fn target(op: &Op) -> usize {
    match op.k {
        K::Clone | K::CloneP => op.a[2] as usize - 1,
        K::Copy => op.a[1] as usize - 1,
        _ => op.a[0] as usize - 1,
    }
}

fn new_world<I: NodeId>(o: &Opts) -> World<I> {
    let mut w = World::<I>::new(o.nf);
    w.fill = (o.filler * o.nf) as i64;
    for i in 0..o.nf {
        for _ in 0..o.filler {
            let _ = w.f[i].create_root(P::new(-1));
            w.tries[i] += 1;
        }
    }
    w
}

fn replay<I: NodeId>(g: &Graph, o: &Opts, nodes: &[Node], at: usize, spare: &[I], with: With) -> World<I> {
    let mut path = Vec::new();
    let mut k = at;
    while k != 0 {
        path.push(k);
        k = nodes[k].parent;
    }
    let mut w = new_world(o);
    with.prepare(&mut w);
    for k in path.iter().rev() {
        let n = &nodes[*k];
        let t = &g.st[nodes[n.parent].spec].trans[n.trans];
        beat();
        with.before(&mut w, 1, 0);
        w.apply(&t.op, t.base, n.variant, t.allowed, Some(&t.out), spare);
    }
    w
}

fn history(g: &Graph, nodes: &[Node], at: usize) -> String {
    let mut v = Vec::new();
    let mut k = at;
    while k != 0 {
        let n = &nodes[k];
        v.push(show(&g.st[nodes[n.parent].spec].trans[n.trans].op, n.variant));
        k = nodes[k].parent;
    }
    v.reverse();
    v.join("; ")
}

/// Applies one transition and compares the outcome with the specification.
pub fn check_step<I: NodeId>(w: &mut World<I>, g: &Graph, pre: usize, t: &Trans, variant: usize, nf: usize, spare: &[I]) -> Vec<Prob> {
    let tags = op_tags(t.op.k, t.allowed);
    let d = w.apply(&t.op, t.base, variant, t.allowed, Some(&t.out), spare);
    let mut probs = d.probs;
    let post = &g.st[t.post].f;
    let tgt = target(&t.op);
    for i in 0..nf {
        if w.ids[i].len() != post[i].par.len() {
            if probs.is_empty() {
                probs.push(prob(tags, format!("forest {} has handed out {} ids, expected {}", i + 1, w.ids[i].len(), post[i].par.len())));
            }
            return probs;
        }
        let got = project(&w.f[i], &w.ids[i]);
        let want = post[i].proj(&w.vals[i]);
        // C10 consistency of the bookkeeping with the data of the specification.
        let wh = format!("forest {}", i + 1);
        if i == tgt && t.op.k != K::Copy {
            let touched = touched_trees(&t.op, &g.st[pre].f[i]);
            probs.extend(compare(
                &got,
                &want,
                tags,
                |x| touched.get(x as usize - 1).copied().unwrap_or(true),
                &wh,
            ));
        } else {
            probs.extend(compare(&got, &want, tags, |_| false, &wh));
        }
    }
    let alive: i64 = post.iter().map(|f| f.par.iter().filter(|p| **p != DEAD).count() as i64).sum();
    let have = ALIVE_PAYLOADS.with(|c| c.get()) - w.fill;
    let spare_n: i64 = w.orphans.iter().sum();
    if COUNTED && (have < alive || have > alive + spare_n) {
        let mut tg = tags.to_vec();
        tg.push("C10");
        probs.push(prob(&tg, format!("{} data exist, {} nodes are alive", have, alive)));
    }
    probs
}

/// Values of the data in the specification must follow the harness's own bookkeeping.
fn data_agree(g: &Graph, s: usize, vals: &[Vec<i64>]) -> bool {
    // Equal tokens in the specification mean equal data and, where data are
    // modelled, different tokens different data.
    let mut m: HashMap<i64, i64> = HashMap::new();
    for (f, v) in g.st[s].f.iter().zip(vals) {
        for k in 0..f.par.len() {
            if f.par[k] != DEAD && *m.entry(f.data[k]).or_insert(v[k]) != v[k] {
                return false;
            }
        }
    }
    true
}

/// Runs something where nothing has been read.
pub fn fresh(f: impl FnOnce() -> bool + Send) -> bool {
    std::thread::scope(|sc| {
        sc.spawn(|| {
            let r = f();
            idle();
            r
        })
        .join()
        .expect("tool: fresh")
    })
}

/// What is wrong with the state that was reached.
fn state_problems<I: NodeId>(
    w: &mut World<I>,
    g: &Graph,
    o: &Opts,
    nodes: &[Node],
    at: usize,
    any_iter: bool,
    stats: &mut Stats,
) -> Vec<Prob> {
    let spec = nodes[at].spec;
    let mut probs = Vec::new();
    step(&["C21"], || format!("views after {}", history(g, nodes, at)));
    for i in 0..o.nf {
        let ids = w.ids[i].clone();
        if let Some(m) = views(&mut w.f[i], &ids) {
            probs.push(prob(&["C21"], m));
        }
    }
    if any_iter {
        for i in 0..o.nf {
            let n = Names::new(&w.ids[i]);
            for (x, id) in w.ids[i].iter().enumerate() {
                if let Some(t) = g.st[spec].trav[i].get(x).and_then(|t| t.as_ref()) {
                    step(&["C12", "C13", "C14", "C15"], || format!("iterators of {} after {}", x + 1, history(g, nodes, at)));
                    for (t, m) in node_iters(&w.f[i], *id, &n, t, Effort::Light, |t| o.want(t), stats) {
                        probs.push(prob(&[t], m));
                    }
                }
            }
        }
    }
    probs
}

pub fn explore<I>(g: &Graph, o: &Opts, with_data: bool) -> Report
where
    I: NodeId + Send + Sync,
{
    let mut rep = Report::default();
    let mut nodes: Vec<Node> = vec![Node { spec: g.init, parent: 0, trans: 0, variant: 0, budget: 0 }];
    let mut seen: HashSet<(usize, u32, u128)> = HashSet::new();
    let mut fps: HashMap<usize, HashSet<u128>> = HashMap::new();
    {
        let w = new_world::<I>(o);
        let fp = w.fingerprint(with_data).unwrap_or_default();
        fps.entry(g.init).or_default().insert(fp);
        seen.insert((g.init, 0, fp));
    }
    let mut found: Vec<Found> = Vec::new();
    let mut level: Vec<usize> = vec![0];
    let mut execs = 0u64;
    let (mut seqs, mut steps) = (0u64, 0u64);
    let mut taken: HashSet<(usize, usize)> = HashSet::new();
    let any_iter = o.iters && ["C12", "C13", "C14", "C15"].iter().any(|t| o.want(t));
    let asked = AtomicUsize::new(0);
    let (began, late) = (std::time::Instant::now(), AtomicBool::new(false));
    while !level.is_empty() {
        let cursor = AtomicUsize::new(0);
        let results: Vec<(Vec<Found>, Vec<New>, u64, Vec<(usize, usize)>, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..o.threads)
                .map(|_| {
                    let (cursor, level, nodes, late, asked) = (&cursor, &level, &nodes, &late, &asked);
                    s.spawn(move || {
                        let spare: Vec<I> = if o.full > 0 { Vec::new() } else { spare_ids(o.filler + 64) };
                        let mut found = Vec::new();
                        let mut news = Vec::new();
                        let mut mine: HashSet<(usize, u32, u128)> = HashSet::new();
                        let mut ex = 0u64;
                        let mut tk = Vec::new();
                        let mut stats = Stats { sequences: 0, steps: 0 };
                        loop {
                            let k = cursor.fetch_add(1, Ordering::Relaxed);
                            if k >= level.len() {
                                break;
                            }
                            if o.secs > 0 && began.elapsed().as_secs() >= o.secs {
                                late.store(true, Ordering::Relaxed);
                                break;
                            }
                            let at = level[k];
                            let spec = nodes[at].spec;
                            step(&["C01", "C02", "C04", "C05", "C06", "C07", "C09", "C11"], || history(g, nodes, at));
                            // The state itself.
                            {
                                let mut w: World<I> = replay(g, o, nodes, at, &spare, o.with);
                                if with_data && !data_agree(g, spec, &w.vals) {
                                    panic!("tool: data bookkeeping differs from the specification");
                                }
                                let mut probs = o.with.before(&mut w, 1, 0);
                                probs.extend(state_problems(&mut w, g, o, nodes, at, any_iter, &mut stats));
                                if !probs.is_empty() && asked.fetch_add(1, Ordering::Relaxed) < 100 {
                                    o.with.blame(&mut probs, || {
                                        let mut w: World<I> = replay(g, o, nodes, at, &spare, With::Nothing);
                                        state_problems(&mut w, g, o, nodes, at, any_iter, &mut Stats { sequences: 0, steps: 0 }).is_empty()
                                    });
                                }
                                if !probs.is_empty() {
                                    push(&mut found, g, nodes, Found { node: at, trans: usize::MAX, variant: 0, probs });
                                }
                                let left = catch(|| drop(w));
                                let n = ALIVE_PAYLOADS.with(|c| c.replace(0));
                                if left.is_none() || n != 0 {
                                    push(&mut found, g, nodes, Found {
                                        node: at,
                                        trans: usize::MAX,
                                        variant: 0,
                                        probs: vec![prob(&["C10"], format!("{} data left after dropping the forest", n))],
                                    });
                                }
                            }
                            // Every transition through every entry point.
                            for (ti, t) in g.st[spec].trans.iter().enumerate() {
                                // Near the limit there may be no id that was never handed out.
                                if o.full > 0 && names_unknown(&t.op, &g.st[spec].f) {
                                    continue;
                                }
                                tk.push((spec, ti));
                                for v in 0..t.variants() {
                                    ex += 1;
                                    let mut w: World<I> = replay(g, o, nodes, at, &spare, o.with);
                                    step(op_tags(t.op.k, t.allowed), || {
                                        format!("{} after {}", show(&t.op, v), history(g, nodes, at))
                                    });
                                    let mut probs = o.with.before(&mut w, 1, 0);
                                    probs.extend(check_step(&mut w, g, spec, t, v, o.nf, &spare));
                                    if !probs.is_empty() && asked.fetch_add(1, Ordering::Relaxed) < 100 {
                                    o.with.blame(&mut probs, || {
                                            let mut w: World<I> = replay(g, o, nodes, at, &spare, With::Nothing);
                                            check_step(&mut w, g, spec, t, v, o.nf, &spare).is_empty()
                                        });
                                    }
                                    if !probs.is_empty() {
                                        push(&mut found, g, nodes, Found { node: at, trans: ti, variant: v, probs });
                                        let _ = catch(|| drop(w));
                                        ALIVE_PAYLOADS.with(|c| c.set(0));
                                        continue;
                                    }
                                    let fp = w.fingerprint(with_data);
                                    let _ = catch(|| drop(w));
                                    let left = ALIVE_PAYLOADS.with(|c| c.replace(0));
                                    if left != 0 {
                                        push(&mut found, g, nodes, Found {
                                            node: at,
                                            trans: ti,
                                            variant: v,
                                            probs: vec![prob(&["C10"], format!("{} data left after dropping the forest", left))],
                                        });
                                        continue;
                                    }
                                    let fp = match fp {
                                        Some(fp) => fp,
                                        None => continue,
                                    };
                                    // What a refused creation or an aborted clone leaves behind is
                                    // hidden; histories may contain a bounded number of those.
                                    let hidden = matches!(t.op.k, K::CIns | K::CloneP | K::Root | K::Clone) && t.allowed & OK == 0;
                                    // Where ids are scarce, what is left behind matters, and what it
                                    // is is not specified; when none was left, nothing can be.
                                    let scarce = o.full > 0 && g.st[spec].f.iter().any(|f| f.par.len() < o.full);
                                    if (hidden || o.full > 0 && t.op.k == K::Clone && t.allowed & OK == 0) && scarce {
                                        continue;
                                    }
                                    let budget = nodes[at].budget + hidden as u32;
                                    if budget <= o.orphan_budget && mine.insert((t.post, budget, fp)) {
                                        news.push(New { key: (t.post, budget, fp), parent: at, trans: ti, variant: v });
                                    }
                                }
                            }
                        }
                        idle();
                        (found, news, ex, tk, stats.sequences, stats.steps)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
        });
        let mut next = Vec::new();
        for (f, news, ex, tk, sq, sp) in results {
            found.extend(f);
            execs += ex;
            seqs += sq;
            steps += sp;
            taken.extend(tk);
            for n in news {
                // A refused call that left nothing behind leads to a node already seen.
                let mut dup = false;
                for b in 0..=n.key.1 {
                    if seen.contains(&(n.key.0, b, n.key.2)) {
                        dup = true;
                    }
                }
                if dup || (o.max_nodes > 0 && nodes.len() >= o.max_nodes) {
                    continue;
                }
                if n.key.1 == 0 {
                    fps.entry(n.key.0).or_default().insert(n.key.2);
                }
                nodes.push(Node { spec: n.key.0, parent: n.parent, trans: n.trans, variant: n.variant, budget: n.key.1 });
                seen.insert(n.key);
                next.push(nodes.len() - 1);
            }
        }
        level = next;
    }
    // Attribution: an operation that led to a state in which the real forest
    // differs from other histories to the same specification state may be the
    // cause of what goes wrong later.
    for f in &found {
        let mut extra: Vec<&'static str> = Vec::new();
        let mut k = f.node;
        while k != 0 {
            let n = &nodes[k];
            if fps.get(&n.spec).map_or(0, |s| s.len()) > 1 {
                let t = &g.st[nodes[n.parent].spec].trans[n.trans];
                extra.extend(op_tags(t.op.k, t.allowed));
                extra.push("C01");
            }
            k = n.parent;
        }
        for p in &f.probs {
            let mut tags = p.tags.clone();
            tags.extend(&extra);
            rep.add(&tags, || {
                let h = history(g, &nodes, f.node);
                if f.trans == usize::MAX {
                    format!("after [{}]: {}", h, p.msg)
                } else {
                    let t = &g.st[nodes[f.node].spec].trans[f.trans];
                    format!("after [{}] then {}: {}", h, show(&t.op, f.variant), p.msg)
                }
            });
        }
    }
    rep.count("spec_states", g.st.len() as u64);
    rep.count("spec_transitions", g.ntrans as u64);
    rep.count("spec_transitions_taken", taken.len() as u64);
    rep.count("product_nodes", nodes.len() as u64);
    rep.count("product_nodes_with_hidden_leftovers", nodes.iter().filter(|n| n.budget > 0).count() as u64);
    rep.count("steps_executed", execs);
    rep.count("cut_short", late.load(Ordering::Relaxed) as u64);
    rep.count("hidden_variants", fps.values().filter(|s| s.len() > 1).count() as u64);
    rep.count("iterator_sequences", seqs);
    rep.count("iterator_steps", steps);
    for k in [nodes.len() / 3, nodes.len() / 2, nodes.len() - 1] {
        rep.samples.push(history(g, &nodes, k));
    }
    rep
}
