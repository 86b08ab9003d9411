//! Readers that share forests (Readers): whatever the order in which several
//! iterators, accessors and printings of one forest or of two take their steps,
//! each yields what it yields alone, and the forests stay what they are.

use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{
    AllocatingBreadthFirstTraverse, Ancestors, BreadthFirstTraverse, DepthFirstTraverse, Forest, NodeId,
    ShallowDepthFirstTraverse, Siblings,
};

use crate::graph::{read_lines, Trav};
use crate::iters::{It, Item, Names};
use crate::report::{beat, brief, catch, idle, note, step, Report};
use crate::shapes::{build, Shape};
use crate::world::{project, Proj, P};

/// Takes so much text and refuses more.
struct Some_(String, usize);
impl Write for Some_ {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// One step of looking at a node by accessors and by printing.
pub fn glance<I: NodeId>(f: &Forest<I, P>, id: I, n: &Names<I>) -> i64 {
    let mut h = 17i64;
    let mut eat = |v: i64| h = (h ^ v).wrapping_mul(0x5851_F42D_4C95_7F2D).rotate_left(29);
    let o = |x: Option<I>| x.map_or(0, |x| n.of(x));
    if let Some(m) = f.node(id) {
        for x in [m.parent_id(), m.prev_sibling_id(), m.next_sibling_id(), m.first_child_id(), m.last_child_id()] {
            eat(o(x));
        }
        for x in [m.parent(), m.prev_sibling(), m.next_sibling(), m.first_child(), m.last_child()] {
            eat(x.map_or(0, |x| n.of(x.id()) + x.data().v()));
        }
        eat(m.first_last_child_id().map_or(0, |(a, b)| n.of(a) * 100 + n.of(b)));
        eat(m.data().v());
        eat(f.data(id).map_or(0, |d| d.v()));
        let mut s = Some_(String::new(), 2000);
        let _ = write!(s, "{}{:?}", m.debug_print(), f.debug_print(id));
        for b in s.0.bytes() {
            eat(b as i64);
        }
    } else {
        eat(-1);
    }
    h
}

pub enum Reader<'a, I: NodeId> {
    Dft(DepthFirstTraverse<'a, I, P>),
    Shallow(ShallowDepthFirstTraverse<'a, I, P>),
    Bft(BreadthFirstTraverse<'a, I, P>),
    Abft(AllocatingBreadthFirstTraverse<'a, I, P>),
    Anc(Ancestors<'a, I, P>),
    Sib(Siblings<'a, I, P>),
    /// Looks at one node after the other, over and over.
    Looker(&'a Forest<I, P>, &'a [I], usize),
}

const KINDS: usize = 14;
const NAMES: [&str; KINDS] = [
    "depth_first_traverse()",
    "shallow_depth_first_traverse(None)",
    "shallow_depth_first_traverse(Some(0))",
    "shallow_depth_first_traverse(Some(1))",
    "breadth_first_traverse()",
    "allocating_breadth_first_traverse()",
    "ancestors_or_self()",
    "ancestors()",
    "children()",
    "following_siblings()",
    "following_siblings_or_self()",
    "preceding_siblings()",
    "preceding_siblings_or_self()",
    "accessors and printing",
];
const LOOKER: usize = 13;

fn make<'a, I: NodeId>(f: &'a Forest<I, P>, ids: &'a [I], x: usize, kind: usize) -> Reader<'a, I> {
    let id = ids[x];
    let n = || f.node(id).expect("live");
    use Reader::*;
    match kind {
        0 => Dft(n().depth_first_traverse()),
        1 => Shallow(n().shallow_depth_first_traverse(None)),
        2 => Shallow(f.shallow_depth_first_traverse(id, Some(0))),
        3 => Shallow(n().shallow_depth_first_traverse(Some(1))),
        4 => Bft(f.breadth_first_traverse(id)),
        5 => Abft(n().allocating_breadth_first_traverse()),
        6 => Anc(n().ancestors_or_self()),
        7 => Anc(f.ancestors(id)),
        8 => Sib(n().children()),
        9 => Sib(n().following_siblings()),
        10 => Sib(f.following_siblings_or_self(id)),
        11 => Sib(f.preceding_siblings(id)),
        12 => Sib(n().preceding_siblings_or_self()),
        _ => Looker(f, ids, x),
    }
}

fn two_ended(kind: usize) -> bool {
    matches!(kind, 0..=3 | 8..=12)
}

/// What the reader yields alone.
fn want(t: &Trav, x: usize, kind: usize, glances: &[i64]) -> Vec<Item> {
    let plain = |v: &[i64]| -> Vec<Item> { v.iter().map(|x| (*x, 0)).collect() };
    let me = (x as i64 + 1, 0);
    let limited = |m: i64| t.dftd.iter().filter(|e| e.1 <= m).copied().collect();
    match kind {
        0 => t.dftd.iter().map(|e| (e.0, 0)).collect(),
        1 => t.dftd.clone(),
        2 => limited(0),
        3 => limited(1),
        4 | 5 => t.bft.clone(),
        6 => plain(&t.anc),
        7 => plain(&t.anc[1..]),
        8 => plain(&t.kids),
        9 => plain(&t.fol),
        10 => std::iter::once(me).chain(plain(&t.fol)).collect(),
        11 => plain(&t.pre),
        12 => plain(&t.pre).into_iter().chain(std::iter::once(me)).collect(),
        _ => (0..12).map(|k| (glances[(x + k) % glances.len()], 0)).collect(),
    }
}

impl<'a, I: NodeId> Reader<'a, I> {
    pub fn take(&mut self, back: bool, n: &Names<I>) -> Option<Item> {
        match (self, back) {
            (Reader::Dft(i), false) => i.nx(n),
            (Reader::Dft(i), true) => i.bk(n),
            (Reader::Shallow(i), false) => i.nx(n),
            (Reader::Shallow(i), true) => i.bk(n),
            (Reader::Sib(i), false) => i.nx(n),
            (Reader::Sib(i), true) => i.bk(n),
            (Reader::Bft(i), _) => i.nx(n),
            (Reader::Abft(i), _) => i.nx(n),
            (Reader::Anc(i), _) => i.nx(n),
            (Reader::Looker(f, ids, k), _) => {
                let id = ids[*k % ids.len()];
                *k += 1;
                Some((glance(f, id, n), 0))
            }
        }
    }
}

/// Reads everything there is to read, a few steps each: for what comes
/// afterwards it makes no difference.
pub fn read_all<I: NodeId>(f: &Forest<I, P>, ids: &[I], n: &Names<I>, of: impl Iterator<Item = usize>) {
    for x in of {
        if catch(|| f.node(ids[x]).is_none()).unwrap_or(true) {
            continue;
        }
        let _ = catch(|| glance(f, ids[x], n));
        for kind in 0..LOOKER {
            let _ = catch(|| {
                let mut r = make(f, ids, x, kind);
                for k in 0..6 {
                    r.take(two_ended(kind) && k % 3 == 2, n);
                }
            });
        }
    }
}

/// A tree in the real code, and what is expected of its readers.
struct Place<'s, I: NodeId> {
    s: &'s Shape,
    way: u64,
    f: Forest<I, P>,
    ids: Vec<I>,
    n: Names<I>,
    glances: Vec<i64>,
}

impl<'s, I: NodeId> Place<'s, I> {
    fn new(s: &'s Shape, way: u64) -> Option<Self> {
        let (f, ids) = catch(|| build::<I>(s, way, P::new))?;
        let n = Names::new(&ids);
        let glances = ids.iter().map(|x| catch(|| glance(&f, *x, &n))).collect::<Option<Vec<i64>>>()?;
        Some(Place { s, way, f, ids, n, glances })
    }
    fn want(&self, x: usize, kind: usize) -> Option<Vec<Item>> {
        self.s.trav[x].as_ref().map(|t| want(t, x, kind, &self.glances))
    }
    fn text(&self) -> String {
        format!("tree {} built in way {}", brief(&self.s.par), self.way)
    }
    fn seen(&self) -> Proj {
        project(&self.f, &self.ids)
    }
}

type Word = Vec<(bool, bool)>;

fn words(path: &str) -> Vec<Word> {
    read_lines(path)
        .iter()
        .filter(|l| l.t()[0].s() == "W")
        .map(|l| l.t()[1].t().iter().map(|e| (e.t()[0].i() == 2, e.t()[1].i() == 1)).collect())
        .collect()
}

/// Takes one item; what was wrong with it.
fn one<I: NodeId>(r: &mut Reader<'_, I>, p: &Place<'_, I>, want: &[Item], at: &mut (usize, usize), back: bool) -> Option<String> {
    let w = if at.0 >= at.1 { None } else { Some(want[if back { at.1 - 1 } else { at.0 }]) };
    let g = catch(|| r.take(back, &p.n));
    if at.0 < at.1 {
        if back {
            at.1 -= 1;
        } else {
            at.0 += 1;
        }
    }
    match g {
        None => Some(format!("{}() panics", if back { "next_back" } else { "next" })),
        Some(g) if g != w => Some(format!("{}() is {:?}, expected {:?}", if back { "next_back" } else { "next" }, g, w)),
        _ => None,
    }
}

/// The steps of the reader that went wrong, by itself: `steps` of one reader
/// on a new tree, nothing else having been read. Run as a process of its own.
pub fn alone<I: NodeId>(shapes: &[Shape], k: usize, way: u64, x: usize, kind: usize, steps: &str) -> bool {
    let p = match Place::<I>::new(&shapes[k], way) {
        Some(p) => p,
        None => return false,
    };
    let want = match p.want(x, kind) {
        Some(w) => w,
        None => return false,
    };
    let mut r = match catch(|| make(&p.f, &p.ids, x, kind)) {
        Some(r) => r,
        None => return false,
    };
    let mut at = (0, want.len());
    steps.chars().all(|c| one(&mut r, &p, &want, &mut at, c == '1').is_none())
}

struct Bad {
    /// Of which reader.
    second: bool,
    /// Its steps up to there, from the front (0) or the back (1).
    steps: String,
    msg: String,
}

/// Two readers, their steps in the order of the word, then in turns to the end.
fn together<I: NodeId>(
    p: [&Place<'_, I>; 2],
    d: [(usize, usize); 2],
    want: [&[Item]; 2],
    word: &Word,
    taken: &mut u64,
) -> Option<Bad> {
    beat();
    let mut steps = [String::new(), String::new()];
    let mut at = [(0, want[0].len()), (0, want[1].len())];
    let mut r = Vec::with_capacity(2);
    for k in 0..2 {
        match catch(|| make(&p[k].f, &p[k].ids, d[k].0, d[k].1)) {
            Some(x) => r.push(x),
            None => return Some(Bad { second: k == 1, steps: String::new(), msg: "the constructor panics".into() }),
        }
    }
    let rest = (0..2 * (want[0].len().max(want[1].len()) + 1)).map(|k| (k % 2 == 1, k % 4 >= 2));
    for (k, (who, back)) in word.iter().copied().chain(rest).enumerate() {
        let w = who as usize;
        let back = back && two_ended(d[w].1);
        // The looker never ends.
        if d[w].1 == LOOKER && at[w].0 >= at[w].1 {
            continue;
        }
        // Nor need an end be asked for more than twice.
        if k >= word.len() && at[w].0 >= at[w].1 && at[1 - w].0 < at[1 - w].1 {
            continue;
        }
        *taken += 1;
        steps[w].push(if back { '1' } else { '0' });
        if let Some(msg) = one(&mut r[w], p[w], want[w], &mut at[w], back) {
            return Some(Bad { second: who, steps: steps[w].clone(), msg });
        }
    }
    None
}

/// Is the reader right when it is alone?
fn right_alone(path: &str, id: &str, k: usize, p: &Place<'_, impl NodeId>, d: (usize, usize), steps: &str) -> bool {
    let exe = std::env::current_exe().expect("tool: exe");
    let st = std::process::Command::new(exe)
        .args(["alone", "out=/dev/null", &format!("graph={}", path), &format!("id={}", id)])
        .args([format!("tree={}", k), format!("way={}", p.way), format!("node={}", d.0), format!("kind={}", d.1)])
        .arg(format!("steps={}", steps))
        .status()
        .expect("tool: alone");
    match st.code() {
        Some(0) => true,
        Some(3) => false,
        _ => panic!("tool: alone: {:?}", st),
    }
}

pub fn check<I: NodeId>(shapes: &[Shape], path: &str, word_path: &str, id: &str, threads: usize) -> Report {
    let words = words(word_path);
    assert!(!words.is_empty(), "tool: no words");
    let mut jobs: Vec<(usize, usize, usize)> = Vec::new();
    for (k, s) in shapes.iter().enumerate() {
        for x in 0..s.par.len() {
            for kind in 0..KINDS {
                if s.trav[x].is_some() {
                    jobs.push((k, x, kind));
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(shapes[j.0].par.len()));
    let (cursor, asked) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, jobs, words, asked) = (&cursor, &jobs, &words, &asked);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    let (mut pairs, mut runs, mut taken) = (0u64, 0u64, 0u64);
                    loop {
                        let j = cursor.fetch_add(1, Ordering::Relaxed);
                        if j >= jobs.len() {
                            break;
                        }
                        let (k, x, kind) = jobs[j];
                        let s = &shapes[k];
                        step(&["C25"], || format!("readers of tree {}", brief(&s.par)));
                        beat();
                        // Two forests of the same tree, the ids of which run against each other.
                        let (a, b) = match (Place::<I>::new(s, 4 * (k as u64 % 2)), Place::<I>::new(s, 5 - 4 * (k as u64 % 2))) {
                            (Some(a), Some(b)) => (a, b),
                            _ => {
                                rep.count("not_built", 1);
                                continue;
                            }
                        };
                        let before = [a.seen(), b.seen()];
                        let wa = a.want(x, kind).expect("tool: shapes");
                        for other in [&a, &b] {
                            for y in 0..s.par.len() {
                                for kind2 in 0..KINDS {
                                    let same = std::ptr::eq(other, &a);
                                    // The words contain every order of the two.
                                    if same && (y, kind2) < (x, kind) {
                                        continue;
                                    }
                                    let wb = other.want(y, kind2).expect("tool: shapes");
                                    pairs += 1;
                                    let text = || {
                                        format!(
                                            "{} of {} and {} of {} on {}{}",
                                            NAMES[kind],
                                            x + 1,
                                            NAMES[kind2],
                                            y + 1,
                                            a.text(),
                                            if same { String::new() } else { format!(" and {}", other.text()) }
                                        )
                                    };
                                    step(&["C25"], text);
                                    for w in words {
                                        runs += 1;
                                        let p = [&a, other];
                                        let d = [(x, kind), (y, kind2)];
                                        if let Some(bad) = together(p, d, [&wa, &wb], w, &mut taken) {
                                            // Is that for want of the other reader?
                                            if asked.fetch_add(1, Ordering::Relaxed) > 200 {
                                                break;
                                            }
                                            idle();
                                            let q = bad.second as usize;
                                            if right_alone(path, id, k, p[q], d[q], &bad.steps) {
                                                let m = format!(
                                                    "{}, steps {} (reader/end): {} of {}: {} (alone it is as expected)",
                                                    text(),
                                                    w.iter().map(|(r, e)| format!("{}{}", *r as u8 + 1, if *e { "b" } else { "f" })).collect::<Vec<_>>().join(" "),
                                                    NAMES[d[q].1],
                                                    d[q].0 + 1,
                                                    bad.msg
                                                );
                                                note(&["C25"], || m.clone());
                                                rep.add(&["C25"], || m);
                                            } else {
                                                rep.count("wrong_alone", 1);
                                            }
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        if [a.seen(), b.seen()] != before {
                            rep.add(&["C25"], || format!("reading of {} changes it", a.text()));
                        }
                    }
                    idle();
                    rep.count("pairs_of_readers", pairs);
                    rep.count("schedules", runs);
                    rep.count("reader_steps", taken);
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("trees", shapes.len() as u64);
    rep.count("words", words.len() as u64);
    rep.samples.push(format!("every two readers of tree {:?}, in {} orders", shapes[shapes.len() - 1].par, words.len()));
    rep
}

/// Threads that share a forest: each runs readers over all of it.
#[cfg(feature = "shared")]
pub fn shared<I>(shapes: &[Shape], path: &str, id: &str, threads: usize, rounds: u64) -> Report
where
    I: NodeId + Send + Sync,
    Forest<I, P>: Sync,
{
    let mut rep = Report::default();
    for (k, s) in shapes.iter().enumerate() {
        let n = s.par.len();
        for way in [0, 1, 6] {
            step(&["C25"], || format!("threads on tree {}", brief(&s.par)));
            let p = match Place::<I>::new(s, way) {
                Some(p) => p,
                None => {
                    rep.count("not_built", 1);
                    continue;
                }
            };
            idle();
            let before = p.seen();
            let starts: Vec<usize> = (0..n).filter(|x| s.trav[*x].is_some()).collect();
            let gate = std::sync::Barrier::new(threads);
            let parts: Vec<Report> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads)
                    .map(|me| {
                        let (p, starts, gate) = (&p, &starts, &gate);
                        sc.spawn(move || {
                            let mut rep = Report::default();
                            let mut r = crate::Rng(way * 1000 + me as u64 * 77 + k as u64 + 1);
                            let mut taken = 0u64;
                            gate.wait();
                            for _ in 0..rounds {
                                let x = starts[r.below(starts.len() as u64) as usize];
                                let kind = r.below(KINDS as u64) as usize;
                                // Looks for every level from the top.
                                if kind == 4 && n > 100 && r.below(10) > 0 {
                                    continue;
                                }
                                step(&["C25"], || format!("{} of {} on {} in one of several threads", NAMES[kind], x + 1, p.text()));
                                let want = p.want(x, kind).expect("tool: shapes");
                                let mut it = match catch(|| make(&p.f, &p.ids, x, kind)) {
                                    Some(i) => i,
                                    None => continue,
                                };
                                let mut at = (0, want.len());
                                let mut steps = String::new();
                                let turn = 1 + r.below(4);
                                while at.0 < at.1 {
                                    beat();
                                    taken += 1;
                                    let back = two_ended(kind) && r.below(turn) > 0;
                                    steps.push(if back { '1' } else { '0' });
                                    if let Some(m) = one(&mut it, p, &want, &mut at, back) {
                                        idle();
                                        if right_alone(path, id, k, p, (x, kind), &steps) {
                                            rep.add(&["C25"], || {
                                                format!(
                                                    "{} of {} on {}, while other threads read too: {} (alone it is as expected)",
                                                    NAMES[kind],
                                                    x + 1,
                                                    p.text(),
                                                    m
                                                )
                                            });
                                        } else {
                                            rep.count("wrong_alone", 1);
                                        }
                                        return rep;
                                    }
                                }
                            }
                            idle();
                            rep.count("reader_steps", taken);
                            rep
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
            });
            for x in parts {
                rep.merge(x);
            }
            if p.seen() != before {
                rep.add(&["C25"], || format!("reading of {} by several threads changes it", p.text()));
            }
            rep.count("forests_shared", 1);
        }
    }
    rep.samples.push(format!("{} threads on a tree of {} nodes", threads, shapes[shapes.len() - 1].par.len()));
    rep
}
