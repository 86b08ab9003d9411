//! The trees and contents of MCPrint, printed by the real code.

use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};

use treena::dynamic::{Forest, NodeId};

use crate::graph::read_lines;
use crate::iters::Names;
use crate::readers::glance;
use crate::report::{beat, catch, idle, note, step, Report};
use crate::sessions::*;
use crate::shapes::{build, Shape, ALONE};
use crate::val::V;
use crate::world::*;

const NESTING: &str = "while the contents print their forest too,";

struct Case {
    shape: Shape,
    kinds: Vec<i64>,
    lines: Vec<Vec<String>>,
}

/// Fragments of PrintWriter, joined.
fn text(k: i64, y: i64) -> String {
    match k {
        0 => format!("n{}", y),
        1 => String::new(),
        2 => format!("n{}\nm{}", y, y),
        3 => "\n".into(),
        4 => format!("n{}\n", y),
        5 => format!("\nn{}", y),
        6 => format!("n{}\n\nm{}", y, y),
        7 => format!("n{}\n\n", y),
        8 => format!("\n\n  n{}\n", y),
        9 => format!("n{}@u\n@tm{}@u\n@u", y, y),
        10 => format!("|-- n{}\n`-- m\n|\n    k", y),
        11 => format!("@ln{}\nm@tm@l\n", y),
        12 => (1..=600).map(|i| if i % 2 == 0 { "\n".into() } else if i % 7 == 0 { String::new() } else { format!("n{}", y) }).collect(),
        13 => format!("@hn{}\nm@h", y),
        k => panic!("tool: content kind {}", k),
    }
}

/// The characters that PrintWriter leaves to the replay.
fn plant(s: &str) -> String {
    if !s.contains('@') {
        return s.to_string();
    }
    s.replace("@u", "\u{e9}\u{4e2d}\u{1f333}e\u{301}")
        .replace("@t", "\t \u{a0}\u{2028}\u{85}\u{b}\u{c}\r")
        .replace("@l", &"lo ng-".repeat(120))
        .replace("@h", &"l onger-".repeat(9000))
}

thread_local! {
    /// The forest that is being printed, and its ids.
    static PRINTED: Cell<(*const (), *const ())> = const { Cell::new((std::ptr::null(), std::ptr::null())) };
}

/// Reads, while a content is being printed, the forest it is in.
fn reread<I: NodeId>() {
    let (f, ids) = PRINTED.with(|p| p.get());
    // Set by nested_print, for as long as it holds both.
    let (f, ids) = unsafe { (&*(f as *const Forest<I, P>), &*(ids as *const Vec<I>)) };
    let n = Names::new(ids);
    for x in ids {
        let _ = catch(|| glance(f, *x, &n));
    }
}

/// As print_lines, with contents that read the forest themselves.
fn nested_print<I: NodeId>(f: &Forest<I, P>, ids: &Vec<I>, id: I, way: usize) -> Option<Vec<String>> {
    PRINTED.with(|p| p.set((f as *const _ as *const (), ids as *const _ as *const ())));
    NEST.with(|n| n.set(Some(reread::<I>)));
    let s = catch(|| if way % 2 == 0 { f.debug_print(id).to_string() } else { format!("{:?}", f.debug_print(id)) });
    NEST.with(|n| n.set(None));
    Some(lines(&s?, way))
}

fn one<I: NodeId>(c: &Case, seed: u64, splits: u64, nest: bool, prints: &mut u64) -> Option<String> {
    let n = c.shape.par.len();
    let mut w = World::<I>::new(1);
    let way = seed % (2 * ALONE);
    let (f, ids) = match catch(|| build::<I>(&c.shape, way, |y| P::new(y))) {
        Some(b) => b,
        None => return None, // not for this property to judge
    };
    w.f[0] = f;
    w.ids[0] = ids;
    w.vals[0] = (1..=n as i64).collect();
    for split in 0..splits {
        let mut m = HashMap::new();
        for y in 1..=n as i64 {
            let how = match (split + seed + y as u64) % 4 {
                3 => seed.wrapping_mul(2654435761).wrapping_add(y as u64 * 77 + split) | 8,
                h => h,
            };
            m.insert(y, Label::new(&plant(&text(c.kinds[y as usize - 1], y)), how));
        }
        LABELS.with(|l| *l.borrow_mut() = m);
        for x in 0..n {
            if c.lines[x].is_empty() {
                continue; // not asked for
            }
            for way in 0..6 {
                let id = w.ids[0][x];
                *prints += 1;
                beat();
                let got = print_lines(&mut w, 0, id, way).unwrap_or_else(|| vec!["<panics>".into()]);
                if got != c.lines[x] {
                    return Some(format!("node {} in way {} prints\n{}\nexpected\n{}", x + 1, way, got.join("\n"), c.lines[x].join("\n")));
                }
                if nest && way < 2 {
                    let got = nested_print(&w.f[0], &w.ids[0], id, way).unwrap_or_else(|| vec!["<panics>".into()]);
                    if got != c.lines[x] {
                        return Some(format!(
                            "{} node {} in way {} prints\n{}\nexpected\n{}",
                            NESTING,
                            x + 1,
                            way,
                            got.join("\n"),
                            c.lines[x].join("\n")
                        ));
                    }
                }
            }
        }
    }
    None
}

pub fn check<I: NodeId>(path: &str, threads: usize, splits: u64, nest: bool) -> Report {
    let mut cases: Vec<Case> = read_lines(path)
        .iter()
        .map(|l| {
            let t = l.t();
            assert!(t[0].s() == "P", "tool: prints");
            Case {
                shape: Shape { par: t[1].ints(), kids: t[2].t().iter().map(V::ints).collect(), trav: Vec::new() },
                kinds: t[3].ints(),
                lines: t[4].t().iter().map(|x| x.t().iter().map(|s| plant(s.s())).collect()).collect(),
            }
        })
        .collect();
    // TLC's workers emit in no fixed order.
    cases.sort_by(|a, b| (a.shape.par.len(), &a.shape.par, &a.kinds).cmp(&(b.shape.par.len(), &b.shape.par, &b.kinds)));
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, cases) = (&cursor, &cases);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    let mut prints = 0;
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= cases.len() {
                            break;
                        }
                        let c = &cases[k];
                        let what = || format!("tree {} with contents of kinds {}", crate::report::brief(&c.shape.par), crate::report::brief(&c.kinds));
                        step(&["C18"], what);
                        let m = catch(|| one::<I>(c, k as u64, splits, nest, &mut prints)).unwrap_or_else(|| Some("panics".into()));
                        LABELS.with(|l| l.borrow_mut().clear());
                        if let Some(m) = m {
                            let tags: &[&'static str] = if m.contains(NESTING) { &["C18", "C25"] } else { &["C18"] };
                            note(tags, || format!("{}: {}", what(), m));
                            rep.add(tags, || format!("{}: {}", what(), m));
                        }
                    }
                    idle();
                    rep.count("prints", prints);
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("labelled_trees", cases.len() as u64);
    if let Some(c) = cases.get(cases.len() / 2) {
        rep.samples.push(format!("tree {:?} kinds {:?}:\n{}", c.shape.par, c.kinds, c.lines[0].join("\n")));
    }
    rep
}

/// An output that reports an error from the nth write on, or only in the nth
/// write (and then takes text again).
struct Sink {
    text: String,
    writes: usize,
    fail_at: usize,
    for_good: bool,
    /// Whether some of the failing write's text goes through.
    partly: bool,
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        beat();
        let k = self.writes;
        self.writes += 1;
        if k == self.fail_at || (self.for_good && k > self.fail_at) {
            if self.partly && k == self.fail_at {
                let cut = (0..=s.len() / 2).rev().find(|&c| s.is_char_boundary(c)).unwrap_or(0);
                self.text.push_str(&s[..cut]);
            }
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn write_to<I: NodeId>(f: &mut treena::dynamic::Forest<I, P>, id: I, way: usize, s: &mut Sink) -> Option<bool> {
    use std::fmt::Write as _;
    catch(|| {
        match way {
            0 => write!(s, "{}", f.debug_print(id)),
            1 => write!(s, "{:?}", f.debug_print(id)),
            2 => write!(s, "{}", f.node(id).expect("live").debug_print()),
            3 => write!(s, "{:?}", f.node(id).expect("live").debug_print()),
            4 => write!(s, "{}", f.node_mut(id).expect("live").debug_print()),
            _ => write!(s, "{:?}", f.node_mut(id).expect("live").debug_print()),
        }
        .is_ok()
    })
}

struct Fault {
    shape: Shape,
    kinds: Vec<i64>,
    x: usize,
    /// The content that fails and after how many fragments.
    at: Option<(i64, usize)>,
    ok: bool,
    lines: Vec<String>,
}

/// Whether the text is a beginning of the lines, up to trailing whitespace.
fn begins(text: &str, lines: &[String], upper: bool) -> bool {
    let got: Vec<&str> = text.split('\n').collect();
    let want = |k: usize| lines.get(k).map(|l| if upper { l.to_ascii_uppercase() } else { l.clone() });
    got.iter().enumerate().all(|(k, g)| match want(k) {
        Some(w) if k + 1 < got.len() => g.trim_end() == w,
        Some(w) => w.starts_with(g.trim_end()),
        None => k + 1 == got.len() && g.trim_end().is_empty(),
    })
}

fn one_fault<I: NodeId>(c: &Fault, seed: u64, prints: &mut u64) -> Option<String> {
    let (mut f, ids) = catch(|| build::<I>(&c.shape, seed % (2 * ALONE), |y| P::new(y)))?;
    let id = ids[c.x - 1];
    let set = |fail: Option<(i64, usize)>| {
        let mut m = HashMap::new();
        for y in 1..=c.shape.par.len() as i64 {
            let mut l = Label::new(&text(c.kinds[y as usize - 1], y), 2);
            l.pieces.retain(|p| !p.is_empty());
            if let Some((z, j)) = fail {
                if z == y {
                    l.pieces.truncate(j);
                    l.fails = true;
                }
            }
            m.insert(y, l);
        }
        LABELS.with(|l| *l.borrow_mut() = m);
    };
    let sink = |fail_at, for_good, partly| Sink { text: String::new(), writes: 0, fail_at, for_good, partly };
    for way in 0..6 {
        set(c.at);
        *prints += 1;
        let mut s = sink(usize::MAX, true, false);
        let r = write_to(&mut f, id, way, &mut s);
        if r != Some(c.ok) {
            return Some(format!("printing node {} in way {}: success is {:?}, expected {}", c.x, way, r, c.ok));
        }
        if !begins(&s.text, &c.lines, way % 2 == 1) {
            return Some(format!("node {} in way {} prints, until the error,\n{}\nwhich is no beginning of\n{}", c.x, way, s.text, c.lines.join("\n")));
        }
        // And without any fault.
        set(None);
        let mut whole = sink(usize::MAX, true, false);
        let r = write_to(&mut f, id, way, &mut whole);
        if r != Some(true) || !begins(&whole.text, &c.lines, way % 2 == 1) {
            return Some(format!("printing node {} again in way {}: success is {:?}, prints\n{}", c.x, way, r, whole.text));
        }
        if c.at.is_some() {
            continue;
        }
        for k in 0..whole.writes {
            for how in 0..3 {
                *prints += 1;
                let mut s = sink(k, how == 0, how == 2);
                let r = write_to(&mut f, id, way, &mut s);
                if r != Some(false) {
                    return Some(format!("printing node {} in way {} on an output that fails at write {}: success is {:?}", c.x, way, k, r));
                }
                if !whole.text.starts_with(&s.text) {
                    return Some(format!("node {} in way {} prints, on an output that fails at write {},\n{}\nwhich is no beginning of\n{}", c.x, way, k, s.text, whole.text));
                }
            }
        }
    }
    None
}

pub fn check_faults<I: NodeId>(path: &str, threads: usize) -> Report {
    let mut cases: Vec<Fault> = read_lines(path)
        .iter()
        .map(|l| {
            let t = l.t();
            assert!(t[0].s() == "F", "tool: prints");
            let fault = t[5].t();
            Fault {
                shape: Shape { par: t[1].ints(), kids: t[2].t().iter().map(V::ints).collect(), trav: Vec::new() },
                kinds: t[3].ints(),
                x: t[4].i() as usize,
                at: if fault[0].s() == "content" { Some((fault[1].i(), fault[2].i() as usize)) } else { None },
                ok: t[6].s() == "ok",
                lines: t[7].t().iter().map(|s| s.s().to_string()).collect(),
            }
        })
        .collect();
    cases.sort_by(|a, b| (&a.shape.par, &a.kinds, a.x, a.at).cmp(&(&b.shape.par, &b.kinds, b.x, b.at)));
    let cursor = AtomicUsize::new(0);
    let mut rep = Report::default();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (cursor, cases) = (&cursor, &cases);
                sc.spawn(move || {
                    let mut rep = Report::default();
                    let mut prints = 0;
                    loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= cases.len() {
                            break;
                        }
                        let c = &cases[k];
                        let what = || format!("tree {:?} with contents of kinds {:?}, failing {:?}", c.shape.par, c.kinds, c.at);
                        step(&["C23"], what);
                        let m = catch(|| one_fault::<I>(c, k as u64, &mut prints)).unwrap_or_else(|| Some("panics".into()));
                        LABELS.with(|l| l.borrow_mut().clear());
                        if let Some(m) = m {
                            note(&["C23"], || format!("{}: {}", what(), m));
                            rep.add(&["C23"], || format!("{}: {}", what(), m));
                        }
                    }
                    idle();
                    rep.count("faulty_prints", prints);
                    rep
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tool: worker")).collect()
    });
    for p in parts {
        rep.merge(p);
    }
    rep.count("fault_cases", cases.len() as u64);
    if let Some(c) = cases.get(cases.len() / 2) {
        rep.samples.push(format!("tree {:?} kinds {:?} node {} failing {:?}", c.shape.par, c.kinds, c.x, c.at));
    }
    rep
}
