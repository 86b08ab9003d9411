//! Sessions with the two builders and the debug printer.

use std::cell::RefCell;
use std::collections::HashMap;

use treena::dynamic::{ChainTreeBuilder, NestTreeBuilder};
use treena::dynamic::{InsertAs, NodeId};

use crate::report::{beat, catch};
use crate::world::{World, ODD, P};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CStep {
    Child,
    Sibling,
    Parent,
    TryParent,
    Det(i64),
    Rem(i64),
    /// Moved below the second as its last child.
    Ins(i64, i64),
}

pub struct CRes {
    pub c: &'static str,
    pub x: i64,
    pub d: i64,
    pub r: &'static str,
    pub root: i64,
    pub cur: i64,
}

/// Runs a chain builder; `next` says what to call, given the current node.
/// Returns the datum of the root and what every call did.
pub fn run_chain<I: NodeId>(
    w: &mut World<I>,
    i: usize,
    mut next: impl FnMut(usize, &CRes) -> Option<CStep>,
) -> (i64, CRes, Vec<CRes>) {
    let World { f, ids, vals, tries, orphans, .. } = w;
    let (ids, vals) = (&mut ids[i], &mut vals[i]);
    let base = (i as i64 + 1) * 10000 + 1;
    let d0 = base + ids.len() as i64;
    tries[i] += 1;
    beat();
    let tree = &mut f[i];
    let made = catch(|| {
        let b = ChainTreeBuilder::new(tree, P::new(d0));
        let r = b.root_id();
        (b, r)
    });
    let (mut b, root) = match made {
        Some(x) => x,
        None => {
            orphans[i] += 1;
            return (d0, CRes { c: "new", x: 0, d: d0, r: "panic", root: 0, cur: 0 }, Vec::new());
        }
    };
    ids.push(root);
    vals.push(d0);
    // The first name of an id, as far as it has been asked for.
    let mut map: HashMap<I, i64> = HashMap::new();
    let mut mapped = 0;
    let mut name = |ids: &[I], id: I| {
        while mapped < ids.len() {
            map.entry(ids[mapped]).or_insert(mapped as i64 + 1);
            mapped += 1;
        }
        map.get(&id).copied().unwrap_or(ODD)
    };
    let start = CRes { c: "new", x: 0, d: d0, r: "ok", root: name(ids, root), cur: name(ids, b.current_id()) };
    let mut out: Vec<CRes> = Vec::new();
    loop {
        let k = out.len();
        let s = match next(k, out.last().unwrap_or(&start)) {
            Some(s) => s,
            None => break,
        };
        beat();
        let d = base + ids.len() as i64;
        let mut r = CRes { c: "", x: 0, d, r: "ok", root: 0, cur: 0 };
        let ok = match s {
            CStep::Child => {
                r.c = "child";
                catch(|| {
                    b.child(P::new(d));
                })
            }
            CStep::Sibling => {
                r.c = "sibling";
                catch(|| {
                    b.sibling(P::new(d));
                })
            }
            CStep::Parent => {
                r.c = "parent";
                catch(|| {
                    b.parent();
                })
            }
            CStep::TryParent => {
                r.c = "tryparent";
                catch(|| b.try_parent().is_some()).map(|some| {
                    if !some {
                        r.r = "none";
                    }
                })
            }
            CStep::Det(x) => {
                r.c = "det";
                r.x = x;
                let id = ids[x as usize - 1];
                catch(|| b.forest_mut().detach(id))
            }
            CStep::Rem(x) => {
                r.c = "rem";
                r.x = x;
                let id = ids[x as usize - 1];
                catch(|| b.forest_mut().remove(id))
            }
            CStep::Ins(x, y) => {
                r.c = "ins";
                r.x = x;
                let (id, at) = (ids[x as usize - 1], ids[y as usize - 1]);
                catch(|| b.forest_mut().insert(id, InsertAs::LastChildOf(at)).expect("insert"))
            }
        };
        if ok.is_none() {
            r.r = "panic";
        }
        if matches!(s, CStep::Child | CStep::Sibling) {
            tries[i] += 1;
            if r.r == "ok" {
                let id = b.current_id();
                if name(ids, id) == ODD {
                    ids.push(id);
                    vals.push(d);
                }
            } else {
                orphans[i] += 1;
            }
        }
        r.root = name(ids, b.root_id());
        r.cur = name(ids, b.current_id());
        out.push(r);
        if out.len() > 1 << 20 {
            break;
        }
    }
    (d0, start, out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NTok {
    Add,
    Open,
    Close,
}

impl NTok {
    pub fn name(self) -> &'static str {
        match self {
            NTok::Add => "add",
            NTok::Open => "open",
            NTok::Close => "close",
        }
    }
}

struct NestCtx<'t, I> {
    toks: &'t [NTok],
    pos: usize,
    datum: i64,
    roots: Vec<I>,
}

fn nest_level<I: NodeId>(b: &mut NestTreeBuilder<'_, I, P>, c: &mut NestCtx<'_, I>) {
    while c.pos < c.toks.len() {
        let t = c.toks[c.pos];
        c.pos += 1;
        beat();
        match t {
            NTok::Add => {
                let d = c.datum;
                c.datum += 1;
                b.add_child(P::new(d));
                c.roots.push(b.root());
            }
            NTok::Open => {
                let d = c.datum;
                c.datum += 1;
                b.create_tree(P::new(d), |b| {
                    c.roots.push(b.root());
                    nest_level(b, c);
                    // The closing token is consumed inside; what is reported
                    // outside is recorded after the closure has returned.
                });
                c.roots.push(b.root());
            }
            NTok::Close => return,
        }
    }
}

/// Runs a nest program. Returns the datum of the root, the root reported at the
/// start, and the root reported after every token, by name; None: it panicked.
pub fn run_nest<I: NodeId>(w: &mut World<I>, i: usize, toks: &[NTok]) -> (i64, Option<(i64, Vec<i64>)>) {
    let d0 = (i as i64 + 1) * 10000 + 1 + w.ids[i].len() as i64;
    let made = toks.iter().filter(|t| **t != NTok::Close).count();
    // All tokens that are still open at the end are closed there.
    let mut all = toks.to_vec();
    let mut depth = 0i64;
    for t in toks {
        match t {
            NTok::Open => depth += 1,
            NTok::Close => depth -= 1,
            NTok::Add => {}
        }
    }
    assert!(depth >= 0, "tool: nest program");
    for _ in 0..depth {
        all.push(NTok::Close);
    }
    let mut c = NestCtx { toks: &all, pos: 0, datum: d0 + 1, roots: Vec::new() };
    let f = &mut w.f[i];
    beat();
    let r = catch(|| {
        let mut b = NestTreeBuilder::new(f, P::new(d0));
        let start = b.root();
        nest_level(&mut b, &mut c);
        start
    });
    w.tries[i] += made + 1;
    let start = match r {
        None => {
            w.orphans[i] += made as i64 + 1;
            return (d0, None);
        }
        Some(s) => s,
    };
    beat();
    let walk = w.walk(i, start, made + 9);
    for (k, id) in walk.iter().enumerate() {
        w.ids[i].push(*id);
        w.vals[i].push(d0 + k as i64);
    }
    let map: HashMap<I, i64> = w.ids[i].iter().enumerate().map(|(k, x)| (*x, k as i64 + 1)).collect();
    let name = |x: &I| map.get(x).copied().unwrap_or(ODD);
    (d0, Some((name(&start), c.roots.iter().map(name).collect())))
}

// ------------------------------------------------------------------- labels

#[derive(Clone, Debug, Default)]
pub struct Label {
    /// The content, as the pieces in which it is written.
    pub pieces: Vec<String>,
    /// After that, writing it reports an error.
    pub fails: bool,
}

impl Label {
    /// `how`: 0 in one piece; 1 character by character; else split at random.
    pub fn new(text: &str, how: u64) -> Self {
        let mut pieces = Vec::new();
        match how {
            0 => pieces.push(text.to_string()),
            1 => pieces.extend(text.chars().map(|c| c.to_string())),
            2 => {
                // Line breaks on their own.
                for l in text.split_inclusive('\n') {
                    let b = l.trim_end_matches('\n');
                    pieces.push(b.to_string());
                    if b.len() < l.len() {
                        pieces.push("\n".into());
                    }
                }
            }
            n => {
                let mut r = crate::Rng(n);
                let mut p = String::new();
                for c in text.chars() {
                    p.push(c);
                    if r.below(3) == 0 {
                        pieces.push(std::mem::take(&mut p));
                        if r.below(4) == 0 {
                            pieces.push(String::new());
                        }
                    }
                }
                pieces.push(p);
            }
        }
        Label { pieces, fails: false }
    }
    pub fn lines(&self) -> Vec<String> {
        self.pieces.concat().lines().map(|s| s.to_string()).collect()
    }
}

thread_local! {
    /// What the data print as, by value; empty: their usual form.
    pub static LABELS: RefCell<HashMap<i64, Label>> = RefCell::new(HashMap::new());
}

/// The ways of printing a subtree: 0..6.
pub fn print_lines<I: NodeId>(w: &mut World<I>, i: usize, id: I, way: usize) -> Option<Vec<String>> {
    beat();
    let f = &mut w.f[i];
    let s = match way {
        0 => catch(|| f.debug_print(id).to_string()),
        1 => catch(|| format!("{:?}", f.debug_print(id))),
        2 => catch(|| f.node(id).expect("live").debug_print().to_string()),
        3 => catch(|| format!("{:?}", f.node(id).expect("live").debug_print())),
        4 => catch(|| f.node_mut(id).expect("live").debug_print().to_string()),
        _ => catch(|| format!("{:?}", f.node_mut(id).expect("live").debug_print())),
    }?;
    Some(lines(&s, way))
}

/// The lines of what was printed; way is odd for the debug style.
pub fn lines(s: &str, way: usize) -> Vec<String> {
    let mut v: Vec<String> = s.lines().map(|l| l.trim_end().to_string()).collect();
    if v.is_empty() {
        v.push(String::new());
    }
    // Data print without lower case letters in debug style, else without upper case ones.
    for l in &mut v {
        if way % 2 == 1 {
            if l.chars().any(|c| c.is_ascii_lowercase()) {
                l.push_str("<display style>");
            } else {
                *l = l.to_ascii_lowercase();
            }
        } else if l.chars().any(|c| c.is_ascii_uppercase()) {
            l.push_str("<debug style>");
        }
    }
    v
}
