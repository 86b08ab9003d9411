//! Iterators of the implementation against the sequences of the specification.
//!
//! The specification's iterator is a sequence with a front and a back position
//! (module Cursors); here every real iterator is driven through interleavings of
//! its two ends, with peeks, size hints and clones, in step with it.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;

use treena::dynamic::{
    AllocatingBreadthFirstTraverse, Ancestors, BreadthFirstTraverse, DepthFirstTraverse, DftEvent,
    Forest, Node, NodeId, ShallowDepthFirstTraverse, Siblings,
};

use crate::graph::Trav;
use crate::report::{allocations, beat, catch};
use crate::world::{ODD, P};

pub type Item = (i64, i64);

/// Names of ids.
pub struct Names<I> {
    map: HashMap<I, i64>,
}

impl<I: NodeId> Names<I> {
    pub fn new(ids: &[I]) -> Self {
        Names { map: ids.iter().enumerate().map(|(k, x)| (*x, k as i64 + 1)).collect() }
    }
    pub fn of(&self, x: I) -> i64 {
        self.map.get(&x).copied().unwrap_or(ODD)
    }
}

/// A real iterator, seen as the specification sees it.
pub trait It<'a, I: NodeId>: Clone {
    const BACK: bool;
    const PEEK: bool;
    /// Do the items come with depths?
    const DEPTH: bool;
    /// Does it need memory for what is pending?
    const ALLOC: bool;
    fn nx(&mut self, n: &Names<I>) -> Option<Item>;
    fn bk(&mut self, _n: &Names<I>) -> Option<Item> {
        unreachable!("tool: no back end")
    }
    fn pk(&self, _n: &Names<I>) -> Option<Item> {
        unreachable!("tool: no peek")
    }
    fn pkb(&self, _n: &Names<I>) -> Option<Item> {
        unreachable!("tool: no peek_back")
    }
    fn hint(&self) -> (usize, Option<usize>);
    fn nth_(&mut self, k: usize, n: &Names<I>) -> Option<Item>;
    fn nth_back_(&mut self, _k: usize, _n: &Names<I>) -> Option<Item> {
        unreachable!("tool: no back end")
    }
    fn all(self, n: &Names<I>, limit: usize) -> Vec<Item>;
    fn all_rev(self, _n: &Names<I>, _limit: usize) -> Vec<Item> {
        unreachable!("tool: no back end")
    }
    fn rfold_(self, _n: &Names<I>) -> Vec<Item> {
        unreachable!("tool: no back end")
    }
    fn fold_(self, n: &Names<I>) -> Vec<Item>;
    fn count_(self) -> usize;
    fn last_(self, n: &Names<I>) -> Option<Item>;
    fn dbg(&self) -> String;
}

fn ev<I: NodeId>(n: &Names<I>, e: DftEvent<Node<'_, I, P>>) -> i64 {
    match e {
        DftEvent::Open(x) => n.of(x.id()),
        DftEvent::Close(x) => -n.of(x.id()),
    }
}

macro_rules! it {
    ($ty:ident, $back:expr, $peek:expr, $depth:expr, $alloc:expr, |$n:ident, $x:ident| $conv:expr, {$($extra:item)*}) => {
        impl<'a, I: NodeId> It<'a, I> for $ty<'a, I, P>
        where
            $ty<'a, I, P>: Debug,
        {
            const BACK: bool = $back;
            const PEEK: bool = $peek;
            const DEPTH: bool = $depth;
            const ALLOC: bool = $alloc;
            fn nx(&mut self, $n: &Names<I>) -> Option<Item> {
                self.next().map(|$x| $conv)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.size_hint()
            }
            fn nth_(&mut self, k: usize, $n: &Names<I>) -> Option<Item> {
                self.nth(k).map(|$x| $conv)
            }
            fn all(self, $n: &Names<I>, limit: usize) -> Vec<Item> {
                self.take(limit).map(|$x| $conv).collect()
            }
            fn fold_(self, $n: &Names<I>) -> Vec<Item> {
                self.fold(Vec::new(), |mut v, $x| {
                    v.push($conv);
                    assert!(v.len() < 1 << 22, "endless");
                    v
                })
            }
            fn count_(self) -> usize {
                self.count()
            }
            fn last_(self, $n: &Names<I>) -> Option<Item> {
                self.last().map(|$x| $conv)
            }
            fn dbg(&self) -> String {
                format!("{:?}", self)
            }
            $($extra)*
        }
    };
}

it!(DepthFirstTraverse, true, true, false, false, |n, x| (ev(n, x), 0), {
    fn bk(&mut self, n: &Names<I>) -> Option<Item> { self.next_back().map(|x| (ev(n, x), 0)) }
    fn pk(&self, n: &Names<I>) -> Option<Item> { self.peek().map(|x| (ev(n, x), 0)) }
    fn pkb(&self, n: &Names<I>) -> Option<Item> { self.peek_back().map(|x| (ev(n, x), 0)) }
    fn nth_back_(&mut self, k: usize, n: &Names<I>) -> Option<Item> { self.nth_back(k).map(|x| (ev(n, x), 0)) }
    fn all_rev(self, n: &Names<I>, limit: usize) -> Vec<Item> { self.rev().take(limit).map(|x| (ev(n, x), 0)).collect() }
    fn rfold_(self, n: &Names<I>) -> Vec<Item> { self.rfold(Vec::new(), |mut v, x| { v.push((ev(n, x), 0)); assert!(v.len() < 1 << 22, "endless"); v }) }
});
it!(ShallowDepthFirstTraverse, true, true, true, false, |n, x| (ev(n, x.0), x.1 as i64), {
    fn bk(&mut self, n: &Names<I>) -> Option<Item> { self.next_back().map(|x| (ev(n, x.0), x.1 as i64)) }
    fn pk(&self, n: &Names<I>) -> Option<Item> { self.peek().map(|x| (ev(n, x.0), x.1 as i64)) }
    fn pkb(&self, n: &Names<I>) -> Option<Item> { self.peek_back().map(|x| (ev(n, x.0), x.1 as i64)) }
    fn nth_back_(&mut self, k: usize, n: &Names<I>) -> Option<Item> { self.nth_back(k).map(|x| (ev(n, x.0), x.1 as i64)) }
    fn all_rev(self, n: &Names<I>, limit: usize) -> Vec<Item> { self.rev().take(limit).map(|x| (ev(n, x.0), x.1 as i64)).collect() }
    fn rfold_(self, n: &Names<I>) -> Vec<Item> { self.rfold(Vec::new(), |mut v, x| { v.push((ev(n, x.0), x.1 as i64)); assert!(v.len() < 1 << 22, "endless"); v }) }
});
it!(Siblings, true, true, false, false, |n, x| (n.of(x.id()), 0), {
    fn bk(&mut self, n: &Names<I>) -> Option<Item> { self.next_back().map(|x| (n.of(x.id()), 0)) }
    fn pk(&self, n: &Names<I>) -> Option<Item> { self.peek().map(|x| (n.of(x.id()), 0)) }
    fn pkb(&self, n: &Names<I>) -> Option<Item> { self.peek_back().map(|x| (n.of(x.id()), 0)) }
    fn nth_back_(&mut self, k: usize, n: &Names<I>) -> Option<Item> { self.nth_back(k).map(|x| (n.of(x.id()), 0)) }
    fn all_rev(self, n: &Names<I>, limit: usize) -> Vec<Item> { self.rev().take(limit).map(|x| (n.of(x.id()), 0)).collect() }
    fn rfold_(self, n: &Names<I>) -> Vec<Item> { self.rfold(Vec::new(), |mut v, x| { v.push((n.of(x.id()), 0)); assert!(v.len() < 1 << 22, "endless"); v }) }
});
it!(Ancestors, false, true, false, false, |n, x| (n.of(x.id()), 0), {
    fn pk(&self, n: &Names<I>) -> Option<Item> { self.peek().map(|x| (n.of(x.id()), 0)) }
});
it!(BreadthFirstTraverse, false, false, true, false, |n, x| (n.of(x.0.id()), x.1 as i64), {});
it!(AllocatingBreadthFirstTraverse, false, true, true, true, |n, x| (n.of(x.0.id()), x.1 as i64), {
    fn pk(&self, n: &Names<I>) -> Option<Item> { self.peek().map(|x| (n.of(x.0.id()), x.1 as i64)) }
});

/// Problems with this in them are about C22, whatever the iterator.
pub const ALLOCATES: &str = "allocates memory, which a non-allocating traversal does not";

/// How hard to look at one iterator.
#[derive(Clone, Copy)]
pub enum Effort {
    /// A few fixed schedules.
    Light,
    /// All interleavings (by reachable iterator state when the sequence is long).
    All,
    /// Whole sequences from both ends and some pseudo-random schedules (long sequences).
    Long(u64),
    /// As Long, but fewer of them (huge trees).
    Huge(u64),
}

/// Two sequences that differ, long ones from where they do.
fn versus(got: &[Item], want: &[Item]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let lo = if got.len().max(want.len()) <= 60 { 0 } else { at.saturating_sub(3) };
    let cut = |v: &[Item]| format!("{:?}", &v[lo.min(v.len())..v.len().min(lo + 60)]);
    format!("{}, expected {}{}", cut(got), cut(want), if lo > 0 { format!(" (from position {})", lo) } else { String::new() })
}

pub struct Stats {
    pub sequences: u64,
    pub steps: u64,
}

struct Drive<'n, I: NodeId> {
    n: &'n Names<I>,
    want: &'n [Item],
    steps: u64,
    seen: HashSet<(usize, usize, String)>,
    memo: bool,
}

impl<'n, I: NodeId> Drive<'n, I> {
    fn get(&self, lo: usize, hi: usize, k: usize) -> Option<Item> {
        if lo < hi {
            Some(self.want[k])
        } else {
            None
        }
    }

    /// Checks what can be seen without consuming: lo items are gone at the
    /// front, and everything from hi on at the back.
    fn look<'a, T: It<'a, I>>(&mut self, it: &T, lo: usize, hi: usize) -> Result<(), String> {
        beat();
        self.steps += 1;
        if T::PEEK {
            let (w, g) = (self.get(lo, hi, lo), it.pk(self.n));
            if w != g {
                return Err(format!("peek() is {:?}, expected {:?}", g, w));
            }
            if T::BACK {
                let (w, g) = (self.get(lo, hi, hi.wrapping_sub(1)), it.pkb(self.n));
                if w != g {
                    return Err(format!("peek_back() is {:?}, expected {:?}", g, w));
                }
            }
        }
        let (l, u) = it.hint();
        let rem = hi - lo;
        if l > rem || u.map_or(false, |u| u < rem) {
            return Err(format!("size_hint() is {:?}, {} items remain", (l, u), rem));
        }
        Ok(())
    }

    fn front<'a, T: It<'a, I>>(&mut self, it: &mut T, lo: usize, hi: usize) -> Result<(usize, usize), String> {
        beat();
        let before = allocations();
        let (w, g) = (self.get(lo, hi, lo), it.nx(self.n));
        if !T::ALLOC && allocations() != before {
            return Err(format!("next() {}", ALLOCATES));
        }
        if w != g {
            return Err(format!("next() is {:?}, expected {:?}", g, w));
        }
        Ok((if lo < hi { lo + 1 } else { lo }, hi))
    }

    fn back<'a, T: It<'a, I>>(&mut self, it: &mut T, lo: usize, hi: usize) -> Result<(usize, usize), String> {
        beat();
        let before = allocations();
        let (w, g) = (self.get(lo, hi, hi.wrapping_sub(1)), it.bk(self.n));
        if !T::ALLOC && allocations() != before {
            return Err(format!("next_back() {}", ALLOCATES));
        }
        if w != g {
            return Err(format!("next_back() is {:?}, expected {:?}", g, w));
        }
        Ok((lo, if lo < hi { hi - 1 } else { hi }))
    }

    fn at(lo: usize, hi: usize, len: usize) -> String {
        format!("after {} from the front and {} from the back of {}", lo, len - hi, len)
    }

    fn exhausted<'a, T: It<'a, I>>(&mut self, mut it: T, lo: usize) -> Result<(), String> {
        for k in 0..4 {
            self.look(&it, lo, lo)?;
            if T::BACK && k % 2 == 0 {
                self.back(&mut it, lo, lo)?;
            } else {
                self.front(&mut it, lo, lo)?;
            }
        }
        if T::BACK {
            if let Some(x) = it.nth_back_(0, self.n) {
                return Err(format!("nth_back(0) on an exhausted iterator is {:?}", x));
            }
        }
        if let Some(x) = it.nth_(0, self.n) {
            return Err(format!("nth(0) on an exhausted iterator is {:?}", x));
        }
        Ok(())
    }

    /// What is left, taken by the other means std iterators offer.
    fn rest<'a, T: It<'a, I>>(&mut self, it: &T, lo: usize, hi: usize) -> Result<(), String> {
        let want = &self.want[lo..hi];
        let limit = want.len() + 3;
        self.steps += 1;
        beat();
        let g = it.clone().all(self.n, limit);
        if g != want {
            return Err(format!("the rest is {}", versus(&g, want)));
        }
        if T::BACK {
            beat();
            let mut g = it.clone().all_rev(self.n, limit);
            g.reverse();
            if g != want {
                return Err(format!("the rest from the back, reversed, is {}", versus(&g, want)));
            }
        }
        beat();
        let g = it.clone().fold_(self.n);
        if g != want {
            return Err(format!("fold() sees {}", versus(&g, want)));
        }
        if T::BACK {
            beat();
            let mut g = it.clone().rfold_(self.n);
            g.reverse();
            if g != want {
                return Err(format!("rfold() sees, reversed, {}", versus(&g, want)));
            }
        }
        let g = it.clone().count_();
        if g != want.len() {
            return Err(format!("count() is {}, expected {}", g, want.len()));
        }
        let g = it.clone().last_(self.n);
        if g != want.last().copied() {
            return Err(format!("last() is {:?}, expected {:?}", g, want.last()));
        }
        Ok(())
    }

    fn nths<'a, T: It<'a, I>>(&mut self, it: &T, lo: usize, hi: usize) -> Result<(), String> {
        for k in [0, 1, 2, (hi - lo).saturating_sub(1), hi - lo, usize::MAX] {
            beat();
            self.steps += 1;
            let mut c = it.clone();
            let g = c.nth_(k, self.n);
            let w = if k < hi - lo { Some(self.want[lo + k]) } else { None };
            if g != w {
                return Err(format!("nth({}) is {:?}, expected {:?}", k, g, w));
            }
            self.look(&c, lo.saturating_add(k).saturating_add(1).min(hi), hi).map_err(|m| format!("after nth({}) {}", k, m))?;
            if T::BACK {
                let mut c = it.clone();
                let g = c.nth_back_(k, self.n);
                let w = if k < hi - lo { Some(self.want[hi - 1 - k]) } else { None };
                if g != w {
                    return Err(format!("nth_back({}) is {:?}, expected {:?}", k, g, w));
                }
                self.look(&c, lo, hi.saturating_sub(k.saturating_add(1)).max(lo)).map_err(|m| format!("after nth_back({}) {}", k, m))?;
            }
        }
        Ok(())
    }

    /// All continuations from here.
    fn explore<'a, T: It<'a, I>>(&mut self, it: T, lo: usize, hi: usize) -> Result<(), String> {
        let len = self.want.len();
        let ctx = |m: String| format!("{}: {}", Self::at(lo, hi, len), m);
        if self.memo && !self.seen.insert((lo, hi, it.dbg())) {
            return Ok(());
        }
        self.look(&it, lo, hi).map_err(ctx)?;
        if lo == hi {
            return self.exhausted(it, lo).map_err(ctx);
        }
        if self.memo {
            self.rest(&it, lo, hi).map_err(ctx)?;
            self.nths(&it, lo, hi).map_err(ctx)?;
        }
        let mut c = it.clone();
        let (l, h) = self.front(&mut c, lo, hi).map_err(ctx)?;
        // The original did not move with its clone.
        self.look(&it, lo, hi).map_err(|m| format!("after its clone moved, {}", ctx(m)))?;
        self.explore(c, l, h)?;
        if T::BACK {
            let mut c = it;
            let (l, h) = self.back(&mut c, lo, hi).map_err(ctx)?;
            self.explore(c, l, h)?;
        }
        Ok(())
    }

    /// One schedule: bit k of `bits` (cyclically over 64) takes from the back.
    fn schedule<'a, T: It<'a, I>>(&mut self, mut it: T, mut next_bit: impl FnMut() -> bool) -> Result<(), String> {
        let len = self.want.len();
        let (mut lo, mut hi) = (0, len);
        while lo < hi {
            let ctx = |m: String| format!("{}: {}", Self::at(lo, hi, len), m);
            self.look(&it, lo, hi).map_err(ctx)?;
            let r = if T::BACK && next_bit() {
                self.back(&mut it, lo, hi)
            } else {
                self.front(&mut it, lo, hi)
            };
            let (l, h) = r.map_err(ctx)?;
            lo = l;
            hi = h;
        }
        self.exhausted(it, lo).map_err(|m| format!("{}: {}", Self::at(lo, hi, len), m))
    }
}

pub fn drive<'a, I: NodeId, T: It<'a, I>>(
    n: &Names<I>,
    make: impl Fn() -> T,
    want: &[Item],
    effort: Effort,
    stats: &mut Stats,
) -> Option<String> {
    let mut d = Drive { n, want, steps: 0, seen: HashSet::new(), memo: false };
    let r = catch(|| {
        match effort {
            Effort::Light => {
                d.schedule(make(), || false)?;
                if T::BACK {
                    d.schedule(make(), || true)?;
                    let mut k = 0u32;
                    d.schedule(make(), || {
                        k += 1;
                        k % 2 == 0
                    })?;
                    let mut k = 0u32;
                    d.schedule(make(), || {
                        k += 1;
                        k % 3 != 2
                    })?;
                }
                d.rest(&make(), 0, want.len())?;
            }
            Effort::Huge(seed) => {
                d.schedule(make(), || false)?;
                d.rest(&make(), 0, want.len())?;
                d.nths(&make(), 0, want.len())?;
                if T::BACK {
                    d.schedule(make(), || true)?;
                    let mut r = crate::Rng(seed);
                    d.schedule(make(), || r.below(2) == 0)?;
                }
            }
            Effort::All => {
                if want.len() <= 8 || !T::BACK {
                    d.explore(make(), 0, want.len())?;
                }
                d.memo = true;
                d.explore(make(), 0, want.len())?;
            }
            Effort::Long(seed) => {
                d.schedule(make(), || false)?;
                d.rest(&make(), 0, want.len())?;
                d.nths(&make(), 0, want.len())?;
                if T::BACK {
                    d.schedule(make(), || true)?;
                    let mut r = crate::Rng(seed);
                    for p in [2, 3, 8] {
                        d.schedule(make(), || r.below(p) == 0)?;
                        d.schedule(make(), || r.below(p) != 0)?;
                    }
                    // Long runs from one end, then the other.
                    for cut in [want.len() / 3, want.len() / 2, want.len().saturating_sub(2)] {
                        let mut k = 0;
                        d.schedule(make(), || {
                            k += 1;
                            k > cut
                        })?;
                        let mut k = 0;
                        d.schedule(make(), || {
                            k += 1;
                            k <= cut
                        })?;
                    }
                }
            }
        }
        Ok::<(), String>(())
    });
    stats.sequences += 1;
    stats.steps += d.steps;
    match r {
        None => Some("panics".into()),
        Some(Err(m)) => Some(m),
        Some(Ok(())) => None,
    }
}

/// All iterators that start at a node, through the forest and through the proxy.
/// Returns (property, problem) pairs.
pub fn node_iters<I: NodeId>(
    f: &Forest<I, P>,
    id: I,
    n: &Names<I>,
    t: &Trav,
    effort: Effort,
    which: impl Fn(&str) -> bool,
    stats: &mut Stats,
) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = Vec::new();
    let plain = |v: &[i64]| -> Vec<Item> { v.iter().map(|x| (*x, 0)).collect() };
    let node = || f.node(id).expect("live");
    macro_rules! go {
        ($tag:expr, $name:expr, $want:expr, $a:expr, $b:expr) => {
            if which($tag) || which("C22") {
                let w: Vec<Item> = $want;
                let mut r = drive(n, $a, &w, effort, stats).map(|m| format!("Node::{} of {}: {}", $name, n.of(id), m));
                if r.is_none() {
                    r = drive(n, $b, &w, if let Effort::Long(_) | Effort::Huge(_) = effort { Effort::Light } else { effort }, stats)
                        .map(|m| format!("Forest::{} of {}: {}", $name, n.of(id), m));
                }
                if let Some(m) = r {
                    out.push((if m.contains(ALLOCATES) { "C22" } else { $tag }, m));
                }
            }
        };
    }
    go!(
        "C12",
        "depth_first_traverse()",
        t.dftd.iter().map(|(e, _)| (*e, 0)).collect(),
        || node().depth_first_traverse(),
        || f.depth_first_traverse(id)
    );
    let deepest = t.dftd.iter().map(|e| e.1).max().unwrap_or(0);
    let mut limits: Vec<Option<usize>> = vec![None, Some(usize::MAX), Some(usize::MAX - 1)];
    if deepest <= 10 {
        limits.extend((0..=deepest as usize + 1).map(Some));
    } else {
        for k in [0, 1, 2, deepest / 2, deepest - 1, deepest, deepest + 1] {
            limits.push(Some(k as usize));
        }
    }
    for m in limits {
        let lim = m.unwrap_or(usize::MAX);
        go!(
            "C13",
            format!("shallow_depth_first_traverse({:?})", m),
            t.dftd.iter().filter(|e| e.1 as usize <= lim).copied().collect(),
            || node().shallow_depth_first_traverse(m),
            || f.shallow_depth_first_traverse(id, m)
        );
        if which("C13") {
            let g = catch(|| node().shallow_depth_first_traverse(m).max_depth());
            // A limit no node can reach may be reported as none.
            if g != Some(m) && !(m == Some(usize::MAX) && g == Some(None)) {
                out.push(("C13", format!("max_depth() is {:?} for limit {:?}", g, m)));
            }
        }
    }
    // It looks for each level from the top again.
    if !matches!(effort, Effort::Huge(_)) || deepest < 1000 {
        go!("C14", "breadth_first_traverse()", t.bft.clone(), || node().breadth_first_traverse(), || f.breadth_first_traverse(id));
    }
    go!(
        "C14",
        "allocating_breadth_first_traverse()",
        t.bft.clone(),
        || node().allocating_breadth_first_traverse(),
        || f.allocating_breadth_first_traverse(id)
    );
    let selfs = |v: &[i64], front: bool| -> Vec<Item> {
        let mut w = plain(v);
        if front {
            w.insert(0, (n.of(id), 0));
        } else {
            w.push((n.of(id), 0));
        }
        w
    };
    go!("C15", "ancestors_or_self()", plain(&t.anc), || node().ancestors_or_self(), || f.ancestors_or_self(id));
    go!("C15", "ancestors()", plain(&t.anc[1..]), || node().ancestors(), || f.ancestors(id));
    go!("C15", "children()", plain(&t.kids), || node().children(), || f.children(id));
    go!("C15", "following_siblings()", plain(&t.fol), || node().following_siblings(), || f.following_siblings(id));
    go!(
        "C15",
        "following_siblings_or_self()",
        selfs(&t.fol, true),
        || node().following_siblings_or_self(),
        || f.following_siblings_or_self(id)
    );
    go!("C15", "preceding_siblings()", plain(&t.pre), || node().preceding_siblings(), || f.preceding_siblings(id));
    go!(
        "C15",
        "preceding_siblings_or_self()",
        selfs(&t.pre, false),
        || node().preceding_siblings_or_self(),
        || f.preceding_siblings_or_self(id)
    );
    out
}
