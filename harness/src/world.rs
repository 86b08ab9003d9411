//! The implementation side of a world: forests, ids by specification name,
//! the public operations in all their entry points, and the projection of a
//! real forest to what the specification talks about.

use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::fmt;

use crate::iters::Names;
use treena::dynamic::{AdoptAs, Forest, InsertAs, NodeId, StructureError};

use crate::report::{brief, catch, prob, Prob};

/// An id no name stands for.
pub const ODD: i64 = 9999999;
/// An accessor panicked.
pub const BROKEN: i64 = -7;
pub const DEAD: i64 = -1;
const SET: i64 = 1 << 28;

// ------------------------------------------------------------------- payload

thread_local! {
    pub static ALIVE_PAYLOADS: Cell<i64> = const { Cell::new(0) };
    pub static HIDE_DATA: Cell<bool> = const { Cell::new(false) };
    /// Runs in callbacks of the code under test: while a datum is cloned, dropped or
    /// printed, while a hook or a mapping function is called.
    pub static NEST: Cell<Option<fn()>> = const { Cell::new(None) };
    pub static NEST_BAD: Cell<bool> = const { Cell::new(false) };
    /// What the canned work on another forest comes to.
    static CANNED: Cell<i64> = const { Cell::new(0) };
    /// The clone of the datum that many clones ahead panics; 0: none does.
    pub static CLONE_PANICS_IN: Cell<i64> = const { Cell::new(0) };
}

fn nested() {
    if let Some(f) = NEST.with(|n| n.take()) {
        let refuse = CLONE_PANICS_IN.with(|c| c.replace(0));
        f();
        CLONE_PANICS_IN.with(|c| c.set(refuse));
        NEST.with(|n| n.set(Some(f)));
    }
}

/// Work on forests of its own, of all kinds; a digest of what came of it.
fn canned<I: NodeId>() -> i64 {
    let mut h = 11i64;
    let mut eat = |v: i64| h = (h ^ v).wrapping_mul(0x5851_F42D_4C95_7F2D).rotate_left(27);
    let mut f: Forest<I, P> = Forest::new();
    let r = f.create_root(P::new(1));
    let a = f.create_insert(P::new(2), InsertAs::LastChildOf(r));
    let b = f.create_insert(P::new(3), InsertAs::LastChildOf(r));
    let c = f.create_insert(P::new(4), InsertAs::FirstChildOf(b));
    let d = f.create_insert(P::new(5), InsertAs::NextSiblingOf(c));
    let e = f.create_insert(P::new(6), InsertAs::LastChildOf(d));
    f.insert(a, InsertAs::PreviousSiblingOf(d)).expect("insert");
    let mut g: Forest<I, P> = Forest::new();
    let mut ids = vec![r, a, b, c, d, e];
    let mut pairs = Vec::new();
    ids.push(f.clone_local_tree_with_id_mapping(b, |x, y| pairs.push((x, y))));
    ids.extend(pairs.iter().map(|p| p.1));
    let t = g.clone_foreign_tree(f.node(r).expect("live"));
    f.detach_single(d).expect("detach_single");
    let mut out = Vec::new();
    f.detach(e);
    f.remove_hooked_panic_safe(b, |p| out.push(p.v()));
    g.remove(t);
    let k = f.clone();
    eat(out.len() as i64);
    for v in out {
        eat(v);
    }
    let n = Names::new(&ids);
    for f in [&f, &k] {
        let p = project(f, &ids);
        for v in p.par.iter().chain(&p.pv).chain(&p.nx).chain(&p.fc).chain(&p.lc).chain(&p.data) {
            eat(*v);
        }
        for e in f.depth_first_traverse(ids[6]).take(40) {
            eat(match e {
                treena::dynamic::DftEvent::Open(x) => n.of(x.id()),
                treena::dynamic::DftEvent::Close(x) => -n.of(x.id()),
            });
        }
        for b in f.debug_print(ids[6]).to_string().bytes() {
            eat(b as i64);
        }
    }
    h
}

/// Such work in a callback comes to the same.
fn interlude<I: NodeId>() {
    if catch(canned::<I>) != Some(CANNED.with(|c| c.get())) {
        NEST_BAD.with(|b| b.set(true));
    }
}

/// The data. With the feature `plain`, a type without destructor, whose values
/// cannot be counted; with the feature `unit`, a type of size zero, whose
/// values are all alike.
#[cfg_attr(feature = "plain", derive(Copy))]
pub struct P {
    #[cfg(not(feature = "unit"))]
    v: i64,
}

pub const COUNTED: bool = !cfg!(feature = "plain");
pub const UNIT: bool = cfg!(feature = "unit");

/// The values that data can be told apart by.
pub fn told(v: i64) -> i64 {
    if UNIT {
        0
    } else {
        v
    }
}

impl P {
    pub fn new(v: i64) -> Self {
        if COUNTED {
            ALIVE_PAYLOADS.with(|c| c.set(c.get() + 1));
        }
        #[cfg(feature = "unit")]
        let _ = v;
        P {
            #[cfg(not(feature = "unit"))]
            v,
        }
    }

    pub fn v(&self) -> i64 {
        #[cfg(feature = "unit")]
        return 0;
        #[cfg(not(feature = "unit"))]
        return self.v;
    }
}

impl Clone for P {
    fn clone(&self) -> Self {
        nested();
        CLONE_PANICS_IN.with(|c| {
            let k = c.get();
            if k > 0 {
                c.set(k - 1);
                if k == 1 {
                    panic!("datum refuses to be cloned");
                }
            }
        });
        P::new(self.v())
    }
}

#[cfg(not(feature = "plain"))]
impl Drop for P {
    fn drop(&mut self) {
        nested();
        ALIVE_PAYLOADS.with(|c| c.set(c.get() - 1));
    }
}

/// Writes the label that stands for the datum, if there is one; for Debug
/// without lower case letters, so that the two styles can be told apart.
fn labelled(v: i64, f: &mut fmt::Formatter<'_>, upper: bool) -> Option<fmt::Result> {
    crate::sessions::LABELS.with(|l| {
        let l = l.borrow();
        let l = l.get(&v)?;
        for (k, p) in l.pieces.iter().enumerate() {
            let up = if upper { p.to_ascii_uppercase() } else { String::new() };
            let p: &String = if upper { &up } else { p };
            let mut cs = p.chars();
            let r = match (cs.next(), cs.next()) {
                (Some(c), None) if k % 2 == 0 => fmt::Write::write_char(f, c),
                _ if k % 3 == 2 => f.write_fmt(format_args!("{}", p)),
                _ => f.write_str(p),
            };
            if r.is_err() {
                return Some(r);
            }
        }
        Some(if l.fails { Err(fmt::Error) } else { Ok(()) })
    })
}

impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if HIDE_DATA.with(|h| h.get()) {
            return f.write_str("P");
        }
        nested();
        match labelled(self.v(), f, true) {
            Some(r) => r,
            None => write!(f, "P{}", self.v()),
        }
    }
}

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        nested();
        match labelled(self.v(), f, false) {
            Some(r) => r,
            None => write!(f, "p{}", self.v()),
        }
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Root,
    CIns,
    Ins,
    Det,
    DetS,
    Rem,
    RemP,
    Clone,
    CloneP,
    Copy,
    Set,
    Probe,
}

pub fn kind(s: &str) -> K {
    match s {
        "root" => K::Root,
        "cins" => K::CIns,
        "ins" => K::Ins,
        "det" => K::Det,
        "dets" => K::DetS,
        "rem" => K::Rem,
        "remp" => K::RemP,
        "clone" => K::Clone,
        "clonep" => K::CloneP,
        "copy" => K::Copy,
        "set" => K::Set,
        "probe" => K::Probe,
        _ => panic!("tool: unknown operation {}", s),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Op {
    pub k: K,
    pub a: [i64; 4],
}

pub const OK: u8 = 1;
pub const LOOP: u8 = 2;
pub const UNORD: u8 = 4;
pub const NOPARENT: u8 = 8;
pub const PANIC: u8 = 16;

pub fn reply_bit(s: &str) -> u8 {
    match s {
        "ok" => OK,
        "loop" => LOOP,
        "unord" => UNORD,
        "noparent" => NOPARENT,
        "panic" => PANIC,
        _ => panic!("tool: unknown reply {}", s),
    }
}

pub fn reply_name(b: u8) -> String {
    let mut v = Vec::new();
    for (bit, n) in [
        (OK, "ok"),
        (LOOP, "AncestorDescendantLoop"),
        (UNORD, "UnorderableSiblings"),
        (NOPARENT, "SiblingsWithoutParent"),
        (PANIC, "panic"),
    ] {
        if b & bit != 0 {
            v.push(n);
        }
    }
    v.join(" or ")
}

pub fn of_result(r: Option<Result<(), StructureError>>) -> u8 {
    match r {
        None => PANIC,
        Some(Ok(())) => OK,
        Some(Err(StructureError::AncestorDescendantLoop)) => LOOP,
        Some(Err(StructureError::UnorderableSiblings)) => UNORD,
        Some(Err(StructureError::SiblingsWithoutParent)) => NOPARENT,
    }
}

pub fn insert_as<I>(pos: i64, y: I) -> InsertAs<I> {
    match pos {
        1 => InsertAs::FirstChildOf(y),
        2 => InsertAs::LastChildOf(y),
        3 => InsertAs::PreviousSiblingOf(y),
        4 => InsertAs::NextSiblingOf(y),
        _ => panic!("tool: position {}", pos),
    }
}

pub fn adopt_as(pos: i64) -> AdoptAs {
    match pos {
        1 => AdoptAs::FirstChild,
        2 => AdoptAs::LastChild,
        3 => AdoptAs::PreviousSibling,
        4 => AdoptAs::NextSibling,
        _ => panic!("tool: position {}", pos),
    }
}

/// The properties an operation answers for, given the replies the specification allows.
pub fn op_tags(k: K, allowed: u8) -> &'static [&'static str] {
    let dead = allowed == PANIC;
    match k {
        K::Root => &["C09"],
        K::CIns if dead => &["C09", "C08"],
        K::CIns => &["C09"],
        K::Ins if allowed == OK => &["C02"],
        K::Ins if dead => &["C08"],
        K::Ins if allowed & PANIC != 0 => &["C03", "C08"],
        K::Ins => &["C03"],
        K::Det if dead => &["C08"],
        K::Det => &["C04"],
        K::DetS if dead => &["C08"],
        K::DetS => &["C05"],
        K::Rem if dead => &["C08"],
        K::Rem => &["C06"],
        K::RemP => &["C07"],
        K::Clone if dead => &["C08"],
        K::Clone | K::CloneP => &["C11"],
        K::Copy => &["C20"],
        K::Set => &["C10"],
        K::Probe => &["C08"],
    }
}

pub fn show(op: &Op, variant: usize) -> String {
    let a = op.a;
    let pos = |p: i64| ["", "FirstChildOf", "LastChildOf", "PreviousSiblingOf", "NextSiblingOf"][p as usize];
    match op.k {
        K::Root => format!("f{}.create_root()", a[0]),
        K::CIns => format!("f{}.create_insert({}({}))#{}", a[0], pos(a[1]), a[2], variant),
        K::Ins => format!("f{}.insert({}, {}({}))#{}", a[0], a[1], pos(a[2]), a[3], variant),
        K::Det => format!("f{}.detach({})#{}", a[0], a[1], variant),
        K::DetS => format!("f{}.detach_single({})#{}", a[0], a[1], variant),
        K::Rem => format!("f{}.remove({})#{}", a[0], a[1], variant),
        K::RemP => format!("f{}.remove_hooked_panic_safe({}) with panic at call {}#{}", a[0], a[1], a[2], variant),
        K::Clone => format!("clone tree {} of f{} into f{}#{}", a[1], a[0], a[2], variant),
        K::CloneP => format!("clone tree {} of f{} into f{} with panic at {}#{}", a[1], a[0], a[2], a[3], variant),
        K::Copy => format!("f{} = f{}.clone()#{}", a[1], a[0], variant),
        K::Set => format!("f{}.data_mut({})#{}", a[0], a[1], variant),
        K::Probe => format!("look at dead f{}/{}#{}", a[0], a[1], variant),
    }
}

/// The entry points of an operation in a state: how many there are, and whether
/// each is also tried with a second kind of unknown id.
pub fn entry_points(op: &Op, alive: impl Fn(i64) -> bool, unknown: impl Fn(i64) -> bool) -> (usize, bool) {
    match op.k {
        K::Root => (1, false),
        K::CIns => (if alive(op.a[2]) { 2 } else { 1 }, unknown(op.a[2])),
        K::Ins => (if alive(op.a[3]) { 3 } else { 1 }, unknown(op.a[1]) || unknown(op.a[3])),
        K::Det | K::DetS => (if alive(op.a[1]) { 2 } else { 1 }, unknown(op.a[1])),
        K::Rem => (if alive(op.a[1]) { 6 } else { 3 }, unknown(op.a[1])),
        K::Clone => (2, unknown(op.a[1])),
        K::RemP | K::CloneP | K::Copy => (2, false),
        K::Set => (3, false),
        K::Probe => (1, unknown(op.a[1])),
    }
}

// --------------------------------------------------------------- the world

pub struct World<I: NodeId> {
    pub f: Vec<Forest<I, P>>,
    /// Ids by name (name n is at n-1).
    pub ids: Vec<Vec<I>>,
    /// What the datum of a name must read while it is alive.
    pub vals: Vec<Vec<i64>>,
    /// Creations attempted in the forest: no id was ever handed out from there on.
    pub tries: Vec<usize>,
    /// Nodes that a refused or aborted call may have left behind, without an id.
    pub orphans: Vec<i64>,
    /// Data in nodes without a name.
    pub fill: i64,
    /// Does the like happen to other forests in callbacks?
    pub nest: bool,
}

/// Ids that were never handed out by the forest under test: the ids of a
/// longer forest of its own.
pub fn spare_ids<I: NodeId>(n: usize) -> Vec<I> {
    let mut f: Forest<I, ()> = Forest::new();
    (0..n).map(|_| f.create_root(())).collect()
}

fn two<T>(v: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    assert!(i != j, "tool: two");
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

/// What an operation did.
#[derive(Default)]
pub struct Did {
    pub reply: u8,
    pub probs: Vec<Prob>,
    /// The datum given to the operation.
    pub datum: i64,
    /// Did the entry point report (data to a hook, pairs to a mapping callback)?
    pub hooked: bool,
    pub out: Vec<i64>,
    pub pairs: Vec<(i64, i64)>,
    /// Functions that served a dead node.
    pub odd: Vec<&'static str>,
    /// The reply of an entry point that panics instead of returning an error.
    pub adopt: bool,
}

impl<I: NodeId> World<I> {
    pub fn new(nf: usize) -> Self {
        World {
            f: (0..nf).map(|_| Forest::new()).collect(),
            ids: vec![Vec::new(); nf],
            vals: vec![Vec::new(); nf],
            tries: vec![0; nf],
            orphans: vec![0; nf],
            fill: 0,
            nest: false,
        }
    }

    /// From now on, callbacks of the operations work on other forests.
    pub fn set_nest(&mut self) {
        self.nest = true;
        CANNED.with(|c| {
            if c.get() == 0 {
                c.set(canned::<I>());
            }
        });
    }

    /// A refused call may have left n nodes behind that nobody has the id of,
    /// or, when there are no more ids, n data that go with the forest.
    fn left(&mut self, i: usize, n: i64) {
        self.orphans[i] += n;
    }

    pub fn knows(&self, i: usize, x: i64) -> bool {
        x >= 1 && (x as usize) <= self.ids[i].len()
    }

    pub fn id(&self, i: usize, x: i64, far: bool, spare: &[I]) -> I {
        if self.knows(i, x) {
            self.ids[i][x as usize - 1]
        } else {
            spare[self.tries[i] + if far { 7 } else { 0 }]
        }
    }

    /// Reads everything there is to read; that is to make no difference.
    pub fn read(&mut self, every: usize, from: usize) -> Vec<Prob> {
        let mut probs = Vec::new();
        for i in 0..self.f.len() {
            let ids = &self.ids[i];
            let before = project(&self.f[i], ids);
            let n = Names::new(ids);
            let of = || (from % every..ids.len()).step_by(every);
            for x in of() {
                let f = &mut self.f[i];
                let _ = catch(|| {
                    f.data_mut(ids[x]).map(|d| d.v());
                    if let Some(mut m) = f.node_mut(ids[x]) {
                        m.data_mut().v();
                        let _ = m.node().first_child_id();
                        m.forest().data(ids[x]).map(|d| d.v());
                    }
                    f.node_mut(ids[x]).map(|m| m.into_data_ref_mut().v());
                });
            }
            crate::readers::read_all(&self.f[i], ids, &n, of());
            if project(&self.f[i], ids) != before {
                probs.push(prob(&["C25"], format!("reading forest {} changes it", i + 1)));
            }
        }
        probs
    }

    /// The whole real state, hidden parts included: a 128-bit hash of its text.
    pub fn fingerprint(&self, with_data: bool) -> Option<u128> {
        use std::fmt::Write;
        use std::hash::Hasher;
        struct H(std::collections::hash_map::DefaultHasher, std::collections::hash_map::DefaultHasher);
        impl fmt::Write for H {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.0.write(s.as_bytes());
                self.1.write(s.as_bytes());
                Ok(())
            }
        }
        let mut h = H(Default::default(), Default::default());
        h.1.write_u8(1);
        HIDE_DATA.with(|h| h.set(!with_data));
        let r = catch(|| write!(h, "{:?}", self.f).is_ok());
        HIDE_DATA.with(|h| h.set(false));
        r.map(|_| (h.0.finish() as u128) << 64 | h.1.finish() as u128)
    }

    /// The datum of the next node: the specification's NewDatum, scaled.
    fn fresh(&self, i: usize) -> i64 {
        told((i as i64 + 1) * 10000 + self.ids[i].len() as i64 + 1)
    }

    /// Performs the operation through entry point `variant`.
    /// `expected_out` is what the specification says the operation hands out;
    /// None: that is judged later, from what is recorded in `Did`.
    pub fn apply(
        &mut self,
        op: &Op,
        base: usize,
        variant: usize,
        allowed: u8,
        expected_out: Option<&[i64]>,
        spare: &[I],
    ) -> Did {
        if !self.nest {
            return self.apply_(op, base, variant, allowed, expected_out, spare);
        }
        NEST.with(|n| n.set(Some(interlude::<I>)));
        let mut d = self.apply_(op, base, variant, allowed, expected_out, spare);
        NEST.with(|n| n.set(None));
        if NEST_BAD.with(|b| b.replace(false)) {
            d.probs.push(prob(&["C20"], "work on another forest in a callback goes wrong".into()));
        }
        d
    }

    fn apply_(
        &mut self,
        op: &Op,
        base: usize,
        variant: usize,
        allowed: u8,
        expected_out: Option<&[i64]>,
        spare: &[I],
    ) -> Did {
        let i = op.a[0] as usize - 1;
        let tags = op_tags(op.k, allowed);
        let mut probs: Vec<Prob> = Vec::new();
        let mut did = Did::default();
        let reply = match op.k {
            K::Root => {
                let v = self.fresh(i);
                did.datum = v;
                self.tries[i] += 1;
                let f = &mut self.f[i];
                match catch(|| f.create_root(P::new(v))) {
                    Some(id) => {
                        self.learn(i, id, v, tags, &mut probs);
                        OK
                    }
                    None => {
                        self.left(i, 1);
                        PANIC
                    }
                }
            }
            K::CIns => {
                let (pos, y) = (op.a[1], op.a[2]);
                let (b, far) = (variant % base, variant / base > 0);
                let yid = self.id(i, y, far, spare);
                let v = self.fresh(i);
                did.datum = v;
                self.tries[i] += 1;
                let f = &mut self.f[i];
                let r = if b == 0 {
                    catch(|| f.create_insert(P::new(v), insert_as(pos, yid)))
                } else {
                    catch(|| {
                        f.node_mut(yid)
                            .expect("node_mut of a live node")
                            .create(P::new(v), adopt_as(pos))
                    })
                };
                match r {
                    Some(id) => {
                        self.learn(i, id, v, tags, &mut probs);
                        OK
                    }
                    None => {
                        self.left(i, 1);
                        PANIC
                    }
                }
            }
            K::Ins => {
                let (x, pos, y) = (op.a[1], op.a[2], op.a[3]);
                let (b, far) = (variant % base, variant / base > 0);
                let xid = self.id(i, x, far, spare);
                let yid = self.id(i, y, far, spare);
                let f = &mut self.f[i];
                match b {
                    0 => of_result(catch(|| f.insert(xid, insert_as(pos, yid)))),
                    1 => of_result(catch(|| {
                        f.node_mut(yid).expect("live").try_adopt(xid, adopt_as(pos))
                    })),
                    _ => {
                        let r = catch(|| f.node_mut(yid).expect("live").adopt(xid, adopt_as(pos)));
                        did.adopt = true;
                        // The panicking form: any refusal is a panic.
                        match r {
                            None if expected_out.is_none() => PANIC,
                            Some(()) => OK,
                            None if allowed != OK => allowed & !OK,
                            None => PANIC,
                        }
                    }
                }
            }
            K::Det => {
                let (b, far) = (variant % base, variant / base > 0);
                let xid = self.id(i, op.a[1], far, spare);
                let f = &mut self.f[i];
                let r = if b == 0 {
                    catch(|| f.detach(xid))
                } else {
                    catch(|| f.node_mut(xid).expect("live").detach())
                };
                of_result(r.map(Ok))
            }
            K::DetS => {
                let (b, far) = (variant % base, variant / base > 0);
                let xid = self.id(i, op.a[1], far, spare);
                let f = &mut self.f[i];
                of_result(if b == 0 {
                    catch(|| f.detach_single(xid))
                } else {
                    catch(|| f.node_mut(xid).expect("live").detach_single())
                })
            }
            K::Rem => {
                let (b, far) = (variant % base, variant / base > 0);
                let xid = self.id(i, op.a[1], far, spare);
                let expect_vals: Option<Vec<i64>> =
                    expected_out.map(|o| o.iter().map(|n| self.vals[i][*n as usize - 1]).collect());
                let limit = self.vals[i].len() + 8;
                let f = &mut self.f[i];
                let mut got: Vec<i64> = Vec::new();
                let hook = |p: P| {
                    assert!(got.len() < limit, "hook called without end");
                    nested();
                    got.push(p.v());
                };
                let r = match b {
                    0 => catch(|| f.remove(xid)),
                    1 => catch(|| f.remove_hooked(xid, hook)),
                    2 => catch(|| f.remove_hooked_panic_safe(xid, hook)),
                    3 => catch(|| f.node_mut(xid).expect("live").remove()),
                    4 => catch(|| f.node_mut(xid).expect("live").remove_hooked(hook)),
                    _ => catch(|| f.node_mut(xid).expect("live").remove_hooked_panic_safe(hook)),
                };
                let hooked = b % 3 != 0;
                let mut t = tags.to_vec();
                t.push("C10");
                if let (true, Some(e)) = (hooked, expect_vals) {
                    if got != e {
                        probs.push(prob(&t, format!("data handed to the hook: {}, expected {}", brief(&got), brief(&e))));
                    }
                }
                did.hooked = hooked;
                did.out = got;
                of_result(r.map(Ok))
            }
            K::RemP => {
                let (x, k) = (op.a[1], op.a[2] as usize);
                let xid = self.id(i, x, false, spare);
                let expect_vals: Option<Vec<i64>> =
                    expected_out.map(|o| o.iter().map(|n| self.vals[i][*n as usize - 1]).collect());
                let limit = self.vals[i].len() + 8;
                let f = &mut self.f[i];
                let mut got: Vec<i64> = Vec::new();
                let hook = |p: P| {
                    assert!(got.len() < limit, "hook called without end");
                    nested();
                    got.push(p.v());
                    if got.len() >= k {
                        panic!("hook panics");
                    }
                };
                let r = if variant == 0 {
                    catch(|| f.remove_hooked_panic_safe(xid, hook))
                } else {
                    catch(|| f.node_mut(xid).expect("live").remove_hooked_panic_safe(hook))
                };
                if let Some(e) = expect_vals {
                    if got != e {
                        probs.push(prob(
                            &["C07", "C10"],
                            format!("data handed to the hook: {}, expected {}", brief(&got), brief(&e)),
                        ));
                    }
                }
                did.hooked = true;
                did.out = got;
                of_result(r.map(Ok))
            }
            K::Clone => {
                let (x, d) = (op.a[1], op.a[2] as usize - 1);
                let (b, far) = (variant % base, variant / base > 0);
                let xid = self.id(i, x, far, spare);
                let src_walk: Vec<i64> = match expected_out {
                    Some(o) if !o.is_empty() => o.to_vec(),
                    _ if self.knows(i, x) && self.f[i].node(xid).is_some() => {
                        let l = self.ids[i].len();
                        let n = Names::new(&self.ids[i]);
                        self.walk(i, xid, l).into_iter().map(|y| n.of(y)).collect()
                    }
                    _ => Vec::new(),
                };
                let n = src_walk.len();
                let limit = n + 8;
                self.tries[d] += n.max(1);
                let mut map: Vec<(I, I)> = Vec::new();
                let r = if d == i {
                    let f = &mut self.f[i];
                    if b == 0 {
                        catch(|| f.clone_local_tree(xid))
                    } else {
                        catch(|| {
                            f.clone_local_tree_with_id_mapping(xid, |s, c| {
                                assert!(map.len() < limit, "mapping called without end");
                                nested();
                                map.push((s, c))
                            })
                        })
                    }
                } else {
                    let (src, dst) = two(&mut self.f, i, d);
                    if b == 0 {
                        catch(|| dst.clone_foreign_tree(src.node(xid).expect("live")))
                    } else {
                        catch(|| {
                            dst.clone_foreign_tree_with_id_mapping(src.node(xid).expect("live"), |s, c| {
                                assert!(map.len() < limit, "mapping called without end");
                                nested();
                                map.push((s, c))
                            })
                        })
                    }
                };
                match r {
                    Some(root) => {
                        let walk = self.walk(d, root, limit);
                        if walk.len() != n {
                            probs.push(prob(tags, format!("the copy has {} nodes, expected {}", walk.len(), n)));
                        }
                        let first = self.ids[d].len();
                        let mut known: HashSet<I> = self.ids[d].iter().copied().collect();
                        for (j, id) in walk.iter().take(n).enumerate() {
                            let v = self.vals[i].get(src_walk[j] as usize - 1).copied().unwrap_or(ODD);
                            let old = !known.insert(*id);
                            self.learn_as(d, *id, v, old, tags, &mut probs);
                        }
                        if b == 1 {
                            did.hooked = true;
                            let (ni, nd) = (Names::new(&self.ids[i]), Names::new(&self.ids[d]));
                            did.pairs = map.iter().map(|(s, c)| (ni.of(*s), nd.of(*c))).collect();
                            let mut want: Vec<(i64, i64)> =
                                (0..n).map(|j| (src_walk[j], (first + j) as i64 + 1)).collect();
                            let mut have = did.pairs.clone();
                            want.sort();
                            have.sort();
                            if want != have {
                                probs.push(prob(
                                    &["C11"],
                                    format!(
                                        "mapping reported {} pairs, expected {}, with {:?} in place of {:?}",
                                        have.len(),
                                        want.len(),
                                        have.iter().filter(|x| want.binary_search(x).is_err()).take(30).collect::<Vec<_>>(),
                                        want.iter().filter(|x| have.binary_search(x).is_err()).take(30).collect::<Vec<_>>()
                                    ),
                                ));
                            }
                        }
                        OK
                    }
                    None => {
                        self.left(d, n as i64);
                        PANIC
                    }
                }
            }
            K::CloneP => {
                let (x, d, k) = (op.a[1], op.a[2] as usize - 1, op.a[3]);
                let xid = self.id(i, x, false, spare);
                // The copy may be complete when a callback panics.
                let n = self.walk(i, xid, self.ids[i].len() + 8).len().max(k as usize);
                self.tries[d] += n;
                self.left(d, n as i64);
                let mut calls = 0;
                if variant == 0 {
                    CLONE_PANICS_IN.with(|c| c.set(k));
                }
                let mapping = |_: I, _: I| {
                    calls += 1;
                    nested();
                    if variant == 1 && calls >= k {
                        panic!("mapping panics");
                    }
                };
                let r = if d == i {
                    let f = &mut self.f[i];
                    if variant == 0 {
                        catch(|| f.clone_local_tree(xid))
                    } else {
                        catch(|| f.clone_local_tree_with_id_mapping(xid, mapping))
                    }
                } else {
                    let (src, dst) = two(&mut self.f, i, d);
                    if variant == 0 {
                        catch(|| dst.clone_foreign_tree(src.node(xid).expect("live")))
                    } else {
                        catch(|| dst.clone_foreign_tree_with_id_mapping(src.node(xid).expect("live"), mapping))
                    }
                };
                CLONE_PANICS_IN.with(|c| c.set(0));
                match r {
                    None => PANIC,
                    Some(_) => OK,
                }
            }
            K::Copy => {
                let d = op.a[1] as usize - 1;
                let (src, dst) = two(&mut self.f, i, d);
                let r = if variant == 0 {
                    catch(|| src.clone()).map(|c| *dst = c)
                } else {
                    catch(|| dst.clone_from(src))
                };
                self.ids[d] = self.ids[i].clone();
                self.vals[d] = self.vals[i].clone();
                self.tries[d] = self.tries[i];
                self.orphans[d] = self.orphans[i];
                of_result(r.map(Ok))
            }
            K::Set => {
                let x = op.a[1];
                let xid = self.id(i, x, false, spare);
                let old = self.vals[i][x as usize - 1];
                let v = told(if old < SET { old + SET } else { old - SET });
                did.datum = v;
                let f = &mut self.f[i];
                let r = match variant {
                    0 => catch(|| *f.data_mut(xid).expect("live") = P::new(v)),
                    1 => catch(|| *f.node_mut(xid).expect("live").data_mut() = P::new(v)),
                    _ => catch(|| *f.node_mut(xid).expect("live").into_data_ref_mut() = P::new(v)),
                };
                self.vals[i][x as usize - 1] = v;
                of_result(r.map(Ok))
            }
            K::Probe => {
                let far = variant > 0;
                let xid = self.id(i, op.a[1], far, spare);
                let f = &mut self.f[i];
                let mut odd: Vec<&'static str> = Vec::new();
                let mut want = |n: &'static str, ok: Option<bool>| {
                    if ok != Some(true) {
                        odd.push(n)
                    }
                };
                want("node", catch(|| f.node(xid).is_none()));
                want("node_mut", catch(|| f.node_mut(xid).is_none()));
                want("data", catch(|| f.data(xid).is_none()));
                want("data_mut", catch(|| f.data_mut(xid).is_none()));
                want("depth_first_traverse", Some(catch(|| f.depth_first_traverse(xid).next().is_some()).is_none()));
                want(
                    "shallow_depth_first_traverse",
                    Some(catch(|| f.shallow_depth_first_traverse(xid, None).next().is_some()).is_none()),
                );
                want(
                    "shallow_depth_first_traverse(0)",
                    Some(catch(|| f.shallow_depth_first_traverse(xid, Some(0)).next().is_some()).is_none()),
                );
                want("breadth_first_traverse", Some(catch(|| f.breadth_first_traverse(xid).next().is_some()).is_none()));
                want(
                    "allocating_breadth_first_traverse",
                    Some(catch(|| f.allocating_breadth_first_traverse(xid).next().is_some()).is_none()),
                );
                want("ancestors", Some(catch(|| f.ancestors(xid).next().is_some()).is_none()));
                want("ancestors_or_self", Some(catch(|| f.ancestors_or_self(xid).next().is_some()).is_none()));
                want("children", Some(catch(|| f.children(xid).next().is_some()).is_none()));
                want("following_siblings", Some(catch(|| f.following_siblings(xid).next().is_some()).is_none()));
                want(
                    "following_siblings_or_self",
                    Some(catch(|| f.following_siblings_or_self(xid).next().is_some()).is_none()),
                );
                want("preceding_siblings", Some(catch(|| f.preceding_siblings(xid).next().is_some()).is_none()));
                want(
                    "preceding_siblings_or_self",
                    Some(catch(|| f.preceding_siblings_or_self(xid).next().is_some()).is_none()),
                );
                want("debug_print", Some(catch(|| f.debug_print(xid).to_string()).is_none()));
                if !odd.is_empty() {
                    probs.push(prob(&["C08"], format!("a dead or unknown node is served by {:?}", odd)));
                }
                did.odd = odd;
                PANIC
            }
        };
        if reply & allowed == 0 {
            let mut t = tags.to_vec();
            match op.k {
                // A possible placement that is refused, an impossible one that is made.
                K::Ins if allowed == OK => t.push("C03"),
                _ => {}
            }
            probs.push(prob(
                &t,
                format!("the reply is {}, allowed is {}", reply_name(reply), reply_name(allowed)),
            ));
        }
        did.reply = reply;
        did.probs = probs;
        did
    }

    /// Binds the next name of forest i to the id that was handed out.
    fn learn(&mut self, i: usize, id: I, v: i64, tags: &[&'static str], probs: &mut Vec<Prob>) {
        let known = self.ids[i].contains(&id);
        self.learn_as(i, id, v, known, tags, probs);
    }

    fn learn_as(&mut self, i: usize, id: I, v: i64, known: bool, tags: &[&'static str], probs: &mut Vec<Prob>) {
        if known {
            let mut t = tags.to_vec();
            t.push("C08");
            probs.push(prob(&t, format!("the id of the new node was already handed out: {:?}", id)));
        }
        self.ids[i].push(id);
        self.vals[i].push(v);
    }

    /// Preorder of a real tree by first-child and next-sibling links, bounded.
    pub fn walk(&self, i: usize, root: I, limit: usize) -> Vec<I> {
        let f = &self.f[i];
        let mut out = Vec::new();
        let mut stack = vec![(root, true)];
        while let Some((x, top)) = stack.pop() {
            if out.len() > limit {
                break;
            }
            out.push(x);
            let (fc, nx) = match catch(|| f.node(x).map(|n| (n.first_child_id(), n.next_sibling_id()))) {
                Some(Some(v)) => v,
                _ => (None, None),
            };
            if let (Some(n), false) = (nx, top) {
                stack.push((n, false));
            }
            if let Some(c) = fc {
                stack.push((c, false));
            }
        }
        out
    }
}

// --------------------------------------------------------------- projection

/// What the neighbour accessors report about every named node.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Proj {
    pub par: Vec<i64>,
    pub pv: Vec<i64>,
    pub nx: Vec<i64>,
    pub fc: Vec<i64>,
    pub lc: Vec<i64>,
    pub data: Vec<i64>,
}

pub fn project<I: NodeId>(f: &Forest<I, P>, ids: &[I]) -> Proj {
    let map: Option<HashMap<I, i64>> = if ids.len() > 24 {
        Some(ids.iter().enumerate().map(|(k, x)| (*x, k as i64 + 1)).collect())
    } else {
        None
    };
    let name = |o: Option<I>| -> i64 {
        match o {
            None => 0,
            Some(id) => match &map {
                Some(m) => m.get(&id).copied().unwrap_or(ODD),
                None => ids.iter().position(|x| *x == id).map_or(ODD, |p| p as i64 + 1),
            },
        }
    };
    let acc = |o: Option<Option<I>>| -> i64 {
        match o {
            None => BROKEN,
            Some(o) => name(o),
        }
    };
    let mut p = Proj::default();
    for id in ids {
        let row = match catch(|| f.node(*id)) {
            None => [BROKEN; 6],
            Some(None) => [DEAD; 6],
            Some(Some(n)) => [
                acc(catch(|| n.parent_id())),
                acc(catch(|| n.prev_sibling_id())),
                acc(catch(|| n.next_sibling_id())),
                acc(catch(|| n.first_child_id())),
                acc(catch(|| n.last_child_id())),
                catch(|| n.data().v()).unwrap_or(BROKEN),
            ],
        };
        p.par.push(row[0]);
        p.pv.push(row[1]);
        p.nx.push(row[2]);
        p.fc.push(row[3]);
        p.lc.push(row[4]);
        p.data.push(row[5]);
    }
    p
}

/// A forest value of the specification.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FSpec {
    pub par: Vec<i64>,
    pub kids: Vec<Vec<i64>>,
    pub data: Vec<i64>,
}

impl FSpec {
    pub fn alive(&self, x: i64) -> bool {
        x >= 1 && (x as usize) <= self.par.len() && self.par[x as usize - 1] != DEAD
    }
    /// The accessor values the specification derives for it, with the given data.
    pub fn proj(&self, vals: &[i64]) -> Proj {
        let n = self.par.len();
        let mut p = Proj {
            par: self.par.clone(),
            pv: vec![0; n],
            nx: vec![0; n],
            fc: vec![0; n],
            lc: vec![0; n],
            data: vals[..n].to_vec(),
        };
        for k in 0..n {
            if self.par[k] == DEAD {
                p.pv[k] = DEAD;
                p.nx[k] = DEAD;
                p.fc[k] = DEAD;
                p.lc[k] = DEAD;
                p.data[k] = DEAD;
                continue;
            }
            let c = &self.kids[k];
            if let (Some(a), Some(b)) = (c.first(), c.last()) {
                p.fc[k] = *a;
                p.lc[k] = *b;
            }
            for w in c.windows(2) {
                p.nx[w[0] as usize - 1] = w[1];
                p.pv[w[1] as usize - 1] = w[0];
            }
        }
        p
    }
}

/// Are the reported links an ordered forest? (C01, on what was observed alone)
pub fn links_problem(p: &Proj) -> Option<String> {
    let n = p.par.len();
    let live = |x: i64| x >= 1 && (x as usize) <= n && p.par[x as usize - 1] != DEAD;
    let at = |v: &Vec<i64>, x: i64| v[x as usize - 1];
    let mut by_parent: Vec<Vec<i64>> = vec![Vec::new(); n];
    for k in 0..n {
        let x = k as i64 + 1;
        if p.par[k] == DEAD {
            continue;
        }
        for (w, v) in [("parent", &p.par), ("previous sibling", &p.pv), ("next sibling", &p.nx), ("first child", &p.fc), ("last child", &p.lc)] {
            if v[k] != 0 && !live(v[k]) {
                return Some(format!("the {} of {} is {}", w, x, if v[k] == BROKEN { "a panic".into() } else { format!("{} (not alive)", v[k]) }));
            }
        }
        if p.par[k] == 0 && (p.nx[k] != 0 || p.pv[k] != 0) {
            return Some(format!("root {} has a sibling", x));
        }
        if p.par[k] != 0 {
            by_parent[p.par[k] as usize - 1].push(x);
        }
    }
    // No cycle above: 0 not seen yet, 1 on the way being followed, 2 leads to a root.
    let mut mark = vec![0u8; n];
    for k in 0..n {
        if p.par[k] == DEAD {
            continue;
        }
        let mut way = Vec::new();
        let mut a = k as i64 + 1;
        while a != 0 && mark[a as usize - 1] == 0 {
            mark[a as usize - 1] = 1;
            way.push(a);
            a = at(&p.par, a);
        }
        if a != 0 && mark[a as usize - 1] == 1 {
            return Some(format!("{} is its own ancestor", a));
        }
        for x in way {
            mark[x as usize - 1] = 2;
        }
    }
    for k in 0..n {
        let x = k as i64 + 1;
        if p.par[k] == DEAD {
            continue;
        }
        let want = &by_parent[k];
        let limit = want.len() + 3;
        let mut fwd = Vec::new();
        let mut c = p.fc[k];
        while c != 0 && live(c) && fwd.len() <= limit {
            fwd.push(c);
            c = at(&p.nx, c);
        }
        let mut bwd = Vec::new();
        let mut c = p.lc[k];
        while c != 0 && live(c) && bwd.len() <= limit {
            bwd.push(c);
            c = at(&p.pv, c);
        }
        bwd.reverse();
        if fwd != bwd {
            return Some(format!("children of {} forwards {}, backwards reversed {}", x, brief(&fwd), brief(&bwd)));
        }
        let mut s = fwd.clone();
        s.sort();
        s.dedup();
        if s.len() != fwd.len() {
            return Some(format!("children of {} repeat: {}", x, brief(&fwd)));
        }
        if s != *want {
            return Some(format!("children of {} by sibling links {}, by parent links {}", x, brief(&s), brief(want)));
        }
    }
    None
}

/// Differences between what is observed and what the specification expects of
/// one forest after an operation; `touched(x)`: may the operation affect x?
pub fn compare(
    got: &Proj,
    want: &Proj,
    tags: &[&'static str],
    touched: impl Fn(i64) -> bool,
    where_: &str,
) -> Vec<Prob> {
    let mut out = Vec::new();
    if let Some(m) = links_problem(got) {
        let mut t = tags.to_vec();
        t.push("C01");
        out.push(prob(&t, format!("{}: {}", where_, m)));
    }
    if got == want {
        return out;
    }
    let n = want.par.len();
    let mut t: Vec<&'static str> = Vec::new();
    let mut msgs = Vec::new();
    let mut bad = 0;
    for k in 0..n {
        let x = k as i64 + 1;
        let mut differs = false;
        if (got.par[k] == DEAD) != (want.par[k] == DEAD) || got.par[k] == BROKEN {
            t.extend(["C08", "C10"]);
            t.extend(tags);
            differs = true;
        } else if got.data[k] != want.data[k] {
            t.extend(["C10"]);
            t.extend(tags);
            differs = true;
        }
        if (got.par[k], got.pv[k], got.nx[k], got.fc[k], got.lc[k])
            != (want.par[k], want.pv[k], want.nx[k], want.fc[k], want.lc[k])
        {
            t.extend(tags);
            differs = true;
        }
        if differs {
            if !touched(x) {
                t.push("C20");
            }
            bad += 1;
            if bad > 40 {
                continue;
            }
            msgs.push(format!(
                "node {}: (parent,prev,next,first,last,data) is {:?}, expected {:?}",
                x,
                (got.par[k], got.pv[k], got.nx[k], got.fc[k], got.lc[k], got.data[k]),
                (want.par[k], want.pv[k], want.nx[k], want.fc[k], want.lc[k], want.data[k])
            ));
        }
    }
    if bad > 40 {
        msgs.push(format!("and {} more nodes", bad - 40));
    }
    t.sort();
    t.dedup();
    out.push(prob(&t, format!("{}: {}", where_, msgs.join("; "))));
    out
}

// --------------------------------------------------------------------- views

/// Do all views of every live node agree with each other? (C21)
pub fn views<I: NodeId>(f: &mut Forest<I, P>, ids: &[I]) -> Option<String> {
    let before = project(f, ids);
    for id in ids {
        let id = *id;
        let r = catch(|| -> Result<(), String> {
            if f.node(id).is_none() {
                return Ok(());
            }
            macro_rules! same {
                ($what:expr, $a:expr, $b:expr) => {
                    let (a, b) = ($a, $b);
                    if a != b {
                        return Err(format!("{}: {:?} against {:?}", $what, a, b));
                    }
                };
            }
            let v = f.data(id).map(|p| p.v());
            same!("data_mut", f.data_mut(id).map(|p| p.v()), v);
            {
                let mut m = f.node_mut(id).ok_or("node_mut is none")?;
                same!("NodeMut::id", m.id(), id);
                same!("NodeMut::data", Some(m.data().v()), v);
                same!("NodeMut::data_mut", Some(m.data_mut().v()), v);
                same!("NodeMut::node().id", m.node().id(), id);
                same!("NodeMut::node().data", Some(m.node().data().v()), v);
                same!("NodeMut::forest", m.forest().data(id).map(|p| p.v()), v);
                let (a, b) = (m.debug_print().to_string(), m.node().debug_print().to_string());
                same!("NodeMut::debug_print", &a, &b);
                same!("NodeMut::node().neighbours", nb(m.node()), nb(m.forest().node(id).ok_or("node is none")?));
            }
            same!("into_data_ref_mut", f.node_mut(id).map(|m| m.into_data_ref_mut().v()), v);
            {
                let want = nb(f.node(id).ok_or("node is none")?);
                let m = f.node_mut(id).ok_or("node_mut is none")?.into_node();
                same!("into_node id", m.id(), id);
                same!("into_node data", Some(m.data().v()), v);
                same!("into_node neighbours", nb(m), want);
            }
            let f = &*f;
            let n = f.node(id).ok_or("node is none")?;
            same!("Node::id", n.id(), id);
            same!("Node::data", Some(n.data().v()), v);
            same!("Node::forest", std::ptr::eq(n.forest(), f), true);
            #[allow(clippy::clone_on_copy)]
            let c = n.clone();
            same!("Node::clone", (c.id(), nb(c)), (id, nb(n)));
            same!("Forest::debug_print", f.debug_print(id).to_string(), n.debug_print().to_string());
            same!("parent", n.parent().map(|m| m.id()), n.parent_id());
            same!("next_sibling", n.next_sibling().map(|m| m.id()), n.next_sibling_id());
            same!("prev_sibling", n.prev_sibling().map(|m| m.id()), n.prev_sibling_id());
            same!("first_child", n.first_child().map(|m| m.id()), n.first_child_id());
            same!("last_child", n.last_child().map(|m| m.id()), n.last_child_id());
            same!("first_last_child_id", n.first_last_child_id(), n.first_child_id().zip(n.last_child_id()));
            same!(
                "first_last_child",
                n.first_last_child().map(|(a, b)| (a.id(), b.id())),
                n.first_child_id().zip(n.last_child_id())
            );
            same!("one of first and last child", n.first_child_id().is_some(), n.last_child_id().is_some());
            // Proxies reached through neighbours are full views of their nodes.
            for m in [n.parent(), n.next_sibling(), n.prev_sibling(), n.first_child(), n.last_child()]
                .into_iter()
                .flatten()
                .chain(n.first_last_child().into_iter().flat_map(|(a, b)| [a, b]))
            {
                same!("proxy of a neighbour", std::ptr::eq(m.forest(), f), true);
                same!("data through a proxy", Some(m.data().v()), f.data(m.id()).map(|p| p.v()));
                same!("neighbours through a proxy", Some(nb(m)), f.node(m.id()).map(nb));
            }
            // Children by accessors and by iterator.
            let limit = ids.len() + 2;
            let mut by_links = Vec::new();
            let mut c = n.first_child_id();
            while let Some(x) = c {
                by_links.push(x);
                if by_links.len() > limit {
                    break;
                }
                c = f.node(x).ok_or("child is dead")?.next_sibling_id();
            }
            let it: Vec<I> = n.children().take(limit).map(|m| m.id()).collect();
            same!("children() against links", &it, &by_links);
            let it: Vec<I> = f.children(id).take(limit).map(|m| m.id()).collect();
            same!("Forest::children() against links", &it, &by_links);
            same!("children().next_back() against last_child", n.children().next_back().map(|m| m.id()), n.last_child_id());
            Ok(())
        });
        match r {
            None => return Some(format!("an accessor of {:?} panics", id)),
            Some(Err(m)) => return Some(format!("node {:?}: {}", id, m)),
            Some(Ok(())) => {}
        }
    }
    if before != project(f, ids) {
        return Some("accessors change the forest".into());
    }
    None
}

pub type Nb<I> = (Option<I>, Option<I>, Option<I>, Option<I>, Option<I>, Option<(I, I)>);
pub fn nb<I: NodeId>(n: treena::dynamic::Node<'_, I, P>) -> Nb<I> {
    (
        n.parent_id(),
        n.prev_sibling_id(),
        n.next_sibling_id(),
        n.first_child_id(),
        n.last_child_id(),
        n.first_last_child_id(),
    )
}
