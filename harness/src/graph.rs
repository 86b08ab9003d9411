//! The state graph TLC emitted.

use std::collections::HashMap;
use std::fs;

use crate::val::{parse_printed, V};
use crate::world::{entry_points, kind, reply_bit, FSpec, Op};

pub struct Trans {
    pub op: Op,
    pub allowed: u8,
    pub out: Vec<i64>,
    pub post: usize,
    pub base: usize,
    pub twice: bool,
}

impl Trans {
    pub fn variants(&self) -> usize {
        if self.twice {
            self.base * 2
        } else {
            self.base
        }
    }
}

/// Expected traversals and neighbours of one node.
#[derive(Clone, Default)]
pub struct Trav {
    pub dftd: Vec<(i64, i64)>,
    pub bft: Vec<(i64, i64)>,
    pub anc: Vec<i64>,
    pub kids: Vec<i64>,
    pub fol: Vec<i64>,
    pub pre: Vec<i64>,
}

pub struct St {
    pub f: Vec<FSpec>,
    pub trans: Vec<Trans>,
    /// By forest, by node.
    pub trav: Vec<Vec<Option<Trav>>>,
}

pub struct Graph {
    pub st: Vec<St>,
    pub init: usize,
    /// The states steps are to be taken from (MCSteps).
    pub begin: Vec<usize>,
    pub ntrans: usize,
}

pub fn pairs(v: &V) -> Vec<(i64, i64)> {
    v.t().iter().map(|e| (e.t()[0].i(), e.t()[1].i())).collect()
}

pub fn trav(v: &V) -> Option<Trav> {
    let t = v.t();
    if t.is_empty() {
        return None;
    }
    Some(Trav {
        dftd: pairs(&t[0]),
        bft: pairs(&t[1]),
        anc: t[2].ints(),
        kids: t[3].ints(),
        fol: t[4].ints(),
        pre: t[5].ints(),
    })
}

pub fn fspec(v: &V) -> FSpec {
    let t = v.t();
    FSpec {
        par: t[0].ints(),
        kids: t[1].t().iter().map(V::ints).collect(),
        data: t[2].ints(),
    }
}

/// A transition: operation, arguments, allowed replies, what it hands out.
pub fn trans(op: &V, args: &V, r: &V, out: &V, pre: &[FSpec], post: usize) -> Trans {
    let mut a = [0i64; 4];
    for (k, v) in args.t().iter().enumerate() {
        a[k] = v.i();
    }
    let op = Op { k: kind(op.s()), a };
    let allowed = r.t().iter().fold(0, |m, r| m | reply_bit(r.s()));
    let f = &pre[a[0] as usize - 1];
    let (base, twice) = entry_points(&op, |x| f.alive(x), |x| x < 1 || x as usize > f.par.len());
    Trans { op, allowed, out: out.ints(), post, base, twice }
}

/// Parses the printed lines of a TLC run, in parallel.
pub fn read_lines(path: &str) -> Vec<V> {
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("tool: {}: {}", path, e));
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("\"<<")).collect();
    let n = 8;
    let chunk = lines.len().div_ceil(n).max(1);
    let mut out: Vec<Vec<V>> = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = lines
            .chunks(chunk)
            .map(|c| {
                s.spawn(move || {
                    c.iter()
                        .map(|l| parse_printed(l).unwrap_or_else(|| panic!("tool: bad line {}", l)))
                        .collect::<Vec<V>>()
                })
            })
            .collect();
        for h in hs {
            out.push(h.join().expect("tool: parser"));
        }
    });
    out.into_iter().flatten().collect()
}

pub fn load(path: &str) -> Graph {
    let mut idx: HashMap<V, usize> = HashMap::new();
    let mut st: Vec<St> = Vec::new();
    let mut ntrans = 0;
    let mut begin = Vec::new();
    fn intern(v: &V, idx: &mut HashMap<V, usize>, st: &mut Vec<St>) -> usize {
        if let Some(i) = idx.get(v) {
            return *i;
        }
        let i = st.len();
        idx.insert(v.clone(), i);
        st.push(St {
            f: v.t().iter().map(fspec).collect(),
            trans: Vec::new(),
            trav: Vec::new(),
        });
        i
    }
    let lines = read_lines(path);
    for l in &lines {
        let t = l.t();
        match t[0].s() {
            "T" => {
                let pre = intern(&t[1], &mut idx, &mut st);
                let post = intern(&t[6], &mut idx, &mut st);
                let tr = trans(&t[2], &t[3], &t[4], &t[5], &st[pre].f, post);
                st[pre].trans.push(tr);
                ntrans += 1;
            }
            "B" => begin.push(intern(&t[1], &mut idx, &mut st)),
            "S" => {
                let i = intern(&t[1], &mut idx, &mut st);
                st[i].trav = t[2].t().iter().map(|f| f.t().iter().map(trav).collect()).collect();
            }
            x => panic!("tool: unknown line {}", x),
        }
    }
    let init = st.iter().position(|s| s.f.iter().all(|f| f.par.is_empty())).unwrap_or(usize::MAX);
    if begin.is_empty() {
        assert!(init != usize::MAX, "tool: no initial state");
        for s in &st {
            assert!(!s.trav.is_empty(), "tool: a state was not emitted");
        }
    }
    Graph { st, init, begin, ntrans }
}
