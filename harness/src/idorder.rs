//! Ids as values: equality, hashing and order, against `MCIds`.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use treena::dynamic::{Forest, NodeId};

use crate::graph::read_lines;
use crate::report::{beat, catch, note, step, Report};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// How two ids differ from what is expected of them.
fn compare<I: Ord + Copy + Hash + Debug>(a: I, b: I, want: Ordering) -> Option<String> {
    let eq = want == Ordering::Equal;
    let odd = |what: &str| Some(format!("{} of {:?} and {:?} is not as for {:?}", what, a, b, want));
    if (a == b) != eq || (a != b) == eq {
        return odd("equality");
    }
    if eq && hash(&a) != hash(&b) {
        return odd("the hash");
    }
    if a.cmp(&b) != want {
        return odd("cmp");
    }
    if a.partial_cmp(&b) != Some(want) {
        return odd("partial_cmp");
    }
    if (a < b, a <= b, a > b, a >= b)
        != (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge())
    {
        return odd("an order operator");
    }
    if (a.max(b), a.min(b)) != if want.is_gt() { (a, b) } else { (b, a) } {
        return odd("max or min");
    }
    if (Some(a) == Some(b), Some(a).cmp(&Some(b)), Some(a) == None) != (eq, want, false) {
        return odd("Option");
    }
    if (format!("{:?}", a) == format!("{:?}", b)) != eq {
        return odd("the debug form");
    }
    None
}

pub fn check<I>(path: &str, n: usize) -> Report
where
    I: NodeId + Ord,
    I::Internal: Ord,
{
    let mut rep = Report::default();
    let mut say = |m: String| {
        note(&["C24"], || m.clone());
        rep.add(&["C24"], || m);
    };
    // Created in a forest and, in the end, in a clone of it, with removals in between.
    step(&["C24"], || format!("creating {} nodes", n));
    let made = catch(|| {
        let mut f: Forest<I, usize> = Forest::new();
        let mut ids: Vec<I> = Vec::new();
        for k in 0..n - n / 4 {
            beat();
            ids.push(f.create_root(k));
            if k % 7 == 3 {
                f.remove(ids[k - 1]);
            }
        }
        let mut g = f.clone();
        drop(f);
        for k in ids.len()..n {
            beat();
            ids.push(g.create_root(k));
        }
        let found = (0..n).all(|k| match g.node(ids[k]) {
            Some(x) => x.id() == ids[k] && *x.data() == k,
            None => k % 7 == 2,
        });
        (ids, found)
    });
    let (ids, found) = match made {
        Some(v) => v,
        None => {
            say(format!("creating {} nodes panics", n));
            return rep;
        }
    };
    if !found {
        say("a node does not report the id it was created with".into());
    }
    let mut pairs = 0;
    let lines = read_lines(path);
    for l in &lines {
        let t = l.t();
        assert!(t[0].s() == "I", "tool: ids");
        let (i, j) = (t[1].i() as usize, t[2].i() as usize);
        if i >= n || j >= n {
            continue;
        }
        let want = match t[3].s() {
            "lt" => Ordering::Less,
            "eq" => Ordering::Equal,
            "gt" => Ordering::Greater,
            _ => panic!("tool: ids"),
        };
        pairs += 1;
        step(&["C24"], || format!("comparing the ids of nodes {} and {}", i, j));
        let (a, b) = (ids[i], ids[j]);
        let m = catch(|| {
            compare(a, b, want)
                .or_else(|| compare(a.to_internal(), b.to_internal(), want).map(|m| format!("internally, {}", m)))
                .or_else(|| {
                    let same = I::from_internal(a.to_internal()) == a;
                    (!same).then(|| format!("{:?} does not survive conversion", a))
                })
        });
        if let Some(m) = m.unwrap_or_else(|| Some("panics".into())) {
            say(format!("ids of nodes {} and {} by creation: {}", i, j, m));
        }
    }
    // All of them as keys and sorted.
    step(&["C24"], || format!("{} ids as keys", n));
    let odd = catch(|| {
        let m: HashMap<I, usize> = ids.iter().enumerate().map(|(k, x)| (*x, k)).collect();
        let s: BTreeSet<I> = ids.iter().rev().copied().collect();
        let mut v: Vec<I> = ids.iter().rev().copied().collect();
        v.sort();
        let mut w = v.clone();
        w.dedup();
        m.len() != n || ids.iter().enumerate().any(|(k, x)| m.get(x) != Some(&k)) || !s.iter().eq(ids.iter()) || w != ids
    });
    if odd != Some(false) {
        say(format!("{} ids as keys of maps and sets, or sorted, are not {} different ids in order of creation", n, n));
    }
    rep.count("id_pairs", pairs);
    rep
}
