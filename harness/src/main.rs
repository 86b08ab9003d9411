//! Conformance harness: binds the TLA+ specifications in /verif/spec to treena.

mod builders;
mod drills;
mod graph;
mod held;
mod huge;
#[cfg(feature = "idorder")]
mod idorder;
mod iters;
mod lockstep;
mod prints;
mod readers;
mod report;
mod sessions;
mod shapes;
mod steps;
mod trace;
mod val;
mod world;

use std::collections::HashMap;

use treena::dynamic::NodeIdUsize;
#[cfg(any(feature = "ids", feature = "idorder", feature = "narrow"))]
use treena::dynamic::{NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8};

#[global_allocator]
static A: report::Guard = report::Guard;

/// Small deterministic generator (xorshift*).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 {
            self.0 = 0x9E37_79B9_7F4A_7C15;
        }
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 33) % n
    }
}

/// User-defined id types.
#[cfg(any(feature = "ids", feature = "idorder", feature = "narrow"))]
#[cfg_attr(feature = "idorder", derive(PartialOrd, Ord))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct TupleId(NodeIdUsize);
#[cfg(any(feature = "ids", feature = "idorder", feature = "narrow"))]
treena::impl_dynamic_node_id!(TupleId, NodeIdUsize, 0);
#[cfg(any(feature = "ids", feature = "idorder", feature = "narrow"))]
#[cfg_attr(feature = "idorder", derive(PartialOrd, Ord))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct FieldId {
    inner: NodeIdU16,
}
#[cfg(any(feature = "ids", feature = "idorder", feature = "narrow"))]
treena::impl_dynamic_node_id!(FieldId, NodeIdU16, inner);

/// There must be room for n nodes, with ids of their own.
fn room(rep: &mut report::Report, id: &str, n: usize, probe: impl Fn(usize) -> (usize, bool)) {
    report::step(&["C19"], || format!("creating {} nodes, id type {}", n, id));
    let (have, twice) = probe(n);
    report::idle();
    if twice {
        rep.add(&["C19"], || format!("id type {}: the id of node {} has been handed out before", id, have + 1));
    } else if have < n {
        rep.add(&["C19"], || format!("id type {}: creating node {} is refused", id, have + 1));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let stage = args[0].clone();
    let o: HashMap<String, String> = args[1..]
        .iter()
        .map(|a| {
            let (k, v) = a.split_once('=').unwrap_or_else(|| panic!("tool: argument {}", a));
            (k.to_string(), v.to_string())
        })
        .collect();
    let num = |k: &str, d: u64| o.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("tool: {}={}", k, v)));
    let out = o.get("out").expect("tool: out=").clone();
    report::install_panic_hook();
    report::start_watchdog(&out, num("stall", 30));
    let threads = num("threads", 8) as usize;
    /// Runs something for the id type asked for.
    macro_rules! with_id {
        ($id:expr, $f:ident :: $g:ident ( $($a:expr),* )) => {
            match $id {
                "usize" => $f::$g::<NodeIdUsize>($($a),*),
                #[cfg(any(feature = "ids", feature = "narrow"))]
                "u8" => $f::$g::<NodeIdU8>($($a),*),
                #[cfg(any(feature = "ids", feature = "narrow"))]
                "u16" => $f::$g::<NodeIdU16>($($a),*),
                #[cfg(feature = "ids")]
                "u32" => $f::$g::<NodeIdU32>($($a),*),
                #[cfg(feature = "ids")]
                "u64" => $f::$g::<NodeIdU64>($($a),*),
                #[cfg(feature = "ids")]
                "tuple" => $f::$g::<TupleId>($($a),*),
                #[cfg(feature = "ids")]
                "field" => $f::$g::<FieldId>($($a),*),
                x => panic!("tool: id type {}", x),
            }
        };
    }
    let id = o.get("id").map_or("usize", |s| s.as_str());
    let rep = match stage.as_str() {
        "lockstep" => {
            let g = graph::load(&o["graph"]);
            let mut opts = lockstep::Opts {
                nf: num("nf", 1) as usize,
                threads,
                orphan_budget: num("orphans", 0) as u32,
                only: o.get("only").cloned(),
                iters: num("iters", 1) != 0,
                max_nodes: num("max_nodes", 0) as usize,
                secs: num("secs", 0) as u64,
                filler: num("filler", 0) as usize,
                with: lockstep::With::new(num("with", 0)),
                full: num("full", 0) as usize,
            };
            let d = num("data", 0) != 0;
            // max=: the maximum value of the id type; the filler leaves room
            // for what the specification has room for.
            let mut extra = report::Report::default();
            if let Some(max) = o.get("max").map(|m| m.parse::<usize>().expect("tool: max")) {
                report::step(&["C19"], || format!("creating nodes until refused, id type {}", id));
                let (cap, twice) = with_id!(id, lockstep::capacity(max + 10));
                report::idle();
                if twice {
                    extra.add(&["C19"], || format!("id type {}: the id of node {} has been handed out before", id, cap + 1));
                }
                if cap + 1 < max || cap > max {
                    extra.add(&["C19"], || format!("id type {}: {} nodes can be created, expected {} or {}", id, cap, max - 1, max));
                }
                opts.filler = cap.saturating_sub(opts.full);
                extra.count("capacity", cap as u64);
            } else if opts.filler > 0 {
                room(&mut extra, id, opts.filler + 16, |n| with_id!(id, lockstep::capacity(n)));
            }
            if extra.viol.is_empty() {
                let mut r = with_id!(id, lockstep::explore(&g, &opts, d));
                r.merge(extra);
                r
            } else {
                extra
            }
        }
        // Every iterator on the trees of MCShapes.
        "shapes" => {
            let sh = shapes::load(&o["graph"]);
            let only = o.get("only").map(|s| s.as_str());
            with_id!(id, shapes::check(&sh, num("small", 6) as usize, only, threads, num("ways", 3)))
        }
        // Two readers of the trees of MCShapes in the orders of Readers.
        "readers" => {
            let sh = shapes::load(&o["graph"]);
            with_id!(id, readers::check(&sh, &o["graph"], &o["words"], id, threads))
        }
        "alone" => {
            let sh = shapes::load(&o["graph"]);
            let (k, way, x, kind) = (num("tree", 0) as usize, num("way", 0), num("node", 0) as usize, num("kind", 0) as usize);
            let ok = with_id!(id, readers::alone(&sh, k, way, x, kind, &o["steps"]));
            std::process::exit(if ok { 0 } else { 3 });
        }
        // Threads that share a forest.
        #[cfg(feature = "shared")]
        "shared" => {
            let sh = shapes::load(&o["graph"]);
            with_id!(id, readers::shared(&sh, &o["graph"], id, threads, num("rounds", 300)))
        }
        // Every operation on the forests of MCSteps.
        "steps" => {
            let g = graph::load(&o["graph"]);
            with_id!(id, steps::check(&g, o.get("only").map(|s| s.as_str()), threads, num("ways", 4), lockstep::With::new(num("with", 0))))
        }
        // Several operations through one proxy.
        "held" => {
            let g = graph::load(&o["graph"]);
            with_id!(id, held::check(&g, threads, num("depth", 3) as usize))
        }
        // The behaviours of MCDrills.
        "drills" => with_id!(id, drills::check(&o["graph"], o.get("only").map(|s| s.as_str()), threads, num("passes", 4), lockstep::With::new(num("with", 0)))),
        // Everything on the trees of MCHuge.
        "huge" => with_id!(id, huge::check(&o["graph"], threads, num("budget", 120), o.get("only").map(|s| s.as_str()))),
        // Every builder program of MCBuilders.
        "builders" => {
            let (others, depth) = (num("others", 0) != 0, num("depth", 5) as usize);
            with_id!(id, builders::check(&o["graph"], others, depth, threads))
        }
        // Every printed tree of MCPrint.
        "prints" => with_id!(id, prints::check(&o["graph"], threads, num("splits", 2), num("nest", 0) != 0)),
        // Printing with faults, of MCPrintFaults.
        "printfaults" => with_id!(id, prints::check_faults(&o["graph"], threads)),
        // Ids as values, of MCIds; n= nodes are created.
        #[cfg(feature = "idorder")]
        "idorder" => {
            let (path, n) = (o["graph"].as_str(), num("n", 254) as usize);
            match id {
                "u8" => idorder::check::<NodeIdU8>(path, n),
                "u16" => idorder::check::<NodeIdU16>(path, n),
                "u32" => idorder::check::<NodeIdU32>(path, n),
                "u64" => idorder::check::<NodeIdU64>(path, n),
                "usize" => idorder::check::<NodeIdUsize>(path, n),
                "tuple" => idorder::check::<TupleId>(path, n),
                "field" => idorder::check::<FieldId>(path, n),
                x => panic!("tool: id type {}", x),
            }
        }
        "trace" if !world::COUNTED || world::UNIT => panic!("tool: recordings need counted data"),
        // jobs=FILE: one recording per line, "path key=value ...".
        "trace" => {
            let text = std::fs::read_to_string(&o["jobs"]).expect("tool: jobs");
            let mut jobs = Vec::new();
            for line in text.lines() {
                let mut it = line.split_whitespace();
                let path = it.next().expect("tool: jobs").to_string();
                let kv: HashMap<&str, &str> = it.map(|a| a.split_once('=').expect("tool: jobs")).collect();
                let n = |k: &str, d: usize| kv.get(k).map_or(d, |v| v.parse().expect("tool: jobs"));
                let mix: Vec<u64> = kv
                    .get("mix")
                    .map_or("60,20,6,8,6", |v| v)
                    .split(',')
                    .map(|x| x.parse().expect("tool: mix"))
                    .collect();
                let cfg = trace::Cfg {
                    name: kv["name"].to_string(),
                    nf: n("nf", 1),
                    target: n("target", 10),
                    max_ids: n("max_ids", 40),
                    events: n("events", 100),
                    seed: kv["seed"].parse().expect("tool: seed"),
                    cap: n("cap", 0),
                    fill: n("fill", 0),
                    graves: n("graves", 0) != 0,
                    paced: n("paced", 0) != 0,
                    shape: kv.get("shape").unwrap_or(&"").to_string(),
                    size: n("size", 0),
                    mix: [mix[0], mix[1], mix[2], mix[3], mix[4]],
                };
                jobs.push((cfg, path, kv.get("id").unwrap_or(&"usize").to_string()));
            }
            let mut extra = report::Report::default();
            let mut seen = std::collections::HashSet::new();
            for (c, _, id) in &jobs {
                if c.fill > 0 && seen.insert((id.clone(), c.fill)) {
                    room(&mut extra, id, c.fill, |n| with_id!(id.as_str(), lockstep::capacity(n)));
                }
            }
            if !extra.viol.is_empty() {
                report::write_report(&out, &extra);
                return;
            }
            trace::record_all(jobs, threads, |c, path, id| with_id!(id, trace::record(c, path)))
        }
        x => panic!("tool: unknown stage {}", x),
    };
    report::write_report(&out, &rep);
}
