//! Random driver: runs the real code and records what it does, as one JSON
//! object per event, for validation against ForestTrace.tla.

use std::io::Write;

use treena::dynamic::{Node, NodeId};

use crate::iters::{It, Item, Names};
use crate::report::{beat, catch, idle, js, step, Report};
use crate::sessions::*;
use crate::world::*;
use crate::Rng;

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub nf: usize,
    /// Live nodes to aim at, per forest.
    pub target: usize,
    /// Ids after which nothing is created any more, per forest.
    pub max_ids: usize,
    pub events: usize,
    pub seed: u64,
    /// Capacity of the id type (maximum value), 0: not of interest.
    pub cap: usize,
    pub fill: usize,
    /// Whether some of the filler nodes are removed again.
    pub graves: bool,
    /// Whether the ids are to last for all the events.
    pub paced: bool,
    /// Shape of a big tree built first: "", "wide", "deep", "any", with its size.
    pub shape: String,
    pub size: usize,
    /// Percentage of operations, iterator sessions, builders, prints, views.
    pub mix: [u64; 5],
}


struct Rec<'c, I: NodeId> {
    w: World<I>,
    cfg: &'c Cfg,
    r: Rng,
    out: std::fs::File,
    spare: Vec<I>,
    /// Names of live nodes and the projections they were found in.
    proj: Vec<Proj>,
    fillers: Vec<Vec<I>>,
    graves: Vec<Vec<I>>,
    lines: u64,
    acts: u64,
}

fn seq(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (k, x) in v.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        s += &x.to_string();
    }
    s.push(']');
    s
}

fn opname(k: K) -> &'static str {
    match k {
        K::Root => "root",
        K::CIns => "cins",
        K::Ins => "ins",
        K::Det => "det",
        K::DetS => "dets",
        K::Rem => "rem",
        K::RemP => "remp",
        K::Clone => "clone",
        K::CloneP => "clonep",
        K::Copy => "copy",
        K::Set => "set",
        K::Probe => "probe",
    }
}

fn reply(b: u8) -> &'static str {
    match b {
        OK => "ok",
        LOOP => "loop",
        UNORD => "unord",
        NOPARENT => "noparent",
        _ => "panic",
    }
}

impl<'c, I: NodeId> Rec<'c, I> {
    fn line(&mut self, s: String) {
        self.lines += 1;
        writeln!(self.out, "{}", s).expect("tool: trace");
    }

    fn look(&mut self) {
        beat();
        self.proj = (0..self.cfg.nf).map(|i| project(&self.w.f[i], &self.w.ids[i])).collect();
    }

    /// The common tail of an event: state, number of data, filler nodes.
    fn tail(&mut self) -> String {
        self.look();
        let mut ws = Vec::new();
        for p in &self.proj {
            ws.push(format!(
                "{{\"par\":{},\"pv\":{},\"nx\":{},\"fc\":{},\"lc\":{},\"data\":{}}}",
                seq(&p.par),
                seq(&p.pv),
                seq(&p.nx),
                seq(&p.fc),
                seq(&p.lc),
                seq(&p.data)
            ));
        }
        let mut fillok = true;
        for i in 0..self.cfg.nf {
            beat();
            for id in &self.fillers[i] {
                let ok = catch(|| {
                    self.w.f[i].node(*id).map_or(false, |n| {
                        n.parent_id().is_none()
                            && n.next_sibling_id().is_none()
                            && n.prev_sibling_id().is_none()
                            && n.first_last_child_id().is_none()
                            && n.data().v() == -1
                    })
                });
                fillok &= ok == Some(true);
            }
        }
        let gravesok = (0..self.cfg.nf).all(|i| {
            let f = &mut self.w.f[i];
            self.graves[i].iter().all(|id| {
                catch(|| f.node(*id).is_none() && f.data(*id).is_none() && f.node_mut(*id).is_none()) == Some(true)
            })
        });
        format!(
            "\"alive\":{},\"fillok\":{},\"gravesok\":{},\"w\":[{}]",
            ALIVE_PAYLOADS.with(|c| c.get()),
            fillok,
            gravesok,
            ws.join(",")
        )
    }

    fn live(&self, i: usize) -> Vec<i64> {
        (1..=self.w.ids[i].len() as i64).filter(|x| self.proj[i].par[*x as usize - 1] != DEAD).collect()
    }

    fn any_live(&mut self, i: usize) -> Option<i64> {
        let v = self.live(i);
        if v.is_empty() {
            None
        } else if self.r.below(3) == 0 {
            // Mostly recent nodes, so that deep structures form.
            let k = v.len() - 1 - self.r.below(v.len().min(4) as u64) as usize;
            Some(v[k])
        } else {
            let k = self.r.below(v.len() as u64) as usize;
            Some(v[k])
        }
    }

    /// Any id a caller may name.
    fn any(&mut self, i: usize) -> i64 {
        let n = self.w.ids[i].len() as i64;
        let unknown_ok = self.w.tries[i] + 8 < self.spare.len() && self.cfg.fill == 0;
        let k = self.r.below(100);
        if k < 5 && unknown_ok {
            return n + 1;
        }
        if k < 12 {
            let d: Vec<i64> = (1..=n).filter(|x| self.proj[i].par[*x as usize - 1] == DEAD).collect();
            if !d.is_empty() {
                let k = self.r.below(d.len() as u64) as usize;
                return d[k];
            }
        }
        match self.any_live(i) {
            Some(x) => x,
            None if n > 0 => 1,
            None => n + 1,
        }
    }

    fn subtree(&self, i: usize, x: i64) -> usize {
        let n = self.w.ids[i].len();
        self.w.walk(i, self.w.ids[i][x as usize - 1], n).len()
    }

    fn usable(&self, i: usize, x: i64) -> bool {
        self.w.knows(i, x) || (self.w.tries[i] + 8 < self.spare.len() && self.cfg.fill == 0)
    }

    fn room(&self, i: usize) -> usize {
        if self.ahead(i) && !self.live(i).is_empty() {
            return 0;
        }
        self.cfg.max_ids.saturating_sub(self.w.tries[i])
    }

    /// Whether ids have been used up faster than events.
    fn ahead(&self, i: usize) -> bool {
        self.cfg.paced
            && self.w.tries[i] > self.cfg.target
            && (self.w.tries[i] - self.cfg.target) as u64 * self.cfg.events as u64 > self.lines * self.cfg.max_ids as u64
    }

    fn choose(&mut self) -> Option<Op> {
        let nf = self.cfg.nf as u64;
        let i = self.r.below(nf) as usize;
        let f = i as i64 + 1;
        let live = self.live(i).len();
        let room = self.room(i);
        let grow = live < self.cfg.target;
        let k = self.r.below(100);
        let op = |k: K, a: [i64; 4]| Some(Op { k, a });
        if live == 0 || (grow && k < 5) {
            return if room > 0 { op(K::Root, [f, 0, 0, 0]) } else { None };
        }
        let pos = 1 + self.r.below(4) as i64;
        if grow && k < 40 || k < 8 {
            if room == 0 {
                return None;
            }
            let y = self.any(i);
            return op(K::CIns, [f, pos, y, 0]);
        }
        let k = self.r.below(100);
        if k < 48 {
            let (x, mut y) = (self.any(i), self.any(i));
            if self.r.below(6) == 0 && self.w.knows(i, x) && self.proj[i].par[x as usize - 1] > 0 {
                // A neighbour of x.
                let p = &self.proj[i];
                let j = x as usize - 1;
                let c = [p.par[j], p.pv[j], p.nx[j], p.fc[j], p.lc[j], x];
                let z = c[self.r.below(6) as usize];
                if z > 0 && z != ODD {
                    y = z;
                }
            }
            return op(K::Ins, [f, x, pos, y]);
        }
        if k < 58 {
            let x = self.any(i);
            return op(K::Det, [f, x, 0, 0]);
        }
        if k < 70 {
            let x = self.any(i);
            return op(K::DetS, [f, x, 0, 0]);
        }
        if k < 82 {
            // Removals; small ones while the forest is to grow.
            let x = self.any(i);
            let known = self.w.knows(i, x) && self.proj[i].par[x as usize - 1] != DEAD;
            if known {
                let s = self.subtree(i, x);
                if self.ahead(i) && s * 2 > live {
                    return None;
                }
                if grow && s > 3 && self.r.below(6) != 0 {
                    return None;
                }
                if self.r.below(3) == 0 {
                    let c = 1 + self.r.below(s as u64) as i64;
                    return op(K::RemP, [f, x, c, 0]);
                }
            }
            return op(K::Rem, [f, x, 0, 0]);
        }
        if k < 91 {
            let x = self.any(i);
            let d = self.r.below(nf) as i64 + 1;
            let known = self.w.knows(i, x) && self.proj[i].par[x as usize - 1] != DEAD;
            if !known {
                return op(K::Clone, [f, x, f, 0]);
            }
            let s = self.subtree(i, x);
            if self.cfg.cap == 0 && s > self.room(d as usize - 1).min(self.cfg.target / 2 + 2) {
                return None;
            }
            if self.r.below(3) == 0 {
                let c = 1 + self.r.below(s as u64) as i64;
                return op(K::CloneP, [f, x, d, c]);
            }
            return op(K::Clone, [f, x, d, 0]);
        }
        if k < 93 && self.cfg.nf > 1 {
            let d = (i + 1) % self.cfg.nf;
            return op(K::Copy, [f, d as i64 + 1, 0, 0]);
        }
        if k < 97 {
            let x = self.any_live(i)?;
            return op(K::Set, [f, x, 0, 0]);
        }
        let x = self.any(i);
        if self.w.knows(i, x) && self.proj[i].par[x as usize - 1] != DEAD {
            return None;
        }
        op(K::Probe, [f, x, 0, 0])
    }

    fn do_op(&mut self, op: Op) {
        let i = op.a[0] as usize - 1;
        for x in match op.k {
            K::CIns => vec![op.a[2]],
            K::Ins => vec![op.a[1], op.a[3]],
            K::Det | K::DetS | K::Rem | K::Clone | K::Probe => vec![op.a[1]],
            _ => vec![],
        } {
            if !self.usable(i, x) {
                return;
            }
        }
        let alive = |x: i64| self.w.knows(i, x) && self.proj[i].par[x as usize - 1] != DEAD;
        let unknown = |x: i64| !self.w.knows(i, x);
        let (base, far) = entry_points(&op, alive, unknown);
        let n = base * if far { 2 } else { 1 };
        let v = self.r.below(n as u64) as usize;
        let allowed = match op.k {
            K::Ins => OK | LOOP | UNORD | NOPARENT | PANIC,
            _ => OK | NOPARENT | PANIC,
        };
        let tags: &[&'static str] = op_tags(op.k, OK);
        step(tags, || format!("{} in trace {}", show(&op, v), self.cfg.name));
        let (orph, tries) = (self.w.orphans.clone(), self.w.tries.clone());
        let _ = (orph, tries);
        let d = self.w.apply(&op, base, v, allowed, None, &self.spare);
        let a: Vec<i64> = op.a.to_vec();
        let pairs: Vec<String> = d.pairs.iter().map(|(s, c)| format!("[{},{}]", s, c)).collect();
        let odd: Vec<String> = d.odd.iter().map(|s| js(s)).collect();
        let tail = self.tail();
        self.line(format!(
            "{{\"e\":\"op\",\"op\":{},\"a\":{},\"v\":{},\"r\":{},\"d\":{},\"hooked\":{},\"adopt\":{},\"out\":{},\"pairs\":[{}],\"odd\":[{}],{}}}",
            js(opname(op.k)),
            seq(&a),
            v,
            js(reply(d.reply)),
            d.datum,
            d.hooked,
            d.adopt,
            seq(&d.out),
            pairs.join(","),
            odd.join(","),
            tail
        ));
    }

    fn do_iter(&mut self) {
        let i = self.r.below(self.cfg.nf as u64) as usize;
        let x = match self.any_live(i) {
            Some(x) => x,
            None => return,
        };
        // Large subtrees are looked at more often than leaves.
        let x = if self.r.below(2) == 0 && self.proj[i].par[x as usize - 1] > 0 { self.proj[i].par[x as usize - 1] } else { x };
        let x = if self.r.below(4) == 0 {
            let (mut a, mut k) = (x, 0);
            while self.proj[i].par[a as usize - 1] > 0 && k < 10000 {
                a = self.proj[i].par[a as usize - 1];
                k += 1;
                if !self.w.knows(i, a) {
                    return;
                }
            }
            a
        } else {
            x
        };
        if !self.w.knows(i, x) || self.proj[i].par[x as usize - 1] == DEAD {
            return;
        }
        let kinds = ["dft", "shallow", "bft", "abft", "ancs", "anc", "kids", "fol", "fols", "pre", "pres"];
        let k = self.r.below(16) as usize;
        let kind = match k {
            0..=10 => kinds[k],
            11 | 12 => "dft",
            13 | 14 => "shallow",
            _ => "bft",
        };
        let m: i64 = match self.r.below(6) {
            0 => -1,
            _ => self.r.below(2 + (self.proj[i].par.len() as f64).sqrt() as u64) as i64,
        };
        let names = Names::new(&self.w.ids[i]);
        let tag: &[&'static str] = match kind {
            "dft" => &["C12"],
            "shallow" => &["C13"],
            "bft" | "abft" => &["C14"],
            _ => &["C15"],
        };
        step(tag, || format!("{} of {} in trace {}", kind, x, self.cfg.name));
        let id = self.w.ids[i][x as usize - 1];
        let f = &self.w.f[i];
        let via = self.r.below(2) == 0;
        let limit = 2 * self.w.ids[i].len() + 40;
        let mut acts: Vec<String> = Vec::new();
        let lim = if m < 0 { None } else { Some(m as usize) };
        let r = &mut self.r;
        let node = || -> Node<'_, I, P> { f.node(id).expect("live") };
        macro_rules! s {
            ($e:expr) => {
                catch(|| session($e, &names, r, limit, &mut acts))
            };
        }
        let done = match (kind, via) {
            ("dft", true) => s!(node().depth_first_traverse()),
            ("dft", false) => s!(f.depth_first_traverse(id)),
            ("shallow", true) => s!(node().shallow_depth_first_traverse(lim)),
            ("shallow", false) => s!(f.shallow_depth_first_traverse(id, lim)),
            ("bft", true) => s!(node().breadth_first_traverse()),
            ("bft", false) => s!(f.breadth_first_traverse(id)),
            ("abft", true) => s!(node().allocating_breadth_first_traverse()),
            ("abft", false) => s!(f.allocating_breadth_first_traverse(id)),
            ("ancs", true) => s!(node().ancestors_or_self()),
            ("ancs", false) => s!(f.ancestors_or_self(id)),
            ("anc", true) => s!(node().ancestors()),
            ("anc", false) => s!(f.ancestors(id)),
            ("kids", true) => s!(node().children()),
            ("kids", false) => s!(f.children(id)),
            ("fol", true) => s!(node().following_siblings()),
            ("fol", false) => s!(f.following_siblings(id)),
            ("fols", true) => s!(node().following_siblings_or_self()),
            ("fols", false) => s!(f.following_siblings_or_self(id)),
            ("pre", true) => s!(node().preceding_siblings()),
            ("pre", false) => s!(f.preceding_siblings(id)),
            ("pres", true) => s!(node().preceding_siblings_or_self()),
            _ => s!(f.preceding_siblings_or_self(id)),
        };
        if done.is_none() {
            acts.push("{\"a\":\"panic\",\"k\":0,\"res\":[]}".into());
        }
        self.acts += acts.len() as u64;
        self.line(format!(
            "{{\"e\":\"iter\",\"kind\":{},\"i\":{},\"x\":{},\"m\":{},\"acts\":[{}]}}",
            js(kind),
            i + 1,
            x,
            m,
            acts.join(",")
        ));
    }

    fn do_chain(&mut self) {
        let i = self.r.below(self.cfg.nf as u64) as usize;
        if self.room(i) < 8 {
            return;
        }
        let n = 3 + self.r.below(self.room(i).min(24) as u64) as usize;
        // Nodes that may be detached or removed behind the builder's back.
        let spoil = self.live(i);
        let mut r = Rng(self.r.next());
        let first = self.w.ids[i].len() as i64 + 1;
        let mut removed = false;
        let near = self.cfg.cap > 0 && self.w.tries[i] + self.cfg.fill + n + 2 >= self.cfg.cap - 1;
        let mut xs: Vec<i64> = Vec::new();
        step(&["C16"], || format!("chain builder in trace {}", self.cfg.name));
        let mut known = first;
        let (d, start, mut steps) = run_chain(&mut self.w, i, |k, last| {
            if k > 0 && last.r == "ok" && (last.c == "child" || last.c == "sibling") {
                known += 1;
            }
            if k >= n {
                return None;
            }
            Some(match r.below(40) {
                0..=15 => CStep::Child,
                16..=25 => CStep::Sibling,
                26..=30 => CStep::Parent,
                31..=37 => CStep::TryParent,
                38 if !removed && !near => {
                    // A node of this builder or an older one.
                    let x = if r.below(2) == 0 || spoil.is_empty() {
                        first + r.below((known - first + 1) as u64) as i64
                    } else {
                        spoil[r.below(spoil.len() as u64) as usize]
                    };
                    xs.push(x);
                    CStep::Det(x)
                }
                39 if !removed && !near => {
                    // At most one removal, so that it names a live node.
                    removed = true;
                    let x = if r.below(2) == 0 || spoil.is_empty() {
                        first + r.below((known - first + 1) as u64) as i64
                    } else {
                        spoil[r.below(spoil.len() as u64) as usize]
                    };
                    xs.push(x);
                    CStep::Rem(x)
                }
                _ => CStep::Child,
            })
        });
        if start.r == "panic" {
            if near {
                // Refused for lack of ids, as it may be; nothing was begun.
                return;
            }
            steps.push(CRes { c: "child", ..start });
        }
        let ss: Vec<String> = steps
            .iter()
            .map(|s| {
                format!(
                    "{{\"c\":{},\"x\":{},\"d\":{},\"r\":{},\"root\":{},\"cur\":{}}}",
                    js(s.c),
                    s.x,
                    s.d,
                    js(s.r),
                    s.root,
                    s.cur
                )
            })
            .collect();
        self.acts += ss.len() as u64;
        let tail = self.tail();
        self.line(format!(
            "{{\"e\":\"chain\",\"op\":\"chain\",\"a\":[{}],\"i\":{},\"d\":{},\"xs\":{},\"steps\":[{}],{}}}",
            i + 1,
            i + 1,
            d,
            seq(&xs),
            ss.join(","),
            tail
        ));
    }

    fn nest_program(&mut self, n: usize, shape: &str) -> Vec<NTok> {
        let mut t = Vec::new();
        let (mut depth, mut made) = (0, 0);
        while made < n {
            let k = self.r.below(100);
            let (open, close) = match shape {
                "wide" => (4, 60),
                "deep" => (93, 2),
                _ => (40, 30),
            };
            if k < open {
                t.push(NTok::Open);
                depth += 1;
                made += 1;
            } else if k < open + close && depth > 0 && t.last() != Some(&NTok::Close) {
                t.push(NTok::Close);
                depth -= 1;
            } else if k < open + close && depth > 0 && self.r.below(2) == 0 {
                t.push(NTok::Close);
                depth -= 1;
            } else {
                t.push(NTok::Add);
                made += 1;
            }
        }
        for _ in 0..depth {
            t.push(NTok::Close);
        }
        t
    }

    fn do_nest(&mut self, n: usize, shape: &str) {
        let i = self.r.below(self.cfg.nf as u64) as usize;
        if self.room(i) < n + 2 || (self.cfg.cap > 0 && self.w.tries[i] + self.cfg.fill + n + 3 >= self.cfg.cap - 1) {
            return;
        }
        let toks = self.nest_program(n, shape);
        step(&["C17"], || format!("nest builder in trace {}", self.cfg.name));
        let (d, res) = run_nest(&mut self.w, i, &toks);
        let (start, roots) = res.unwrap_or((ODD, vec![ODD; toks.len()]));
        let mut datum = d;
        let mut ss: Vec<String> = Vec::new();
        for (k, t) in toks.iter().enumerate() {
            if *t != NTok::Close {
                datum += 1;
            }
            ss.push(format!(
                "{{\"c\":{},\"d\":{},\"root\":{}}}",
                js(t.name()),
                datum,
                roots.get(k).copied().unwrap_or(ODD)
            ));
        }
        self.acts += ss.len() as u64;
        let tail = self.tail();
        self.line(format!(
            "{{\"e\":\"nest\",\"op\":\"nest\",\"a\":[{}],\"i\":{},\"d\":{},\"start\":{},\"xs\":[],\"steps\":[{}],{}}}",
            i + 1,
            i + 1,
            d,
            start,
            ss.join(","),
            tail
        ));
    }

    fn do_print(&mut self) {
        let i = self.r.below(self.cfg.nf as u64) as usize;
        let x = match self.any_live(i) {
            Some(x) => x,
            None => return,
        };
        let long = format!("{}\nk{}", "lo ng-".repeat(50), "-".repeat(300));
        let texts = [
            "", "a", "node", "two\nlines", "x\n\ny", "\n", "\nlate", "end\n", "end\n\n", "a\nb\nc", "  in\n  de nt", "|-- x\n`-- y",
            "\u{e9}\u{4e2d}\nz", "\n\n", "q\n\n\nr\n", "t\ta\rb\n\tc", &long,
        ];
        let plain = self.r.below(3) == 0;
        let mut labels: Vec<String> = Vec::new();
        let mut map = std::collections::HashMap::new();
        for k in 0..self.w.ids[i].len() {
            let v = self.proj[i].data[k];
            if v == DEAD || v == BROKEN {
                labels.push("[]".into());
                continue;
            }
            if !map.contains_key(&v) {
                let t = if plain {
                    format!("n{}", k + 1)
                } else {
                    texts[self.r.below(texts.len() as u64) as usize].to_string()
                };
                let how = self.r.below(6);
                let how = if how > 2 { self.r.next() | 8 } else { how };
                map.insert(v, Label::new(&t, how));
            }
            labels.push(format!("[{}]", map[&v].lines().iter().map(|l| js(l)).collect::<Vec<_>>().join(",")));
        }
        LABELS.with(|l| *l.borrow_mut() = map);
        let id = self.w.ids[i][x as usize - 1];
        let way = self.r.below(6) as usize;
        step(&["C18"], || format!("printing {} in trace {}", x, self.cfg.name));
        let lines = print_lines(&mut self.w, i, id, way);
        LABELS.with(|l| l.borrow_mut().clear());
        let lines = lines.unwrap_or_else(|| vec!["<panic>".into()]);
        self.acts += lines.len() as u64;
        self.line(format!(
            "{{\"e\":\"print\",\"i\":{},\"x\":{},\"way\":{},\"labels\":[{}],\"lines\":[{}]}}",
            i + 1,
            x,
            way,
            labels.join(","),
            lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")
        ));
    }

    fn do_views(&mut self) {
        let i = self.r.below(self.cfg.nf as u64) as usize;
        step(&["C21"], || format!("views in trace {}", self.cfg.name));
        let ids = self.w.ids[i].clone();
        let odd = views(&mut self.w.f[i], &ids).unwrap_or_default();
        // One node as the mutable proxy shows it.
        let x = match self.any_live(i) {
            Some(x) => x,
            None => return,
        };
        let id = ids[x as usize - 1];
        let names = Names::new(&ids);
        let o = |v: Option<I>| v.map_or(0, |y| names.of(y));
        beat();
        let f = &mut self.w.f[i];
        let row = catch(|| {
            let m = f.node_mut(id).expect("live");
            let n = m.node();
            vec![
                o(n.parent().map(|y| y.id())),
                o(n.prev_sibling().map(|y| y.id())),
                o(n.next_sibling().map(|y| y.id())),
                o(n.first_child().map(|y| y.id())),
                o(n.last_child().map(|y| y.id())),
                m.data().v(),
            ]
        })
        .unwrap_or_default();
        let tail = self.tail();
        self.line(format!(
            "{{\"e\":\"views\",\"op\":\"views\",\"a\":[{}],\"i\":{},\"x\":{},\"xs\":[],\"odd\":{},\"row\":{},{}}}",
            i + 1,
            i + 1,
            x,
            js(&odd),
            seq(&row),
            tail
        ));
    }
}

fn item(v: Option<Item>, depth: bool) -> String {
    match v {
        None => "[]".into(),
        Some((a, _)) if !depth => format!("[{}]", a),
        Some((a, d)) => format!("[{},{}]", a, d),
    }
}

/// One iterator, used until it is exhausted.
fn session<'a, I: NodeId, T: It<'a, I>>(mut it: T, n: &Names<I>, r: &mut Rng, limit: usize, acts: &mut Vec<String>) {
    let d = T::DEPTH;
    let style = r.below(5);
    let turn = 1 + r.below(40);
    let (mut nones, mut k) = (0, 0u64);
    let act = |a: &str, k: u64, res: String| format!("{{\"a\":\"{}\",\"k\":{},\"res\":{}}}", a, k, res);
    while nones < 3 && acts.len() < 3 * limit {
        beat();
        k += 1;
        match r.below(24) {
            0 | 1 if T::PEEK => acts.push(act("peek", 0, item(it.pk(n), d))),
            2 | 3 if T::PEEK && T::BACK => acts.push(act("peekback", 0, item(it.pkb(n), d))),
            4 => {
                let (l, u) = it.hint();
                let u = u.map_or(-1, |u| u.min(1 << 30) as i64);
                acts.push(act("hint", 0, format!("[{},{}]", l.min(1 << 30), u)));
            }
            5 => {
                // The clone goes on; the original moves away without effect.
                let c = it.clone();
                it.nx(n);
                if T::BACK {
                    it.bk(n);
                }
                it = c;
            }
            6 if k > 3 => {
                let c = r.below(4);
                let x = it.nth_(c as usize, n);
                nones += x.is_none() as u32;
                acts.push(act("next", c, item(x, d)));
            }
            7 if k > 3 && T::BACK => {
                let c = r.below(4);
                let x = it.nth_back_(c as usize, n);
                nones += x.is_none() as u32;
                acts.push(act("back", c, item(x, d)));
            }
            _ => {
                let back = T::BACK
                    && match style {
                        0 => false,
                        1 => true,
                        2 => r.below(2) == 0,
                        3 => k > turn,
                        _ => k <= turn,
                    };
                let back = back ^ (T::BACK && nones > 0 && r.below(2) == 0);
                if back {
                    let x = it.bk(n);
                    nones += x.is_none() as u32;
                    acts.push(act("back", 0, item(x, d)));
                } else {
                    let x = it.nx(n);
                    nones += x.is_none() as u32;
                    acts.push(act("next", 0, item(x, d)));
                }
            }
        }
    }
}

/// Records one run. Returns (events, acts within sessions).
pub fn record<I: NodeId>(cfg: &Cfg, path: &str) -> (u64, u64) {
    let start_payloads = ALIVE_PAYLOADS.with(|c| c.replace(0));
    let mut w = World::<I>::new(cfg.nf);
    let mut fillers: Vec<Vec<I>> = Vec::new();
    let mut graves: Vec<Vec<I>> = Vec::new();
    for i in 0..cfg.nf {
        let mut v = Vec::new();
        for _ in 0..cfg.fill {
            beat();
            v.push(w.f[i].create_root(P::new(-1)));
        }
        let mut dead = Vec::new();
        if cfg.graves {
            let n = v.len();
            for (k, id) in std::mem::take(&mut v).into_iter().enumerate() {
                if k % 3 == 1 || k + 9 > n {
                    beat();
                    let _ = catch(|| w.f[i].remove(id));
                    dead.push(id);
                } else {
                    v.push(id);
                }
            }
        }
        // `tries` counts from the first named node on.
        fillers.push(v);
        graves.push(dead);
    }
    let live = fillers.first().map_or(0, |v| v.len());
    let spare = if cfg.fill == 0 && cfg.cap == 0 { spare_ids(cfg.max_ids + 64) } else { Vec::new() };
    let out = std::fs::File::create(path).expect("tool: trace file");
    let mut c = Rec { w, cfg, r: Rng(cfg.seed), out, spare, proj: Vec::new(), fillers, graves, lines: 0, acts: 0 };
    for _ in 0..4 {
        c.r.next();
    }
    c.look();
    c.line(format!(
        "{{\"e\":\"begin\",\"name\":{},\"nf\":{},\"cap\":{},\"fill\":{}}}",
        js(&cfg.name),
        cfg.nf,
        cfg.cap,
        live
    ));
    if cfg.size > 0 {
        c.do_nest(cfg.size, &cfg.shape);
    }
    let mut n = 0;
    let mut tries = 0;
    while n < cfg.events && tries < 20 * cfg.events {
        tries += 1;
        let before = c.lines;
        let k = c.r.below(100);
        let m = cfg.mix;
        if k < m[0] {
            if let Some(op) = c.choose() {
                c.do_op(op);
            }
        } else if k < m[0] + m[1] {
            c.do_iter();
        } else if k < m[0] + m[1] + m[2] {
            if c.r.below(2) == 0 {
                c.do_chain();
            } else {
                let s = 2 + c.r.below(14) as usize;
                c.do_nest(s, "any");
            }
        } else if k < m[0] + m[1] + m[2] + m[3] {
            c.do_print();
        } else {
            c.do_views();
        }
        n += (c.lines - before) as usize;
        // Once the links are broken there is no point in going on.
        if c.proj.iter().any(|p| links_problem(p).is_some()) {
            break;
        }
    }
    let (lines, acts) = (c.lines, c.acts);
    let Rec { w, mut out, .. } = c;
    step(&["C10"], || format!("dropping the forests of trace {}", cfg.name));
    let ok = catch(|| drop(w)).is_some();
    let left = ALIVE_PAYLOADS.with(|c| c.replace(start_payloads));
    writeln!(out, "{{\"e\":\"drop\",\"i\":0,\"alive\":{},\"ok\":{}}}", left, ok).expect("tool: trace");
    idle();
    (lines + 1, acts)
}

/// Runs a list of recordings on several threads.
pub fn record_all(jobs: Vec<(Cfg, String, String)>, threads: usize, run: impl Fn(&Cfg, &str, &str) -> (u64, u64) + Sync) -> Report {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new((0u64, 0u64));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= jobs.len() {
                        idle();
                        return;
                    }
                    let (c, path, id) = &jobs[k];
                    let (l, a) = run(c, path, id);
                    let mut t = total.lock().expect("tool: total");
                    t.0 += l;
                    t.1 += a;
                })
            })
            .collect();
        for h in hs {
            h.join().expect("tool: worker");
        }
    });
    let mut rep = Report::default();
    let t = total.lock().expect("tool: total");
    rep.count("traces", jobs.len() as u64);
    rep.count("trace_events", t.0);
    rep.count("trace_session_steps", t.1);
    rep
}
