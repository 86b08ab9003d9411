//! Collection of problems, watchdog, allocation guard.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// A disagreement between the implementation and the specification.
#[derive(Clone, Debug)]
pub struct Prob {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

pub fn prob(tags: &[&'static str], msg: String) -> Prob {
    Prob { tags: tags.to_vec(), msg }
}

#[derive(Default)]
pub struct Report {
    /// Per tag: number of problems and the first few, with their histories.
    pub viol: BTreeMap<&'static str, (u64, Vec<String>)>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Report {
    pub fn add(&mut self, tags: &[&'static str], text: impl FnOnce() -> String) {
        let mut t: Vec<&'static str> = tags.to_vec();
        t.sort();
        t.dedup();
        let need = t.iter().any(|x| self.viol.get(x).map_or(true, |v| v.1.len() < 3));
        let mut s = if need { text() } else { String::new() };
        if s.len() > 4000 {
            let end = (0..4000).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
            s.truncate(end);
            s.push_str(" ...");
        }
        for x in t {
            let e = self.viol.entry(x).or_default();
            e.0 += 1;
            if e.1.len() < 3 {
                e.1.push(s.clone());
            }
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn merge(&mut self, o: Report) {
        for (k, (n, v)) in o.viol {
            let e = self.viol.entry(k).or_default();
            e.0 += n;
            for s in v {
                if e.1.len() < 3 {
                    e.1.push(s);
                }
            }
        }
        for (k, n) in o.counts {
            *self.counts.entry(k).or_default() += n;
        }
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
    }
    pub fn to_json(&self) -> String {
        let mut o = String::from("{\"viol\":{");
        o += &self
            .viol
            .iter()
            .map(|(k, (n, v))| {
                format!(
                    "{}:{{\"n\":{},\"first\":[{}]}}",
                    js(k),
                    n,
                    v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        o += "},\"counts\":{";
        o += &self
            .counts
            .iter()
            .map(|(k, n)| format!("{}:{}", js(k), n))
            .collect::<Vec<_>>()
            .join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += "]}";
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs code under test; a panic in it is data.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    panic::catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if m.contains("tool:") || std::env::var_os("VH_PANICS").is_some() {
            eprintln!("{}", m);
            if m.contains("tool:") {
                std::process::exit(2);
            }
        }
    }));
}

// ------------------------------------------------------------------ watchdog

/// What a worker is doing with the code under test, for the case it never returns.
pub struct Slot {
    pub beat: AtomicU64,
    pub busy: AtomicBool,
    pub text: Mutex<(Vec<&'static str>, String)>,
    pub out_of_memory: AtomicBool,
}

const MAX_SLOTS: usize = 64;
static NSLOTS: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    beat: AtomicU64::new(0),
    busy: AtomicBool::new(false),
    text: Mutex::new((Vec::new(), String::new())),
    out_of_memory: AtomicBool::new(false),
};
static SLOTS: [Slot; MAX_SLOTS] = [SLOT0; MAX_SLOTS];
static OUT: Mutex<Option<String>> = Mutex::new(None);
/// Problems found so far, for the case that the run does not come to its end.
static NOTED: Mutex<Option<Report>> = Mutex::new(None);

pub fn note(tags: &[&'static str], text: impl FnOnce() -> String) {
    let mut n = NOTED.lock().expect("tool: noted");
    n.get_or_insert_with(Report::default).add(tags, text);
}

thread_local! {
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn my_slot() -> &'static Slot {
    let i = MY.with(|m| {
        if m.get() == usize::MAX {
            m.set(NSLOTS.fetch_add(1, Ordering::SeqCst) % MAX_SLOTS);
        }
        m.get()
    });
    &SLOTS[i]
}

/// Announces the step about to be executed. The text is only built by `f`
/// when it is cheap enough; keep it short.
pub fn step(tags: &[&'static str], f: impl FnOnce() -> String) {
    let s = my_slot();
    {
        let mut t = s.text.lock().expect("tool: slot");
        t.0 = tags.to_vec();
        t.1 = f();
    }
    beat();
}

/// Starts the next bounded piece of work on the code under test.
pub fn beat() {
    let s = my_slot();
    s.beat.fetch_add(1, Ordering::Relaxed);
    s.busy.store(true, Ordering::Relaxed);
    USED.with(|u| u.set(0));
    ARMED.with(|a| a.set(true));
}

/// The worker left the code under test for good.
pub fn idle() {
    let s = my_slot();
    s.busy.store(false, Ordering::Relaxed);
    ARMED.with(|a| a.set(false));
}

/// Where a stall is reported, and the watchdog itself.
pub fn start_watchdog(out: &str, secs: u64) {
    *OUT.lock().expect("tool: out") = Some(out.to_string());
    std::thread::spawn(move || {
        let mut seen = [(0u64, 0u64); MAX_SLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in SLOTS.iter().enumerate() {
                let b = s.beat.load(Ordering::Relaxed);
                let oom = s.out_of_memory.load(Ordering::Relaxed);
                if b != seen[i].0 || !s.busy.load(Ordering::Relaxed) {
                    seen[i] = (b, 0);
                    if !oom {
                        continue;
                    }
                }
                seen[i].1 += 1;
                if oom || seen[i].1 > 2 * secs {
                    let t = s.text.lock().expect("tool: slot");
                    let mut r = NOTED.lock().expect("tool: noted").take().unwrap_or_default();
                    let why = if oom { "allocates without end" } else { "does not return" };
                    r.add(&t.0, || format!("{}: {}", why, t.1));
                    r.count("stalled", 1);
                    let path = OUT.lock().expect("tool: out").clone().expect("tool: out");
                    write_report(&path, &r);
                    std::process::exit(0);
                }
            }
        }
    });
}

pub fn write_report(path: &str, r: &Report) {
    let mut f = std::fs::File::create(path).expect("tool: create report");
    f.write_all(r.to_json().as_bytes()).expect("tool: write report");
}

/// How many allocations this thread has made.
pub fn allocations() -> u64 {
    CALLS.with(|c| c.get())
}

/// Stops a worker whose current step allocates without end.
pub struct Guard;
const STEP_LIMIT: usize = 1 << 31;

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
}

fn guard(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let over = USED.with(|u| {
                u.set(u.get().saturating_add(n));
                u.get() > STEP_LIMIT
            });
            if over {
                a.set(false);
                my_slot().out_of_memory.store(true, Ordering::SeqCst);
                loop {
                    std::thread::sleep(Duration::from_secs(1));
                }
            }
        }
    });
}

/// Numbers (parents of a forest's nodes, say), shortened.
pub fn brief(par: &[i64]) -> String {
    if par.len() <= 40 {
        format!("{:?}", par)
    } else {
        format!("{:?} and so on, {} in all", &par[..24], par.len())
    }
}
