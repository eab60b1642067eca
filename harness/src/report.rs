//! Bookkeeping shared by all checks.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub thorough: bool,
    seed: u64,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    beat: AtomicU64,
    stop: AtomicBool,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    groups: Mutex<Vec<(String, u64, u64, u64)>>,
    violations: Mutex<Vec<(String, String)>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
}

static CHECK: OnceLock<Check> = OnceLock::new();
thread_local! {
    static LAST_PANIC: std::cell::RefCell<(String, String, String)> = const { std::cell::RefCell::new((String::new(), String::new(), String::new())) };
}

thread_local! {
    static L: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

thread_local! {
    static HIST: Cell<(*const Vec<(bool, u32)>, &'static str, u32)> = const { Cell::new((std::ptr::null(), "", 0)) };
}
/// Run one call into the library; should it panic, the history leading to it is reported.
#[inline]
pub fn tracked<R>(proto: &'static str, f: u32, hist: &Vec<(bool, u32)>, call: impl FnOnce() -> R) -> R {
    HIST.with(|h| h.set((hist, proto, f)));
    let r = call();
    HIST.with(|h| h.set((std::ptr::null(), "", 0)));
    r
}
fn panic_history() -> String {
    HIST.with(|h| {
        let (p, proto, f) = h.replace((std::ptr::null(), "", 0));
        if p.is_null() {
            return String::new();
        }
        // Safe: the hook runs on the panicking thread before unwinding, inside `tracked`.
        let v = unsafe { &*p };
        let e: Vec<String> = v.iter().map(|(r, d)| format!("{}{d}", if *r { 'r' } else { 'f' })).collect();
        format!("kind edges\nproto {proto}\nfreq {f}\nedges {}\n", e.join(" "))
    })
}

pub fn ck() -> &'static Check {
    CHECK.get().expect("check not started")
}

/// Count `s` new states, `t` transitions (calls into the real code) and `c` complete traces.
#[inline]
pub fn count(s: u64, t: u64, c: u64) {
    L.with(|l| {
        let (a, b, d) = l.get();
        let n = (a + s, b + t, d + c);
        if n.1 > 1 << 16 || n.0 > 1 << 16 || n.2 > 1 << 16 {
            flush(n);
            l.set((0, 0, 0));
        } else {
            l.set(n);
        }
    })
}
fn flush(n: (u64, u64, u64)) {
    if let Some(c) = CHECK.get() {
        c.states.fetch_add(n.0, Relaxed);
        c.transitions.fetch_add(n.1, Relaxed);
        c.traces.fetch_add(n.2, Relaxed);
        c.beat.fetch_add(1, Relaxed);
    }
}
thread_local! {
    static T: Cell<[u64; 6]> = const { Cell::new([0; 6]) };
}
pub const OUTCOMES: [&str; 6] = ["command reported", "repeat reported", "error Address", "error Data", "error Validation", "error Remote"];
static TALLY: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
/// Count an observed outcome of the library (only the rare, interesting ones).
#[inline]
pub fn tally(i: usize) {
    T.with(|t| {
        let mut a = t.get();
        a[i] += 1;
        t.set(a);
    })
}
pub fn flush_local() {
    L.with(|l| {
        flush(l.get());
        l.set((0, 0, 0));
    });
    T.with(|t| {
        let a = t.replace([0; 6]);
        for i in 0..6 {
            TALLY[i].fetch_add(a[i], Relaxed);
        }
    });
}
static SLOTS: AtomicUsize = AtomicUsize::new(0);
fn take_slot() -> bool {
    let n = SLOTS.load(Relaxed);
    n > 0 && SLOTS.compare_exchange(n, n - 1, Relaxed, Relaxed).is_ok()
}
/// Record up to a few explored cases per group, written out.
#[inline]
pub fn sample(f: impl FnOnce() -> String) {
    if SLOTS.load(Relaxed) > 0
        && take_slot()
    {
        let mut s = f();
        if s.len() > 700 {
            s.truncate(700);
            s.push_str("...");
        }
        ck().sample(format!("[{}] {s}", current()));
    }
}

/// True when exploration should stop because a violation has been found.
#[inline]
pub fn stopped() -> bool {
    ck().stop.load(Relaxed)
}

fn out_dir() -> String {
    std::env::var("IRMC_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn begin(id: &'static str) -> &'static Check {
    let thorough = std::env::args().any(|a| a == "--thorough")
        || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let _ = CHECK.set(Check {
        id,
        thorough,
        seed,
        start: Instant::now(),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        beat: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        outcomes: Mutex::new(BTreeMap::new()),
        groups: Mutex::new(vec![]),
        violations: Mutex::new(vec![]),
        bounds: Mutex::new(vec![]),
        assumptions: Mutex::new(vec![]),
    });
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let h = panic_history();
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg, h));
    }));
    // Watchdog: the code under test may have been changed so that it loops forever.
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = ck().beat.load(Relaxed);
            if b != last {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(90) {
                ck().violate(
                    "no call into the library returned for 90 s (endless loop)",
                    format!("kind hang\ncurrent {}\n", current()),
                );
                ck().finish_now();
            }
        }
    });
    ck()
}

static CURRENT: Mutex<String> = Mutex::new(String::new());
/// Remember what is being explored (coarse), for hang reports.
pub fn set_current(s: impl Into<String>) {
    *CURRENT.lock().unwrap() = s.into();
}
fn current() -> String {
    CURRENT.lock().unwrap().clone()
}

/// Was the last panic raised by the harness itself (as opposed to the code under test)?
fn harness_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("irmc")
}

/// Run `f`; a panic raised inside the code under test becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg, _) = LAST_PANIC.with(|p| p.borrow().clone());
            if harness_panic(&loc) {
                println!("HARNESS-ERROR: panic at {loc}: {msg}");
                std::process::exit(3);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

impl Check {
    pub fn violate(&self, what: impl Into<String>, replay: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            let mut w: String = what.into();
            if w.len() > 3000 {
                w = w.chars().take(3000).collect::<String>() + "...";
            }
            v.push((w, replay));
        }
        self.stop.store(true, Relaxed);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(s.into());
        }
    }
    pub fn outcome(&self, s: impl Into<String>, n: u64) {
        *self.outcomes.lock().unwrap().entry(s.into()).or_insert(0) += n;
    }
    pub fn bound(&self, s: impl Into<String>) {
        let (s, mut b) = (s.into(), self.bounds.lock().unwrap());
        if !b.contains(&s) {
            b.push(s);
        }
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Explore `items` in parallel. `f` runs on each item; panics of the code under test are
    /// violations. Counts are attributed to `group`.
    pub fn par<T: Sync, F: Fn(&T) + Sync>(&self, group: &str, items: &[T], f: F) {
        if self.stop.load(Relaxed) {
            return;
        }
        let t0 = Instant::now();
        let (s0, r0, c0) =
            (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        set_current(group);
        SLOTS.store(2, Relaxed);
        let next = AtomicUsize::new(0);
        let nthr = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        std::thread::scope(|sc| {
            for _ in 0..nthr.min(items.len()).max(1) {
                sc.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() || self.stop.load(Relaxed) {
                            break;
                        }
                        if let Err(e) = guard(|| f(&items[i])) {
                            self.violate(
                                format!("{group}: {e}"),
                                format!(
                                    "{}group {group}\nitem {i}\nmessage {e}\n",
                                    LAST_PANIC.with(|p| p.borrow().2.clone())
                                ),
                            );
                        }
                        self.beat.fetch_add(1, Relaxed);
                    }
                    flush_local();
                });
            }
        });
        let g = (
            group.to_string(),
            self.states.load(Relaxed) - s0,
            self.transitions.load(Relaxed) - r0,
            self.traces.load(Relaxed) - c0,
        );
        if std::env::var("IRMC_VERBOSE").is_ok() {
            println!("group {:<40} states={} transitions={} traces={} {:.2}s", g.0, g.1, g.2, g.3, t0.elapsed().as_secs_f64());
        }
        self.groups.lock().unwrap().push(g);
    }

    pub fn finish(&self) -> ! {
        flush_local();
        self.finish_now()
    }

    fn finish_now(&self) -> ! {
        let viol = self.violations.lock().unwrap();
        let root = out_dir();
        let esc = |s: &str| {
            let mut o = String::new();
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o
        };
        let list = |v: &[String]| {
            v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
        };
        let (st, tr, tc) =
            (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let mut outc = self.outcomes.lock().unwrap();
        for i in 0..6 {
            let n = TALLY[i].load(Relaxed);
            if n > 0 {
                outc.insert(OUTCOMES[i].into(), n);
            }
        }
        let oc = outc
            .iter()
            .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        let gs = self
            .groups
            .lock()
            .unwrap()
            .iter()
            .map(|(n, a, b, c)| {
                format!("{{\"group\": \"{}\", \"states\": {a}, \"transitions\": {b}, \"traces\": {c}}}", esc(n))
            })
            .collect::<Vec<_>>()
            .join(",\n    ");
        let ev = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"bounds\": [{}],\n  \"groups\": [\n    {}],\n  \"distinct_outcomes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            st,
            tr,
            tc,
            viol.is_empty(),
            list(&self.bounds.lock().unwrap()),
            gs,
            oc,
            list(&self.samples.lock().unwrap()),
            list(&self.assumptions.lock().unwrap()),
            self.start.elapsed().as_secs_f64(),
            viol.len()
        );
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", self.id), ev) {
            println!("HARNESS-ERROR: cannot write evidence: {e}");
            std::process::exit(3);
        }
        println!(
            "{}: states={st} transitions={tr} traces={tc} outcomes={} wall={:.1}s",
            self.id,
            outc.len(),
            self.start.elapsed().as_secs_f64()
        );
        if viol.is_empty() {
            if st == 0 || tr == 0 {
                println!("HARNESS-ERROR: nothing was explored");
                std::process::exit(3);
            }
            std::process::exit(0);
        }
        let _ = std::fs::create_dir_all(format!("{root}/out"));
        for (i, (what, rp)) in viol.iter().enumerate() {
            let path = format!("{root}/out/replay-{}-{i}.txt", self.id);
            let _ = std::fs::write(&path, format!("property {}\nwhat {what}\n{rp}", self.id));
            println!("  {what}");
            println!("VIOLATION property={} replay={path}", self.id);
        }
        std::process::exit(1);
    }
}
