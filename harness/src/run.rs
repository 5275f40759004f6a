//! The workload runner: cases on worker threads, panic and hang monitors, an accounting allocator, results as JSON.
use crate::rng::{hash_bytes, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
#[cfg(unix)]
use std::os::unix::fs::FileExt;
#[cfg(not(unix))]
trait FileExt {
    fn write_all_at(&self, _: &[u8], _: u64) -> std::io::Result<()> {
        Ok(())
    }
}
#[cfg(not(unix))]
impl FileExt for std::fs::File {}
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Counts what each thread allocates, and refuses to go beyond a thread's limit.
pub struct Counting;
fn grow(n: usize) -> bool {
    let live = LIVE.try_with(|l| {
        let x = l.get() + n as i64;
        l.set(x);
        x
    });
    let Ok(live) = live else { return true };
    if live > LIMIT.with(|l| l.get()) {
        LIVE.with(|l| l.set(live - n as i64));
        return false;
    }
    PEAK.with(|p| p.set(p.get().max(live)));
    TOTAL.with(|p| p.set(p.get() + n as u64));
    COUNT.with(|p| p.set(p.get() + 1));
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            let _ = LIVE.try_with(|x| x.set(x.get() - (l.size() - n) as i64));
        }
        System.realloc(p, l, n)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Alloc {
    /// most bytes live at once, above the level at the start
    pub peak: u64,
    /// all bytes requested
    pub total: u64,
    pub count: u64,
}
/// What a piece of code allocates on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Alloc) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let (t, c) = (TOTAL.with(|t| t.get()), COUNT.with(|t| t.get()));
    let r = f();
    let a = Alloc {
        peak: (PEAK.with(|p| p.get()) - live).max(0) as u64,
        total: TOTAL.with(|x| x.get()) - t,
        count: COUNT.with(|x| x.get()) - c,
    };
    (r, a)
}
/// Runs code with an allocation limit; beyond it, allocations fail and the process aborts.
pub fn limited<T>(bytes: i64, f: impl FnOnce() -> T) -> T {
    let old = LIMIT.with(|l| l.replace(LIVE.with(|x| x.get()) + bytes));
    let r = f();
    LIMIT.with(|l| l.set(old));
    r
}

/// One case of a workload.
pub struct Case {
    pub n: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub verbose: bool,
    st: Stats,
    what: String,
}
#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<(u64, String)>,
    cases: u64,
    skipped: u64,
}
impl Case {
    /// something was judged
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.st.evals += n;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            match self.st.counts.get_mut(k) {
                Some(x) => *x += n,
                None => {
                    self.st.counts.insert(k.to_string(), n);
                }
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.max.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// a non-trivial execution, identified by its content
    pub fn distinct(&mut self, parts: &[&[u8]]) {
        let mut h = 0xcbf29ce484222325;
        for p in parts {
            h = hash_bytes(h, &(p.len() as u64).to_le_bytes());
            h = hash_bytes(h, p);
        }
        self.st.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let s = f();
            self.st.samples.push(format!("case {}: {}", self.n, cut(&s, 600)));
        }
        if self.verbose {
            println!("  .. sampled");
        }
    }
    /// remembered in case something panics
    pub fn context(&mut self, f: impl FnOnce() -> String) {
        self.what = f();
        if self.verbose {
            println!("{}", self.what);
        }
    }
    pub fn viol(&mut self, s: String) {
        let m = format!("{} || {}", cut(&s, 1500), cut(&self.what, 3000));
        if self.verbose {
            println!("VIOLATION {m}");
        }
        if self.st.viols.len() < 50 {
            self.st.viols.push((self.n, m));
        }
    }
    pub fn skipped(&mut self) {
        self.st.skipped += 1;
    }
    pub fn violated(&self) -> bool {
        !self.st.viols.is_empty()
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}..({} bytes)", &s[..k], s.len())
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Runs the code; a panic is an Err with its message and place.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
pub struct Opts {
    pub quick: u64,
    pub thorough: u64,
    /// stack of each worker
    pub stack: usize,
    pub threads: usize,
    /// a panic while a case runs is a violation of the property (true), or just ends the case
    pub panics: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { quick: 20_000, thorough: 1_000_000, stack: 256 << 20, threads: 8, panics: true }
    }
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
/// Runs the workload as the command line says. Exit codes: 0 done (violations are in the output), 2 trouble.
pub fn run(id: &str, o: Opts, f: impl Fn(&mut Case) + Sync) {
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg("--out");
    let only: Option<u64> = arg("--case").and_then(|s| s.parse().ok());
    let cur = arg("--cur");
    let secs: u64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 500 } else { 150 });
    let cases = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { o.thorough } else { o.quick });
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panicked at {at}: {m}"));
    }));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let started = Instant::now();
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let threads = if only.is_some() { 1 } else { o.threads };
    let curf = cur.map(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap());
    // (case, started at ms) per worker, for the hang monitor
    let beats: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let running = AtomicU64::new(threads as u64);
    let (f, curf, beats, next, stop, total, running) = (&f, &curf, &beats, &next, &stop, &total, &running);
    let panics = o.panics;
    let finish = |st: &Stats, hung: Option<u64>| {
        let mut s = String::new();
        let mut viols = st.viols.clone();
        viols.sort();
        if let Some(h) = hung {
            viols.push((h, "the case does not come to an end".into()));
        }
        s.push_str(&format!(
            "{{\"property\":{},\"seed\":{seed},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"skipped\":{},\"hung\":{},\"wall_s\":{:.1},\n",
            json(id),
            st.cases,
            st.evals,
            st.distinct.len(),
            st.skipped,
            hung.is_some(),
            started.elapsed().as_secs_f64()
        ));
        let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(",");
        s.push_str(&format!("\"counts\":{{{}}},\n\"max\":{{{}}},\n", kv(&st.counts), kv(&st.max)));
        s.push_str(&format!("\"samples\":[{}],\n", st.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(",\n")));
        s.push_str(&format!(
            "\"violations\":[{}]}}\n",
            viols.iter().map(|(c, m)| format!("{{\"case\":{c},\"what\":{}}}", json(m))).collect::<Vec<_>>().join(",\n")
        ));
        match &out {
            Some(p) => std::fs::write(p, &s).unwrap(),
            None => println!("{s}"),
        }
    };
    std::thread::scope(|sc| {
        for w in 0..threads {
            std::thread::Builder::new()
                .stack_size(o.stack)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    loop {
                        let n = match only {
                            Some(n) => {
                                if st.cases > 0 {
                                    break;
                                }
                                n
                            }
                            None => next.fetch_add(1, Relaxed),
                        };
                        if only.is_none() && (n >= cases || stop.load(Relaxed) || started.elapsed().as_secs() >= secs) {
                            break;
                        }
                        beats[w].1.store(started.elapsed().as_millis() as u64, Relaxed);
                        beats[w].0.store(n + 1, Relaxed);
                        if let Some(f) = curf {
                            let _ = f.write_all_at(&(n + 1).to_le_bytes(), 8 * w as u64);
                        }
                        let mut c = Case {
                            n,
                            rng: Rng::for_case(seed, id, n),
                            thorough,
                            verbose: only.is_some(),
                            st: std::mem::take(&mut st),
                            what: String::new(),
                        };
                        c.st.cases += 1;
                        // a runaway allocation aborts the process, which the driver then pins to this case
                        let r = limited(2 << 30, || catch(|| f(&mut c)));
                        if let Err(m) = r {
                            if panics || m.contains("/verif/harness") {
                                c.viol(m);
                            } else {
                                c.count("panicked", 1);
                            }
                        }
                        st = c.st;
                        if st.viols.len() >= 3 {
                            stop.store(true, Relaxed);
                        }
                        beats[w].0.store(0, Relaxed);
                    }
                    if let Some(f) = curf {
                        let _ = f.write_all_at(&0u64.to_le_bytes(), 8 * w as u64);
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    t.cases += st.cases;
                    t.skipped += st.skipped;
                    if t.distinct.is_empty() {
                        t.distinct = st.distinct;
                    } else {
                        t.distinct.extend(st.distinct);
                    }
                    for (k, v) in st.counts {
                        *t.counts.entry(k).or_default() += v;
                    }
                    for (k, v) in st.max {
                        let e = t.max.entry(k).or_default();
                        *e = (*e).max(v);
                    }
                    t.viols.extend(st.viols);
                    for s in st.samples {
                        if t.samples.len() < 5 {
                            t.samples.push(s);
                        }
                    }
                    running.fetch_sub(1, Relaxed);
                })
                .unwrap();
        }
        // the hang monitor
        while running.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = started.elapsed().as_millis() as u64;
            for b in beats {
                let c = b.0.load(Relaxed);
                if c > 0 && now.saturating_sub(b.1.load(Relaxed)) > 120_000 && b.0.load(Relaxed) == c {
                    finish(&total.lock().unwrap(), Some(c - 1));
                    std::process::exit(0);
                }
            }
        }
    });
    finish(&total.lock().unwrap(), None);
}
