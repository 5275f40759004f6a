//! What a decode gives must not depend on what was decoded before, in between, around it or next to it. A number of decodes,
//! over several registries, is done alone, and then again: in other orders, in a thread that has decoded nothing, within each
//! other's callbacks and lookups, with registries and inputs taking each other's places in memory, and on several threads at
//! once. A corpus of them is written out with what they gave, for fresh processes.
use mon::plat::*;
use mon::rng::{hash_bytes, Rng};
use mon::run::{self, cut, hex, Case};
use mon::tick::{self, Ticking};
use scale_info::PortableRegistry as P;
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
#[global_allocator]
static A: run::Counting = run::Counting;
include!("../plat_targets.rs");

type T = Targets<Ticking<P>>;
struct Reg {
    reg: Ticking<P>,
    m: mon::model::Model,
    items: Vec<Item>,
    want: Vec<String>,
}
struct World {
    t: &'static T,
    regs: Vec<Reg>,
}
impl World {
    fn run(&self, r: usize, i: usize) -> String {
        let x = &self.regs[r];
        outcome_with(self.t, &x.reg, &|| x.m.clone(), &x.items[i], &x.items[i].input)
    }
    fn what(&self, r: usize, i: usize) -> String {
        let (x, it) = (&self.regs[r], &self.regs[r].items[i]);
        format!("registry {r} kind {} {} <- {} {}", it.kind, self.t.name(it), cut(&x.m.show(it.id as usize), 400), hex(&it.input))
    }
    /// the complaint if it does not come out as it did alone
    fn check(&self, r: usize, i: usize, how: &str) -> Option<String> {
        let got = self.run(r, i);
        let want = &self.regs[r].want[i];
        (got != *want).then(|| format!("{}: {how} gives {}, alone {}", self.what(r, i), cut(&got, 500), cut(want, 500)))
    }
    fn all(&self) -> Vec<(usize, usize)> {
        self.regs.iter().enumerate().flat_map(|(r, x)| (0..x.items.len()).map(move |i| (r, i))).collect()
    }
}
/// Decodes to do in the middle of another.
struct Middle {
    w: Arc<World>,
    all: Vec<(usize, usize)>,
    rng: RefCell<Rng>,
    depth: Cell<u32>,
    left: Cell<u32>,
    viols: RefCell<Vec<String>>,
    done: Cell<u64>,
    deepest: Cell<u32>,
}
fn middle(m: &Rc<Middle>) {
    let d = m.depth.get();
    if d > 3 || m.left.get() == 0 || !m.rng.borrow_mut().chance(1, 3 + 5 * d as usize) {
        return;
    }
    m.left.set(m.left.get() - 1);
    m.depth.set(d + 1);
    let (r, i) = *m.rng.borrow_mut().pick(&m.all);
    if let Some(s) = m.w.check(r, i, &format!("in the middle of another ({} deep)", d + 1)) {
        m.viols.borrow_mut().push(s);
    }
    m.depth.set(d);
    m.done.set(m.done.get() + 1);
    m.deepest.set(m.deepest.get().max(d + 1));
}
fn case(t: &'static T, plain: &Targets<P>, out: &Mutex<std::fs::File>, racy: bool, c: &mut Case) {
    let mut regs = vec![];
    for _ in 0..c.rng.range(2, 5) {
        let small = !c.rng.chance(1, 4);
        let Some((m, mut items)) = items(c, t, small, false) else { continue };
        items.retain(|i| i.flags == 0);
        c.rng.shuffle(&mut items);
        items.truncate(10);
        // the same bytes for other types and targets
        for _ in 0..2 {
            if items.is_empty() {
                break;
            }
            let mut x = c.rng.pick(&items).clone();
            let y = c.rng.pick(&items).clone();
            if mon::val::RefDec::new(&m, &y.input).decode(x.id as usize).is_ok() {
                x.input = y.input;
                items.push(x);
            }
        }
        if !items.is_empty() {
            regs.push(Reg { reg: Ticking(m.portable()), m, items, want: vec![] });
        }
    }
    if regs.is_empty() {
        return c.skipped();
    }
    let mut w = World { t, regs };
    c.context(|| w.regs.iter().map(|r| format!("{} items over {} types", r.items.len(), r.m.defs.len())).collect::<Vec<_>>().join("; "));
    for r in 0..w.regs.len() {
        w.regs[r].want = (0..w.regs[r].items.len()).map(|i| w.run(r, i)).collect();
    }
    for (r, i) in w.all() {
        let it = &w.regs[r].items[i];
        c.distinct(&[&[it.kind], t.name(it).as_bytes(), w.regs[r].m.show(it.id as usize).as_bytes(), &it.input]);
        let k = ["target", "fields", "skip", "explorer", "wild"][it.kind as usize];
        c.count(k, 1);
        c.count(if w.regs[r].want[i].starts_with("err") { "errors" } else { "values" }, 1);
    }
    let (r, i) = *c.rng.pick(&w.all());
    c.sample(|| format!("{} = {}", w.what(r, i), cut(&w.regs[r].want[i], 200)));
    let w = Arc::new(w);
    let mut all = w.all();
    // in a thread that has decoded nothing yet, from the last to the first
    let mut bad: Vec<String> = {
        let w = w.clone();
        let all: Vec<_> = all.iter().rev().copied().collect();
        c.evals(all.len() as u64);
        c.count("in_fresh_threads", all.len() as u64);
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || all.iter().filter_map(|&(r, i)| w.check(r, i, "in a new thread")).collect::<Vec<_>>());
        match r.unwrap().join() {
            Ok(v) => v,
            Err(_) => vec!["panics in a new thread".into()],
        }
    };
    // again, in other orders
    for _ in 0..2 {
        c.rng.shuffle(&mut all);
        for &(r, i) in &all {
            c.eval();
            bad.extend(w.check(r, i, "again, in another order"));
        }
    }
    c.count("repeated", 2 * all.len() as u64);
    // one decode, and then that of another, many times over
    let (&(r, i), &(r2, i2)) = (c.rng.pick(&all), c.rng.pick(&all));
    for _ in 0..12 {
        w.run(r, i);
    }
    bad.extend(w.check(r2, i2, "after many times another"));
    c.eval();
    // within each other
    for _ in 0..if racy { 3 } else { 12 } {
        let (r, i) = *c.rng.pick(&all);
        let m = Rc::new(Middle {
            w: w.clone(), all: all.clone(), rng: RefCell::new(Rng::new(c.rng.next())), depth: Cell::new(0), left: Cell::new(8),
            viols: Default::default(), done: Cell::new(0), deepest: Cell::new(0),
        });
        let hook = m.clone();
        let r = tick::with(Rc::new(move || middle(&hook)), || w.check(r, i, "with others in its middle"));
        bad.extend(r);
        bad.extend(m.viols.take());
        c.evals(1 + m.done.get());
        c.count("in_the_middle", m.done.get());
        c.max("nested", m.deepest.get() as u64);
    }
    // in each other's places in memory
    let mut slot = Ticking(P { types: vec![] });
    let mut buf = vec![0u8; all.iter().map(|&(r, i)| w.regs[r].items[i].input.len()).max().unwrap() + 1];
    for _ in 0..if racy { 4 } else { 20 } {
        let k = c.rng.below(w.regs.len());
        slot.0.types.clear();
        slot.0.types.extend(w.regs[k].reg.0.types.iter().cloned());
        for _ in 0..3 {
            let i = c.rng.below(w.regs[k].items.len());
            let it = &w.regs[k].items[i];
            buf[..it.input.len()].copy_from_slice(&it.input);
            let got = outcome_with(t, &slot, &|| w.regs[k].m.clone(), it, &buf[..it.input.len()]);
            c.eval();
            c.count("in_the_same_place", 1);
            if got != w.regs[k].want[i] {
                bad.push(format!("{}: where others were in memory gives {}, alone {}", w.what(k, i), cut(&got, 500), cut(&w.regs[k].want[i], 500)));
            }
        }
    }
    // at once
    let n = c.rng.range(2, 6);
    let (last, switches, trace, ticks) = (AtomicU64::new(99), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let sh = Arc::new((last, switches, trace, ticks));
    let hs: Vec<_> = (0..n as u64)
        .map(|me| {
            let (w, sh, mut rng) = (w.clone(), sh.clone(), Rng::new(c.rng.next()));
            let all = all.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let hr = RefCell::new(Rng::new(rng.next()));
                // (nothing here orders what the threads do)
                let hook = Rc::new(move || {
                    sh.3.fetch_add(1, Relaxed);
                    if sh.0.swap(me, Relaxed) != me {
                        sh.1.fetch_add(1, Relaxed);
                        let h = sh.2.load(Relaxed);
                        sh.2.store(hash_bytes(h, &[me as u8]), Relaxed);
                    }
                    match hr.borrow_mut().below(12) {
                        0 | 1 => std::thread::yield_now(),
                        2 => (0..50).for_each(|_| std::hint::spin_loop()),
                        _ => {}
                    }
                });
                let mut bad = vec![];
                for _ in 0..if racy { 12 } else { 25 } {
                    let &(r, i) = rng.pick(&all);
                    bad.extend(tick::with(hook.clone(), || w.check(r, i, "at once with others on other threads")));
                }
                bad
            })
        })
        .collect();
    for h in hs {
        match h.unwrap().join() {
            Ok(v) => bad.extend(v),
            Err(_) => bad.push("panics next to others on other threads".into()),
        }
        c.evals(if racy { 12 } else { 25 });
        c.count("at_once", if racy { 12 } else { 25 });
    }
    c.count("thread_switches_seen", sh.1.load(Relaxed));
    c.count("steps_at_once", sh.3.load(Relaxed));
    if SEEN.lock().unwrap().insert(sh.2.load(Relaxed)) {
        c.count("distinct_interleavings", 1);
    }
    for b in bad.into_iter().take(3) {
        c.viol(b);
    }
    // for fresh processes
    if !racy && c.rng.chance(1, 6) {
        let x = c.rng.pick(&w.regs);
        let mut g = Group { case: c.n, reg: x.reg.0.clone(), items: x.items.clone() };
        for it in &mut g.items {
            it.want = outcome(plain, &x.reg.0, it);
        }
        out.lock().unwrap().write_all(&g.framed()).unwrap();
    }
}
static SEEN: Mutex<std::collections::BTreeSet<u64>> = Mutex::new(std::collections::BTreeSet::new());
fn main() {
    FULL.store(true, Relaxed);
    let t: &'static T = Box::leak(Box::new(targets()));
    let plain = targets();
    let racy = std::env::var("RACY").is_ok();
    let path = std::env::var("CORPUS").unwrap_or("/dev/null".into());
    let f = Mutex::new(std::fs::OpenOptions::new().create(true).write(true).truncate(path != "/dev/null").open(path).unwrap());
    run::run("C22", run::Opts { quick: 40_000, thorough: 400_000, ..Default::default() }, |c| case(t, &plain, &f, racy, c));
}
