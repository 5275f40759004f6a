//! Goes through a corpus of decodes on this platform and reports what comes out differently.
use codec::Decode;
use mon::plat::*;
include!("../plat_targets.rs");

const BITS32: bool = usize::BITS == 32;
/// Plays one group from item `from` on; tells of each item before it is played.
fn play(t: &Targets, g: &Group, from: usize, begun: &mut dyn FnMut(usize), bad: &mut dyn FnMut(usize, String)) {
    for (i, it) in g.items.iter().enumerate().skip(from) {
        begun(i);
        if let Some(s) = mismatch(t, &g.reg, it, BITS32) {
            bad(i, s);
        }
    }
}
fn describe(t: &Targets, g: &Group, i: usize) -> String {
    let it = &g.items[i];
    let what = match it.kind {
        TARGET => t.e[it.target as usize].name,
        FIELDS => t.s[it.target as usize].e.name,
        SKIP => "skip",
        EXPLORE => "explorer",
        _ => "wild visitor",
    };
    let m = mon::model::from_portable(&g.reg);
    format!("case {} item {i}: {what} <- {} {} (flags {}, seed {:x})", g.case, mon::run::cut(&m.show(it.id as usize), 600), mon::run::hex(&it.input), it.flags, it.seed)
}
#[cfg(not(target_arch = "wasm32"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a[k].parse::<u64>().unwrap();
    let (shard, shards, secs) = (num(2), num(3), num(4));
    let one = a.get(5).map(|x| x.parse::<u64>().unwrap());
    let started = std::time::Instant::now();
    let file = std::fs::read(&a[1]).unwrap();
    let t = targets();
    let (mut items, mut gs) = (0u64, 0u64);
    let mut kinds = [0u64; 5];
    let mut flagged = 0u64;
    if std::env::var("FULL").is_ok() {
        FULL.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let mut order: Vec<(usize, &[u8])> = groups(&file).into_iter().enumerate().collect();
    if std::env::var("REVERSE").is_ok() {
        order.reverse();
    }
    for (k, b) in order {
        if k as u64 % shards != shard {
            continue;
        }
        if started.elapsed().as_secs() >= secs {
            break;
        }
        let mut g = Group::decode(&mut &*b).unwrap();
        if std::env::var("REVERSE").is_ok() {
            g.items.reverse();
        }
        if one.is_some_and(|n| n != g.case) {
            continue;
        }
        eprintln!("GROUP {}", g.case);
        let at = std::cell::Cell::new(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            play(&t, &g, 0, &mut |i| {
                at.set(i);
                items += 1;
                kinds[g.items[i].kind as usize] += 1;
                flagged += (g.items[i].flags > 0) as u64;
            }, &mut |i, s| println!("MISMATCH {} {s}", describe(&t, &g, i)))
        }));
        if r.is_err() {
            println!("MISMATCH {} panics", describe(&t, &g, at.get()));
        }
        gs += 1;
    }
    println!("DONE {items} items {gs} groups, kinds {kinds:?}, huge {flagged}, bits {}, big endian {}", usize::BITS, cfg!(target_endian = "big"));
}
#[cfg(target_arch = "wasm32")]
mod wasm {
    use super::*;
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn say(kind: u32, p: *const u8, n: usize);
    }
    fn tell(kind: u32, s: &str) {
        unsafe { say(kind, s.as_ptr(), s.len()) }
    }
    static mut T: Option<Targets> = None;
    static mut AT: (Option<Group>, usize) = (None, 0);
    #[allow(static_mut_refs)]
    fn t() -> &'static Targets {
        unsafe { T.get_or_insert_with(targets) }
    }
    #[no_mangle]
    pub extern "C" fn c21_alloc(n: usize) -> *mut u8 {
        Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
    }
    /// plays one group; 0: mismatch, 1: a panic, 2: counts
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub extern "C" fn c21_play(p: *const u8, n: usize, from: usize) {
        std::panic::set_hook(Box::new(|i| {
            let (g, at) = unsafe { (AT.0.as_ref(), AT.1) };
            if let Some(g) = g {
                tell(1, &format!("{} panics: {i}", describe(t(), g, at)));
            }
        }));
        let b = unsafe { std::slice::from_raw_parts(p, n) };
        unsafe { AT = (Some(Group::decode(&mut &*b).unwrap()), from) };
        let g = unsafe { AT.0.as_ref().unwrap() };
        play(t(), g, from, &mut |i| {
            unsafe { AT.1 = i };
            tell(2, &format!("{} {} {}", i, g.items[i].kind, g.items[i].flags));
        }, &mut |i, s| tell(0, &format!("{} {s}", describe(t(), g, i))));
    }
}
#[cfg(target_arch = "wasm32")]
fn main() {}
