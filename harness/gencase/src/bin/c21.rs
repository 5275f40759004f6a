//! Makes a corpus of decodes with what they give on this platform (for `plat` to go through on others). Each decode is run
//! twice here, the second time from a copy of the input at an odd address: the outcome must not depend on where the input is.
use mon::plat::*;
use mon::run::{self, cut, hex, Case};
use std::io::Write;
use std::sync::Mutex;
#[global_allocator]
static A: run::Counting = run::Counting;
include!("../plat_targets.rs");

fn case(t: &Targets, out: &Mutex<std::fs::File>, small: bool, c: &mut Case) {
    let Some((m, made)) = items(c, t, small, true) else { return };
    let mut g = Group { case: c.n, reg: m.portable(), items: vec![] };
    for mut it in made {
        let (b, huge) = (it.input.clone(), it.flags & HUGE > 0);
        let name = t.name(&it);
        c.context(|| format!("kind {} target {name} type {} input {}", it.kind, m.show(it.id as usize), hex(&b)));
        c.distinct(&[&[it.kind, it.flags], name.as_bytes(), m.show(it.id as usize).as_bytes(), &b]);
        c.count(["target", "fields", "skip", "explorer", "wild"][it.kind as usize], 1);
        if huge {
            c.count(if it.flags & ONLY32 > 0 { "huge_lists_of_nothing" } else { "huge_lengths" }, 1);
        }
        if it.flags & ONLY32 == 0 {
            it.want = outcome(t, &g.reg, &it);
            if huge && it.kind == TARGET && !it.want.starts_with("err") {
                // the target has no use for the list; nothing more to say about it
                continue;
            }
            // the same from elsewhere in memory
            let off = 1 + c.rng.below(15);
            let mut moved = vec![0xA5; off];
            moved.extend_from_slice(&b);
            let again = outcome_on(t, &g.reg, &it, &moved[off..]);
            c.eval();
            if again != it.want {
                c.viol(format!("gives {} and, from another address, {}", cut(&it.want, 500), cut(&again, 500)));
            }
            c.count(if it.want.starts_with("err") { "errors" } else { "values" }, 1);
            let narrow = match name {
                "usize" => Some("u32"),
                "isize" => Some("i32"),
                _ => None,
            };
            if let Some(n) = narrow {
                let mut j = it.clone();
                j.target = t.e.iter().position(|e| e.name == n).unwrap() as u32;
                it.want32 = Some(outcome(t, &g.reg, &j));
                c.count("pointer_sized", 1);
            }
            c.sample(|| format!("{name} <- {} {} = {}", cut(&m.show(it.id as usize), 200), hex(&b), cut(&it.want, 200)));
        }
        g.items.push(it);
    }
    if g.items.is_empty() {
        return;
    }
    out.lock().unwrap().write_all(&g.framed()).unwrap();
}
fn main() {
    let t = targets();
    // small decodes, for interpreters
    let small = std::env::var("SMALL").is_ok();
    let path = std::env::var("CORPUS").unwrap_or("/dev/null".into());
    let f = Mutex::new(std::fs::OpenOptions::new().create(true).write(true).truncate(path != "/dev/null").open(path).unwrap());
    run::run("C21", run::Opts { quick: 8_000, thorough: 60_000, ..Default::default() }, |c| case(&t, &f, small, c))
}
