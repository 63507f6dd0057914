//! What a call does with locks: each candidate call of a script is run alone, after the same calls before it, and
//! every lock operation of it and of the background thread is written down. Memory of such runs is never reused,
//! so that an address names one lock, and the same one in every run.
use crate::hooks;
use crate::ops::*;
use crate::run::*;
use crate::sym::*;
use parking_lot::sched::{self, Strategy};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const REGION: usize = 64 << 30;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LEAK: AtomicBool = AtomicBool::new(false);

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LEAK.load(Ordering::Relaxed) {
            let al = l.align().max(16);
            let n = l.size() + al;
            let a = NEXT.fetch_add(n, Ordering::SeqCst);
            if a + n < BASE.load(Ordering::Relaxed) + REGION {
                return ((a + al - 1) & !(al - 1)) as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(Ordering::Relaxed);
        if b != 0 && (p as usize) >= b && (p as usize) < b + REGION {
            return;
        }
        System.dealloc(p, l)
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Which lock; on a stack nobody else can reach it.
fn lock_id(a: usize, base: usize) -> i64 {
    let (lo, hi) = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
    if a >= base && a < BASE.load(Ordering::SeqCst) + REGION {
        (a - base) as i64
    } else if a >= lo && a < hi {
        (1 << 40) + (a - lo) as i64
    } else {
        -1
    }
}

/// (before the candidate, after it): caller 0, background threads 1, 2, ...
type Log = Vec<(usize, u8, i64)>;
fn one(s: &Script, prefix: &[Op], cand: &Op) -> (Log, Log, String) {
    let dir = env().base.join("d");
    _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    *rec() = Rec::default();
    rec().ev.reserve(1 << 12);
    reset_ctl(&dir, s.seed);
    sched::begin(s.seed, Strategy::First, 1 << 40, hang);
    sched::log_on(1 << 18);
    let base = (NEXT.load(Ordering::SeqCst) + 0xfffff) & !0xfffff;
    NEXT.store(base, Ordering::SeqCst);
    LEAK.store(true, Ordering::SeqCst);
    hooks::ON.store(true, Ordering::SeqCst);
    let mut res = String::new();
    {
        let st = open_store(&dir, &s.cfg).ok().map(|st| Ctx { st, dir: dir.clone() });
        if let Some(c) = st {
            let mut its = Iters::new();
            for o in prefix {
                _ = call(&c, o, &mut its);
            }
            for (i, t) in sched::system_threads().into_iter().enumerate() {
                sched::log_mark(if sched::idle(t) { b'A' } else { b'P' });
                _ = i;
            }
            sched::log_mark(b'{');
            res = call(&c, cand, &mut its);
            sched::log_mark(b'}');
            sched::drain();
            sched::log_mark(b'$');
        }
    }
    hooks::ON.store(false, Ordering::SeqCst);
    sched::drain();
    let sys = sched::system_threads();
    let raw = sched::log_off();
    sched::end();
    LEAK.store(false, Ordering::SeqCst);
    let cut = raw.iter().position(|e| e.1 == b'{').unwrap_or(raw.len());
    let end = raw.iter().position(|e| e.1 == b'$').unwrap_or(raw.len());
    let tr = |v: &[(usize, u8, usize)]| -> Log {
        v.iter()
            .map(|&(t, k, a)| {
                let t = if t == 0 { 0 } else { 1 + sys.iter().position(|&x| x == t).unwrap_or(98) };
                let id = match k {
                    b's' => if a == 0 { 0 } else { 1 + sys.iter().position(|&x| x == a).unwrap_or(98) as i64 },
                    b'b' | b'{' | b'}' | b'A' | b'P' | b'$' => 0,
                    _ => lock_id(a, base),
                };
                (t, k, id)
            })
            .collect()
    };
    (tr(&raw[..cut]), tr(&raw[cut..end]), res)
}
fn call(c: &Ctx, op: &Op, its: &mut Iters) -> String {
    if op.o == "stats" {
        _ = c.st.stats();
        String::new()
    } else {
        exec(c, op, its).0
    }
}

/// Phases of the script: the calls before, then one "thread" for each candidate.
pub fn run(s: &Script) {
    use std::io::Write;
    if BASE.load(Ordering::SeqCst) == 0 {
        let p = unsafe { sched::raw6(9, 0, REGION, 3, 0x4022, usize::MAX, 0) };
        assert!(p > 0, "no address space");
        BASE.store(p as usize, Ordering::SeqCst);
        NEXT.store(p as usize, Ordering::SeqCst);
    }
    let (Phase::Seq(prefix), Phase::Conc(cands)) = (&s.phases[0], &s.phases[1]) else { return };
    env().cur = Some((s.clone(), vec![]));
    // the first run settles what is set up only once
    _ = one(s, prefix, &cands[0][0]);
    let mut before: Option<Log> = None;
    let mut out = vec![];
    for c in cands {
        let (b, l, res) = one(s, prefix, &c[0]);
        let same = before.get_or_insert_with(|| b.clone()) == &b;
        let idle = b.iter().filter(|e| e.1 == b'A' || e.1 == b'P').map(|e| if e.1 == b'A' { "1".into() } else { "0".to_string() });
        out.push(format!(
            "{{\"op\":{},\"same\":{same},\"res\":{},\"idle\":{},\"log\":{}}}",
            js(&c[0].show()),
            js(&res),
            ja(idle),
            ja(l.iter().map(|&(t, k, id)| format!("[{t},\"{}\",{id}]", k as char)))
        ));
    }
    _ = writeln!(env().out, "{{\"id\":{},\"script\":{},\"calls\":{}}}", js(&s.id), js(&s.show()), ja(out));
    env().cur = None;
}
