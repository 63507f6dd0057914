//! A deterministic scheduler. While it is on, exactly one managed thread runs at a time; every lock
//! operation of this crate and every hooked system call is a scheduling point at which a seeded strategy
//! picks the next thread. Nothing here depends on the code under test.
use std::arch::asm;
use std::cell::Cell;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};

pub const NONE: usize = usize::MAX;

thread_local! { static ID: Cell<usize> = const { Cell::new(NONE) }; }

static ON: AtomicBool = AtomicBool::new(false);

#[inline]
pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(202, a as *const _ as usize, 128, v as usize, 0, 0, 0); }
}
fn futex_wake(a: &AtomicU32) {
    unsafe { raw6(202, a as *const _ as usize, 129, 1, 0, 0, 0); }
}
fn os_yield() {
    unsafe { raw6(24, 0, 0, 0, 0, 0, 0); }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Run,
    Blocked(usize, &'static str),
    Timed(usize, &'static str),
    Done,
}

pub struct Th {
    go: &'static AtomicU32,
    pub st: St,
    prio: u64,
    pub label: String,
    pub system: bool, // created by the code under test
    timed_out: bool,
    sleep: u32,
    ops: u32,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// switch with probability num/256 at each scheduling point
    Random(u32),
    /// PCT: random priorities, change points at the given steps
    Pct(Vec<u64>),
    /// never switch unless forced; then to the oldest thread
    First,
    /// like First until `guide_on`, then each (thread, n): that thread until it has done n lock operations
    Guide(Vec<(usize, u32)>),
}

/// What threads do with locks, for later analysis: (thread, kind, lock).
pub static LOGGING: AtomicBool = AtomicBool::new(false);
struct LogCell(UnsafeCell<Vec<(usize, u8, usize)>>);
unsafe impl Sync for LogCell {}
static LOG: LogCell = LogCell(UnsafeCell::new(vec![]));
pub fn log_on(cap: usize) {
    let v = unsafe { &mut *LOG.0.get() };
    v.clear();
    v.reserve(cap);
    LOGGING.store(true, Ordering::SeqCst);
}
pub fn log_off() -> Vec<(usize, u8, usize)> {
    LOGGING.store(false, Ordering::SeqCst);
    std::mem::take(unsafe { &mut *LOG.0.get() })
}
pub fn log_mark(kind: u8) {
    log(kind, 0);
}
#[inline]
pub(crate) fn log(kind: u8, key: usize) {
    if managed() && LOGGING.load(Ordering::Relaxed) {
        let me = my_id();
        unsafe { &mut *LOG.0.get() }.push((me, kind, key));
        if kind != b'b' && kind != b's' && key != 0 {
            g().th[me].ops += 1;
        }
    }
}
/// From now on threads created by the harness count as callers 0, 1, ... of the guide, those of the code
/// under test as 100, 101, ...
pub fn guide_on() {
    let s = g();
    s.guide_from = s.th.len();
    s.guiding = true;
    for t in s.th.iter_mut() {
        t.ops = 0;
    }
}
/// is thread i blocked?
pub fn idle(i: usize) -> bool {
    g().th[i].st != St::Run
}
pub fn system_threads() -> Vec<usize> {
    (0..g().th.len()).filter(|&i| g().th[i].system).collect()
}

pub struct Sched {
    pub th: Vec<Th>,
    rng: u64,
    strat: Strategy,
    pub steps: u64,
    budget: u64,
    pub switches: u64,
    on_hang: fn(&str) -> !,
    low: u64,
    guiding: bool,
    guide_from: usize,
    guide_pos: usize,
}

struct Glob(UnsafeCell<Option<Sched>>);
unsafe impl Sync for Glob {}
static G: Glob = Glob(UnsafeCell::new(None));
static CUR: AtomicUsize = AtomicUsize::new(NONE);

/// Only the running managed thread may touch this.
#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut Sched {
    unsafe { (*G.0.get()).as_mut().expect("scheduler") }
}

impl Sched {
    fn rnd(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn pick(&mut self, me: usize, avoid_me: bool) -> usize {
        self.steps += 1;
        if self.steps > self.budget {
            (self.on_hang)("livelock");
        }
        if let Strategy::Pct(ref pts) = self.strat {
            if pts.contains(&self.steps) || (avoid_me && me != NONE) {
                self.low -= 1;
                self.th[me].prio = self.low;
            }
        }
        let me_ok = self.th[me].st == St::Run;
        let mut run: [usize; 64] = [0; 64];
        let mut n = 0;
        for (i, t) in self.th.iter().enumerate() {
            if t.st == St::Run && n < 64 {
                run[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            // nobody can run: a timed wait times out, otherwise this is a deadlock
            let timed: Vec<usize> =
                (0..self.th.len()).filter(|&i| matches!(self.th[i].st, St::Timed(..))).collect();
            if timed.is_empty() {
                (self.on_hang)("deadlock");
            }
            let k = timed[(self.rnd() % timed.len() as u64) as usize];
            self.th[k].st = St::Run;
            self.th[k].timed_out = true;
            return k;
        }
        match self.strat {
            Strategy::Random(p) => {
                if me_ok && !avoid_me && (self.rnd() & 0xff) as u32 >= p {
                    return me;
                }
                let k = (self.rnd() % n as u64) as usize;
                if avoid_me && n > 1 && run[k] == me {
                    return run[(k + 1) % n];
                }
                run[k]
            }
            Strategy::First => if avoid_me && n > 1 && run[0] == me { run[1] } else { run[0] },
            Strategy::Guide(ref list) => {
                if !self.guiding || run[0] == 0 {
                    return if avoid_me && n > 1 && run[0] == me { run[1] } else { run[0] };
                }
                while self.guide_pos < list.len() {
                    let (who, n) = list[self.guide_pos];
                    let t = if who >= 100 {
                        (0..self.th.len()).filter(|&i| self.th[i].system).nth(who - 100)
                    } else {
                        (self.guide_from..self.th.len()).filter(|&i| !self.th[i].system).nth(who)
                    };
                    match t {
                        Some(t) if self.th[t].ops < n && self.th[t].st == St::Run => return t,
                        Some(t) if self.th[t].ops < n => break,
                        _ => self.guide_pos += 1,
                    }
                }
                let k = (self.rnd() % n as u64) as usize;
                run[k]
            }
            Strategy::Pct(_) => *run[..n].iter().max_by_key(|&&i| self.th[i].prio).unwrap(),
        }
    }
}

#[inline]
pub fn managed() -> bool {
    ON.load(Ordering::Relaxed) && ID.with(|c| c.get()) != NONE
}
pub fn my_id() -> usize {
    ID.with(|c| c.get())
}

fn switch(me: usize, to: usize) {
    if me == to {
        return;
    }
    let s = g();
    s.switches += 1;
    let mine: Option<&'static AtomicU32> = if me == NONE { None } else { Some(s.th[me].go) };
    let theirs = s.th[to].go;
    CUR.store(to, Ordering::SeqCst);
    theirs.store(1, Ordering::SeqCst);
    futex_wake(theirs);
    if let Some(a) = mine {
        wait_go(a);
    }
}
fn wait_go(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) == 0 {
        futex_wait(a, 0);
    }
}

pub fn begin(seed: u64, strat: Strategy, budget: u64, on_hang: fn(&str) -> !) {
    unsafe {
        *G.0.get() = Some(Sched { th: vec![], rng: seed, strat, steps: 0, budget, switches: 0, on_hang, low: 1 << 20, guiding: false, guide_from: 0, guide_pos: 0 });
    }
    let id = new_thread(false);
    assert_eq!(id, 0);
    ID.with(|c| c.set(0));
    CUR.store(0, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
}
/// Lets every other thread run to its end if it can; returns the number that could not.
pub fn drain() -> usize {
    let s = g();
    for _ in 0..1_000_000 {
        if !(1..s.th.len()).any(|i| matches!(s.th[i].st, St::Run | St::Timed(..))) {
            break;
        }
        yield_other();
    }
    s.th.iter().skip(1).filter(|t| t.st != St::Done).count()
}
pub fn end() -> (u64, u64) {
    let s = g();
    let r = (s.steps, s.switches);
    ON.store(false, Ordering::SeqCst);
    ID.with(|c| c.set(NONE));
    r
}
pub fn new_thread(system: bool) -> usize {
    let s = g();
    let prio = (1 << 20) + (s.rnd() % (1 << 20));
    s.th.push(Th {
        go: Box::leak(Box::new(AtomicU32::new(0))), st: St::Run, prio, label: String::new(), system,
        timed_out: false, sleep: 0, ops: 0,
    });
    s.th.len() - 1
}
/// First thing a managed thread does.
pub fn thread_start(id: usize) {
    ID.with(|c| c.set(id));
    // the table may move while we wait: take the static reference from the creator's view
    let a: &'static AtomicU32 = GO.with(|c| c.get()).unwrap();
    wait_go(a);
}
thread_local! { static GO: Cell<Option<&'static AtomicU32>> = const { Cell::new(None) }; }
pub fn go_of(id: usize) -> &'static AtomicU32 {
    g().th[id].go
}
pub fn set_go(a: &'static AtomicU32) {
    GO.with(|c| c.set(Some(a)));
}
/// Last thing a managed thread does.
pub fn thread_exit() {
    let me = my_id();
    let s = g();
    s.th[me].st = St::Done;
    wake(done_key(me), usize::MAX);
    ID.with(|c| c.set(NONE));
    let k = s.pick(me, false);
    let theirs = s.th[k].go;
    CUR.store(k, Ordering::SeqCst);
    theirs.store(1, Ordering::SeqCst);
    futex_wake(theirs);
}
fn done_key(id: usize) -> usize {
    0x1000_0000_0000_0000 + id
}
pub fn join(id: usize) {
    while g().th[id].st != St::Done {
        block_on(done_key(id), "join");
    }
}

pub fn yield_point() {
    if managed() {
        let me = my_id();
        let k = g().pick(me, false);
        switch(me, k);
    }
}
pub fn yield_other() {
    if managed() {
        let me = my_id();
        let k = g().pick(me, true);
        switch(me, k);
    }
}
pub fn sleep() {
    if managed() {
        let n = g().rnd() % 24;
        for _ in 0..n {
            yield_other();
        }
    }
}
pub fn block_on(key: usize, what: &'static str) {
    let me = my_id();
    if what == "futex" {
        log(b'b', key);
    }
    let s = g();
    s.th[me].st = St::Blocked(key, what);
    let k = s.pick(me, false);
    switch(me, k);
}
/// Returns true if the wait timed out.
pub fn block_timed(key: usize, what: &'static str) -> bool {
    let me = my_id();
    let s = g();
    s.th[me].st = St::Timed(key, what);
    s.th[me].timed_out = false;
    let k = s.pick(me, false);
    switch(me, k);
    g().th[me].timed_out
}
pub fn wake(key: usize, mut n: usize) -> usize {
    let mut w = 0;
    let mut woken = NONE;
    for (i, t) in g().th.iter_mut().enumerate() {
        if n == 0 {
            break;
        }
        match t.st {
            St::Blocked(k, what) | St::Timed(k, what) if k == key => {
                if what == "futex" {
                    woken = i;
                }
                t.st = St::Run;
                n -= 1;
                w += 1;
            }
            _ => {}
        }
    }
    if woken != NONE {
        log(b's', woken);
    }
    w
}
pub fn set_label(s: &str) {
    if managed() {
        let me = my_id();
        g().th[me].label.clear();
        g().th[me].label.push_str(s);
    }
}
pub fn steps() -> u64 {
    g().steps
}
/// (label, what it waits for, created by the code under test) of every live thread
pub fn describe() -> Vec<(String, String, bool)> {
    g().th
        .iter()
        .filter(|t| t.st != St::Done)
        .map(|t| {
            let w = match t.st {
                St::Run => "running".to_string(),
                St::Blocked(_, w) => w.to_string(),
                St::Timed(_, w) => format!("{w}(timed)"),
                St::Done => String::new(),
            };
            (t.label.clone(), w, t.system)
        })
        .collect()
}

/// Waiting primitive used by the raw locks: managed threads hand over, others spin politely.
pub(crate) fn wait(key: usize, what: &'static str) {
    if managed() {
        block_on(key, what);
    } else {
        os_yield();
    }
}
pub(crate) fn notify(key: usize) {
    if managed() {
        wake(key, usize::MAX);
    }
}
