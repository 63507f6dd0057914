//! System calls made by the code under test are routed through here (the executable's own definitions of
//! the libc symbols win over libc's). Each is a scheduling point; mutations are numbered so that a snapshot
//! (process crash), a fault (refused call) or a record of what reached the disk can be taken at each.
#![allow(clippy::missing_safety_doc)]
use crate::snap::{self, FileImg, Snap};
use libc::*;
use parking_lot::sched::{self, raw6};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};

pub static ON: AtomicBool = AtomicBool::new(false);
/// the next thread created is one of the script's, not the store's
pub static USER_SPAWN: AtomicBool = AtomicBool::new(false);

pub struct EvLen(pub fn() -> usize);
impl Default for EvLen {
    fn default() -> Self {
        EvLen(zero)
    }
}
#[derive(Default)]
pub struct Ctl {
    pub dir: PathBuf,
    /// mutations seen so far
    pub muts: u64,
    /// snapshot with probability snap_p / 65536 at each mutation, until snap_max were taken
    pub snap_p: u32,
    pub snap_max: usize,
    /// restrict snapshots: a flag the driver may clear (e.g. inside calls documented as not crash safe)
    pub snap_ok: bool,
    pub rng: u64,
    /// also stop at every store into a mapped header
    pub stores: bool,
    pub snaps: Vec<(usize, String, Snap)>, // (event index, what was about to happen, contents)
    pub event_len: EvLen,
    /// fail the mutations numbered fault_at .. fault_at + fault_len with fault_errno
    pub fault_at: u64,
    pub fault_len: u64,
    pub fault_errno: i32,
    /// the first refused write still writes a part
    pub fault_short: bool,
    /// only data syncs are counted and fail
    pub fault_sync: bool,
    /// only calls on the targets of compactions are counted and fail
    pub fault_bg: bool,
    pub bg_muts: u64,
    pub faults: u64,
    pub fault_log: Vec<String>,
    /// images of files at their last data sync, by inode
    pub sync: Option<HashMap<u64, FileImg>>,
    pub syncs: u64,
    /// the directory after each change of it, when syncs are tracked
    pub dirlog: Vec<Vec<(String, u64)>>,
    pub regions: Vec<(usize, usize)>,
    busy: bool,
    last_hash: u64,
    /// count of interesting things, for evidence
    pub renames: u64,
    pub kinds: HashMap<&'static str, u64>,
}

struct Cell0(UnsafeCell<Option<Ctl>>);
unsafe impl Sync for Cell0 {}
static C: Cell0 = Cell0(UnsafeCell::new(None));

fn zero() -> usize {
    0
}
pub fn ctl() -> &'static mut Ctl {
    unsafe {
        let o = &mut *C.0.get();
        if o.is_none() {
            *o = Some(Ctl::default());
        }
        o.as_mut().unwrap()
    }
}

pub fn live() -> bool {
    ON.load(Ordering::Relaxed) && sched::managed() && !ctl().busy
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

fn rnd(c: &mut Ctl) -> u64 {
    c.rng = c.rng.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = c.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Called before a mutation takes effect; true if it must fail.
fn mutation(kind: &'static str, what: &str) -> bool {
    let c = ctl();
    c.muts += 1;
    *c.kinds.entry(kind).or_insert(0) += 1;
    if c.snap_ok && c.snaps.len() < c.snap_max && (rnd(c) & 0xffff) < c.snap_p as u64 {
        c.busy = true;
        let s = snap::take(&c.dir);
        let h = s.hash();
        let n = (c.event_len.0)();
        if h != c.last_hash || c.snaps.last().map(|x| x.0) != Some(n) {
            c.last_hash = h;
            c.snaps.push((n, format!("before {kind} {what} (mutation {})", c.muts), s));
        }
        c.busy = false;
    }
    if c.fault_bg {
        if !what.contains("compact_") {
            return false;
        }
        c.bg_muts += 1;
    }
    let n = if c.fault_bg {
        c.bg_muts
    } else if c.fault_sync {
        c.kinds.get("sync").copied().unwrap_or(0) as u64
    } else {
        c.muts
    };
    if kind != "store" && (kind == "sync" || !c.fault_sync) && c.fault_at != 0 && n >= c.fault_at && n < c.fault_at + c.fault_len {
        c.faults += 1;
        let m = c.muts;
        c.fault_log.push(format!("{kind} {what} (mutation {m})"));
        unsafe { *__errno_location() = c.fault_errno };
        return true;
    }
    false
}
/// Shall a snapshot be taken in the middle of this write?
fn torn() -> bool {
    let c = ctl();
    c.snap_ok && c.snaps.len() < c.snap_max && (rnd(c) & 0xffff) < c.snap_p as u64 / 2
}
/// Takes one more snapshot right now (end of a run).
pub fn snapshot_now(what: &str) {
    let c = ctl();
    c.busy = true;
    let s = snap::take(&c.dir);
    let n = (c.event_len.0)();
    c.snaps.push((n, what.to_string(), s));
    c.busy = false;
}

fn dir_changed() {
    let c = ctl();
    if c.sync.is_some() {
        c.busy = true;
        let n = snap::names(&c.dir);
        c.dirlog.push(n);
        c.busy = false;
    }
}
unsafe fn name_of(p: *const c_char) -> String {
    let s = CStr::from_ptr(p).to_string_lossy();
    s.rsplit('/').next().unwrap_or("").to_string()
}
fn fd_name(fd: c_int) -> String {
    let mut buf = [0u8; 512];
    let p = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { raw6(89, p.as_ptr() as usize, buf.as_mut_ptr() as usize, 512, 0, 0, 0) };
    if n <= 0 {
        return String::new();
    }
    String::from_utf8_lossy(&buf[..n as usize]).rsplit('/').next().unwrap_or("").to_string()
}

// ---- reads -----------------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    if live() {
        sched::yield_point();
    }
    ret(raw6(17, fd as usize, b as usize, n, o as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    pread64(fd, b, n, o)
}
/// a write of so few bytes happens at once or not at all (it lies within one page and one disk block)
const ATOMIC: usize = 16;
// ---- writes ----------------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if live() {
        sched::yield_point();
        if mutation("pwrite", &if ctl().fault_bg { fd_name(fd) } else { String::new() }) {
            if ctl().fault_short && ctl().faults == 1 && n > ATOMIC {
                return ret(raw6(18, fd as usize, b as usize, n / 2, o as usize, 0, 0));
            }
            return -1;
        }
        if n > ATOMIC && torn() {
            _ = raw6(18, fd as usize, b as usize, n / 2, o as usize, 0, 0);
            snapshot_now("in the middle of a pwrite");
        }
        let r = ret(raw6(18, fd as usize, b as usize, n, o as usize, 0, 0));
        sched::yield_point();
        return r;
    }
    ret(raw6(18, fd as usize, b as usize, n, o as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    pwrite64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd > 2 && live() {
        sched::yield_point();
        if mutation("write", "") {
            return -1;
        }
    }
    ret(raw6(1, fd as usize, b as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if live() {
        sched::yield_point();
        if mutation("ftruncate", &fd_name(fd)) {
            return -1;
        }
    }
    ret(raw6(77, fd as usize, n as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, o: off64_t, n: off64_t) -> c_int {
    // same visible effect (the file is at least that long) without giving up sparseness
    let mut st: stat64 = std::mem::zeroed();
    if raw6(5, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) < 0 {
        return EBADF;
    }
    if st.st_size < o + n {
        if live() {
            sched::yield_point();
            if mutation("fallocate", &fd_name(fd)) {
                return *__errno_location();
            }
        }
        raw6(77, fd as usize, (o + n) as usize, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, o: off64_t, n: off64_t) -> c_int {
    posix_fallocate(fd, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, o: off64_t, n: off64_t) -> c_int {
    if live() {
        sched::yield_point();
        if mutation("fallocate", &fd_name(fd)) {
            return -1;
        }
    }
    ret(raw6(285, fd as usize, mode as usize, o as usize, n as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, o: off64_t, n: off64_t) -> c_int {
    fallocate64(fd, mode, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    if live() {
        sched::yield_point();
        let name = name_of(p);
        // creating (or emptying) a file is a mutation; opening an existing one is not
        let exists = raw6(21, p as usize, 0, 0, 0, 0, 0) == 0;
        if (fl & O_CREAT != 0 && !exists) || fl & O_TRUNC != 0 {
            if mutation("create", &name) {
                return -1;
            }
            if !exists && ctl().sync.is_some() {
                let r = ret(raw6(2, p as usize, (fl | O_CLOEXEC) as usize, mode as usize, 0, 0, 0)) as c_int;
                if r >= 0 {
                    let mut st: stat64 = std::mem::zeroed();
                    raw6(5, r as usize, &mut st as *mut _ as usize, 0, 0, 0, 0);
                    ctl().sync.as_mut().unwrap().remove(&st.st_ino);
                    dir_changed();
                }
                return r;
            }
        }
    }
    ret(raw6(2, p as usize, (fl | O_CLOEXEC) as usize, mode as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if live() {
        sched::yield_point();
        if mutation("rename", &format!("{}->{}", name_of(a), name_of(b))) {
            return -1;
        }
        ctl().renames += 1;
        let r = ret(raw6(82, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
        dir_changed();
        sched::yield_point();
        return r;
    }
    ret(raw6(82, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if live() {
        sched::yield_point();
        if mutation("unlink", &name_of(p)) {
            return -1;
        }
        let r = ret(raw6(87, p as usize, 0, 0, 0, 0, 0)) as c_int;
        dir_changed();
        sched::yield_point();
        return r;
    }
    ret(raw6(87, p as usize, 0, 0, 0, 0, 0)) as c_int
}
// ---- syncs -----------------------------------------------------------------------------------------
unsafe fn synced(fd: c_int) {
    let c = ctl();
    c.syncs += 1;
    if c.sync.is_some() {
        c.busy = true;
        let mut st: stat64 = std::mem::zeroed();
        raw6(5, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0);
        let img = snap::image_fd(fd, st.st_size as u64);
        ctl().sync.as_mut().unwrap().insert(st.st_ino, img);
        c.busy = false;
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if live() {
        sched::yield_point();
        if mutation("sync", &fd_name(fd)) {
            return -1;
        }
        synced(fd);
        sched::yield_point();
        return 0; // the scratch directory needs no real sync
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fdatasync(fd)
}
// ---- mappings --------------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, pr: c_int, fl: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    let r = raw6(9, a as usize, n, pr as usize, fl as usize, fd as usize, o as usize);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return MAP_FAILED;
    }
    if fd >= 0 && fl & MAP_SHARED != 0 && pr & PROT_WRITE != 0 && live() {
        let c = ctl();
        let len = (n + 4095) & !4095;
        c.regions.push((r as usize, len));
        if c.stores {
            raw6(10, r as usize, len, PROT_READ as usize, 0, 0, 0);
        }
        sched::yield_point();
    }
    r as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, pr: c_int, fl: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    mmap64(a, n, pr, fl, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: size_t) -> c_int {
    if ON.load(Ordering::Relaxed) && sched::managed() {
        ctl().regions.retain(|r| r.0 != a as usize);
    }
    ret(raw6(11, a as usize, n, 0, 0, 0, 0)) as c_int
}
// ---- threads, waiting ------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::managed() {
        sched::yield_other();
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if sched::managed() {
        sched::sleep();
        return 0;
    }
    ret(raw6(35, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if sched::managed() {
        sched::sleep();
        return 0;
    }
    -(raw6(230, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == 202 && sched::managed() {
        let op = (b as i32) & 0x7f;
        match op {
            0 | 9 => {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                let w = &*(a as *const std::sync::atomic::AtomicU32);
                sched::yield_point();
                if w.load(Ordering::SeqCst) != c as u32 {
                    *__errno_location() = EAGAIN;
                    return -1;
                }
                if d != 0 {
                    if sched::block_timed(a, "futex") {
                        *__errno_location() = ETIMEDOUT;
                        return -1;
                    }
                } else {
                    sched::block_on(a, "futex");
                }
                return 0;
            }
            1 | 10 => {
                let w = sched::wake(a, c);
                sched::yield_point();
                return w as c_long;
            }
            _ => {}
        }
    }
    ret(raw6(n as usize, a, b, c, d, e, f)) as c_long
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start {
    f: StartFn,
    arg: *mut c_void,
    id: usize,
    go: &'static std::sync::atomic::AtomicU32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    sched::set_go(s.go);
    sched::thread_start(s.id);
    let r = (s.f)(s.arg);
    sched::thread_exit();
    r
}
static mut JOIN: Vec<(usize, usize)> = Vec::new();
type Pc = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;
type Pj = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, at: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let real: Pc = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_create".as_ptr()));
    if !sched::managed() {
        return real(t, at, f, arg);
    }
    let id = sched::new_thread(!USER_SPAWN.swap(false, Ordering::SeqCst));
    let s = Box::new(Start { f, arg, id, go: sched::go_of(id) });
    let r = real(t, at, trampoline, Box::into_raw(s) as *mut c_void);
    assert_eq!(r, 0, "pthread_create");
    #[allow(static_mut_refs)]
    JOIN.push((*t as usize, id));
    sched::yield_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    let real: Pj = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_join".as_ptr()));
    if sched::managed() {
        #[allow(static_mut_refs)]
        let id = JOIN.iter().rev().find(|x| x.0 == t as usize).map(|x| x.1);
        if let Some(id) = id {
            sched::join(id);
        }
    }
    real(t, r)
}

// ---- stores into mapped headers --------------------------------------------------------------------
pub static mut FATAL: Option<fn(&str) -> !> = None;
static mut STEPPING: (usize, usize) = (0, 0);

unsafe extern "C" fn on_segv(sig: c_int, info: *mut siginfo_t, ctx: *mut c_void) {
    let addr = (*info).si_addr() as usize;
    let uc = ctx as *mut ucontext_t;
    if sig == SIGSEGV && sched::managed() {
        let c = ctl();
        if let Some(&(a, n)) = c.regions.iter().find(|r| addr >= r.0 && addr < r.0 + r.1) {
            if !c.stores {
                // no longer of interest
                raw6(10, a, n, (PROT_READ | PROT_WRITE) as usize, 0, 0, 0);
                return;
            }
            if STEPPING.1 == 0 {
                if live() {
                    sched::yield_point();
                    mutation("store", "");
                }
                raw6(10, a, n, (PROT_READ | PROT_WRITE) as usize, 0, 0, 0);
                STEPPING = (a, n);
                (*uc).uc_mcontext.gregs[REG_EFL as usize] |= 0x100;
                return;
            }
        }
    }
    if let Some(f) = FATAL {
        f(if sig == SIGBUS { "sigbus" } else if sig == SIGABRT { "abort" } else { "sigsegv" });
    }
    raw6(231, 99, 0, 0, 0, 0, 0);
}
unsafe extern "C" fn on_trap(_: c_int, _: *mut siginfo_t, ctx: *mut c_void) {
    let uc = ctx as *mut ucontext_t;
    (*uc).uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
    let (a, n) = STEPPING;
    if n != 0 {
        raw6(10, a, n, PROT_READ as usize, 0, 0, 0);
        STEPPING = (0, 0);
    }
}
pub fn install(fatal: fn(&str) -> !) {
    unsafe {
        FATAL = Some(fatal);
        for (s, h) in [
            (SIGSEGV, on_segv as *const () as usize),
            (SIGBUS, on_segv as *const () as usize),
            (SIGABRT, on_segv as *const () as usize),
            (SIGTRAP, on_trap as *const () as usize),
        ] {
            let mut sa: sigaction = std::mem::zeroed();
            sa.sa_sigaction = h;
            sa.sa_flags = SA_SIGINFO | SA_NODEFER;
            sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
/// The disk as a power loss would leave it: names of `names` with the contents of their last data sync.
pub fn synced_dir(names: &[(String, u64)]) -> Snap {
    let c = ctl();
    let m = c.sync.as_ref().unwrap();
    Snap {
        files: names
            .iter()
            .map(|(n, ino)| (n.clone(), m.get(ino).cloned().unwrap_or_default()))
            .collect(),
    }
}
