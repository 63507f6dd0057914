//! Reader-writer lock with the blocking rules of parking_lot's own one: a writer first takes the writer
//! bit (which keeps new readers out, except recursive ones) and then waits for the readers to leave;
//! an upgradable reader excludes writers and other upgradable readers but not readers.
use crate::sched;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const W: usize = 1;
const U: usize = 2;
const R: usize = 4;

pub struct RawRwLock {
    st: AtomicUsize,
}

impl RawRwLock {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn step(&self, f: impl Fn(usize) -> Option<usize>) -> bool {
        self.st.fetch_update(SeqCst, SeqCst, f).is_ok()
    }
    fn try_r(&self, recursive: bool) -> bool {
        self.step(|s| {
            if s & W != 0 && (!recursive || s / R == 0) { None } else { Some(s + R) }
        })
    }
    fn try_u(&self) -> bool {
        self.step(|s| if s & (W | U) != 0 { None } else { Some(s + R + U) })
    }
    fn wait_readers(&self) {
        while self.st.load(SeqCst) / R != 0 {
            sched::wait(self.key(), "rwlock-write(readers)");
        }
    }
    fn dec(&self, n: usize) {
        self.st.fetch_sub(n, SeqCst);
        sched::notify(self.key());
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock { st: AtomicUsize::new(0) };
    type GuardMarker = crate::GuardMarker;

    fn lock_shared(&self) {
        sched::yield_point();
        while !self.try_r(false) {
            sched::wait(self.key(), "rwlock-read");
        }
        sched::log(b'r', self.key());
    }
    fn try_lock_shared(&self) -> bool {
        sched::yield_point();
        let ok = self.try_r(false);
        if ok {
            sched::log(b'T', self.key());
        }
        ok
    }
    unsafe fn unlock_shared(&self) {
        self.dec(R);
        sched::log(b'x', self.key());
        sched::yield_point();
    }
    fn lock_exclusive(&self) {
        sched::yield_point();
        while !self.step(|s| if s & (W | U) != 0 { None } else { Some(s | W) }) {
            sched::wait(self.key(), "rwlock-write");
        }
        sched::log(b'c', self.key());
        self.wait_readers();
        sched::log(b'w', self.key());
    }
    fn try_lock_exclusive(&self) -> bool {
        sched::yield_point();
        let ok = self.step(|s| if s == 0 { Some(W) } else { None });
        if ok {
            sched::log(b'X', self.key());
        }
        ok
    }
    unsafe fn unlock_exclusive(&self) {
        self.dec(W);
        sched::log(b'y', self.key());
        sched::yield_point();
    }
    fn is_locked(&self) -> bool {
        self.st.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.st.load(SeqCst) & W != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.st.fetch_add(R, SeqCst);
        self.dec(W);
        sched::log(b'd', self.key());
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        sched::yield_point();
        while !self.try_r(true) {
            sched::wait(self.key(), "rwlock-read(recursive)");
        }
        sched::log(b'R', self.key());
    }
    fn try_lock_shared_recursive(&self) -> bool {
        sched::yield_point();
        let ok = self.try_r(true);
        if ok {
            sched::log(b'T', self.key());
        }
        ok
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        sched::yield_point();
        while !self.try_u() {
            sched::wait(self.key(), "rwlock-upgradable");
        }
        sched::log(b'u', self.key());
    }
    fn try_lock_upgradable(&self) -> bool {
        sched::yield_point();
        let ok = self.try_u();
        if ok {
            sched::log(b'V', self.key());
        }
        ok
    }
    unsafe fn unlock_upgradable(&self) {
        self.dec(R + U);
        sched::log(b'z', self.key());
        sched::yield_point();
    }
    unsafe fn upgrade(&self) {
        sched::yield_point();
        // give up the upgradable read, take the writer bit in one step, then wait for the readers
        let ok = self.step(|s| Some((s - R - U) | W));
        debug_assert!(ok);
        sched::log(b'g', self.key());
        self.wait_readers();
        sched::log(b'w', self.key());
    }
    unsafe fn try_upgrade(&self) -> bool {
        sched::yield_point();
        let ok = self.step(|s| if s / R == 1 { Some(W) } else { None });
        if ok {
            sched::log(b'G', self.key());
        }
        ok
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.dec(U);
        sched::log(b'e', self.key());
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.st.fetch_add(R + U, SeqCst);
        self.dec(W);
        sched::log(b'f', self.key());
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
fn timed(key: usize, t: Instant, f: impl Fn() -> bool) -> bool {
    loop {
        if f() {
            return true;
        }
        if sched::managed() {
            if sched::block_timed(key, "rwlock") {
                return f();
            }
        } else if Instant::now() >= t {
            return false;
        }
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        timed(self.key(), Instant::now() + d, || lock_api::RawRwLock::try_lock_shared(self))
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        timed(self.key(), t, || lock_api::RawRwLock::try_lock_shared(self))
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        timed(self.key(), Instant::now() + d, || lock_api::RawRwLock::try_lock_exclusive(self))
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        timed(self.key(), t, || lock_api::RawRwLock::try_lock_exclusive(self))
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, d: Duration) -> bool {
        timed(self.key(), Instant::now() + d, || lock_api::RawRwLockRecursive::try_lock_shared_recursive(self))
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        timed(self.key(), t, || lock_api::RawRwLockRecursive::try_lock_shared_recursive(self))
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, d: Duration) -> bool {
        timed(self.key(), Instant::now() + d, || lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }
    fn try_lock_upgradable_until(&self, t: Instant) -> bool {
        timed(self.key(), t, || lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }
    unsafe fn try_upgrade_for(&self, d: Duration) -> bool {
        timed(self.key(), Instant::now() + d, || lock_api::RawRwLockUpgrade::try_upgrade(self))
    }
    unsafe fn try_upgrade_until(&self, t: Instant) -> bool {
        timed(self.key(), t, || lock_api::RawRwLockUpgrade::try_upgrade(self))
    }
}
