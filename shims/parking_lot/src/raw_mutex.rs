//! Mutex whose every operation is a scheduling point.
use crate::sched;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub struct RawMutex {
    locked: AtomicBool,
}

impl RawMutex {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn try_take(&self) -> bool {
        self.locked.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst).is_ok()
    }
}

unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex { locked: AtomicBool::new(false) };
    type GuardMarker = crate::GuardMarker;

    fn lock(&self) {
        sched::yield_point();
        while !self.try_take() {
            sched::wait(self.key(), "mutex");
        }
        sched::log(b'm', self.key());
    }
    fn try_lock(&self) -> bool {
        sched::yield_point();
        let ok = self.try_take();
        if ok {
            sched::log(b'M', self.key());
        }
        ok
    }
    unsafe fn unlock(&self) {
        self.locked.store(false, Ordering::SeqCst);
        sched::notify(self.key());
        sched::log(b'n', self.key());
        sched::yield_point();
    }
    fn is_locked(&self) -> bool {
        self.locked.load(Ordering::SeqCst)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_until(&self, t: Instant) -> bool {
        loop {
            if lock_api::RawMutex::try_lock(self) {
                return true;
            }
            if sched::managed() {
                if sched::block_timed(self.key(), "mutex") {
                    return self.try_take();
                }
            } else if Instant::now() >= t {
                return false;
            }
        }
    }
    fn try_lock_for(&self, d: Duration) -> bool {
        lock_api::RawMutexTimed::try_lock_until(self, Instant::now() + d)
    }
}
