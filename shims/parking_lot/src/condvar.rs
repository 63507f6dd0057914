//! Condition variable over the scheduler.
use crate::mutex::MutexGuard;
use crate::sched;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

pub struct Condvar {
    seq: AtomicUsize,
}

impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { seq: AtomicUsize::new(0) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        self.seq.fetch_add(1, SeqCst);
        sched::managed() && sched::wake(self.key(), 1) > 0
    }
    pub fn notify_all(&self) -> usize {
        self.seq.fetch_add(1, SeqCst);
        if sched::managed() { sched::wake(self.key(), usize::MAX) } else { 0 }
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let s0 = self.seq.load(SeqCst);
        MutexGuard::unlocked(guard, || {
            while self.seq.load(SeqCst) == s0 {
                sched::wait(self.key(), "condvar");
            }
        });
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        let s0 = self.seq.load(SeqCst);
        let mut to = false;
        MutexGuard::unlocked(guard, || {
            while self.seq.load(SeqCst) == s0 && !to {
                if sched::managed() {
                    to = sched::block_timed(self.key(), "condvar");
                } else {
                    to = Instant::now() >= t;
                }
            }
        });
        WaitTimeoutResult(to)
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        self.wait_until(guard, Instant::now() + d)
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *guard) {
            self.wait(guard);
        }
    }
}
