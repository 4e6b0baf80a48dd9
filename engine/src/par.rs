//! Worker processes sharing a task queue. A task is a harness and the list of choices that
//! leads to a pending state; a worker that receives one re-executes up to that point.
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicU32, Ordering::*};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn fork() -> c_int;
    pub fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    pub fn usleep(n: u32) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mallopt(p: c_int, v: c_int) -> c_int;
    fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

pub fn quit(c: i32) -> ! {
    unsafe { _exit(c) }
}
pub fn tune_malloc() {
    unsafe {
        mallopt(-1, i32::MAX); // M_TRIM_THRESHOLD
        mallopt(-2, 64 << 20); // M_TOP_PAD
        mallopt(-3, 1 << 30); // M_MMAP_THRESHOLD
    }
}
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

const SLOTS: usize = 1024;
const SLOT_WORDS: usize = 8192;

#[repr(C)]
pub struct Shared {
    lock: AtomicU32,
    idle: AtomicU32,
    n: AtomicU32,
    pub workers: AtomicU32,
    pub failed: AtomicU32,
    /// violations found so far outside the regions of known findings
    pub alarms: AtomicU32,
    free: [u32; SLOTS],
    order: [u32; SLOTS],
    lens: [u32; SLOTS],
    harness: [u32; SLOTS],
    data: [[u64; SLOT_WORDS]; SLOTS],
}

pub fn shmem(n: usize) -> *mut c_void {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4021, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}

pub fn shared(workers: u32) -> &'static mut Shared {
    let n = std::mem::size_of::<Shared>();
    let p = shmem(n);
    let s = unsafe { &mut *(p as *mut Shared) };
    s.workers.store(workers, SeqCst);
    for i in 0..SLOTS {
        s.free[i] = i as u32;
    }
    s
}

impl Shared {
    fn lock(&self) {
        let mut k = 0;
        while self.lock.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            k += 1;
            if k > 100 {
                unsafe { usleep(20) };
            }
        }
    }
    fn unlock(&self) {
        self.lock.store(0, SeqCst);
    }
    pub fn wants_work(&self) -> bool {
        self.n.load(Relaxed) < self.idle.load(Relaxed) * 2
    }
    pub fn push(&mut self, h: u32, d: &[u64]) -> bool {
        if d.len() > SLOT_WORDS {
            return false;
        }
        self.lock();
        let n = self.n.load(SeqCst) as usize;
        let ok = n < SLOTS;
        if ok {
            let s = self.free[SLOTS - 1 - n] as usize;
            self.order[n] = s as u32;
            self.lens[s] = d.len() as u32;
            self.harness[s] = h;
            self.data[s][..d.len()].copy_from_slice(d);
            self.n.store(n as u32 + 1, SeqCst);
        }
        self.unlock();
        ok
    }
    fn try_pop(&mut self) -> Option<(u32, Vec<u64>)> {
        self.lock();
        let n = self.n.load(SeqCst) as usize;
        let r = if n > 0 {
            // oldest first
            let s = self.order[0] as usize;
            for i in 1..n {
                self.order[i - 1] = self.order[i];
            }
            self.free[SLOTS - n] = s as u32;
            self.n.store(n as u32 - 1, SeqCst);
            Some((self.harness[s], self.data[s][..self.lens[s] as usize].to_vec()))
        } else {
            None
        };
        self.unlock();
        r
    }
    /// blocks until a task is available; None when all workers are idle
    pub fn pop(&mut self) -> Option<(u32, Vec<u64>)> {
        if let Some(t) = self.try_pop() {
            return Some(t);
        }
        self.idle.fetch_add(1, SeqCst);
        loop {
            if self.failed.load(SeqCst) != 0 {
                return None;
            }
            if self.n.load(SeqCst) > 0 {
                self.idle.fetch_sub(1, SeqCst);
                if let Some(t) = self.try_pop() {
                    return Some(t);
                }
                self.idle.fetch_add(1, SeqCst);
            }
            if self.idle.load(SeqCst) == self.workers.load(SeqCst) && self.n.load(SeqCst) == 0 {
                return None;
            }
            unsafe { usleep(200) };
        }
    }
}
