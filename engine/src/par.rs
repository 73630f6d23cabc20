//! Process-level work sharing. Every task runs in its own process; a process with pending
//! paths forks when a core is free and hands half of its pending states to the child.
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn alarm(s: u32) -> u32;
}

#[repr(C)]
pub struct Shared { pub slots: AtomicI64, pub stop_all: AtomicU32, pub parts: AtomicU32, pub stop: [AtomicU32; 4096], pub started: [AtomicU32; 4096] }

pub fn shared() -> &'static Shared {
    unsafe {
        let n = std::mem::size_of::<Shared>();
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0); // MAP_SHARED | MAP_ANONYMOUS, zeroed
        assert!(p as isize != -1);
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER: all descendants are reaped by the master
        &*(p as *const Shared)
    }
}
impl Shared {
    pub fn try_slot(&self) -> bool {
        let mut v = self.slots.load(SeqCst);
        while v > 0 { match self.slots.compare_exchange(v, v - 1, SeqCst, SeqCst) { Ok(_) => return true, Err(x) => v = x } }
        false
    }
    pub fn release(&self) { self.slots.fetch_add(1, SeqCst); }
}
pub fn do_fork() -> i32 { unsafe { fork() } }
/// a worker stuck in one solver call is ended (its task then counts as not finished)
pub fn end_after(secs: f64) { unsafe { alarm(secs.max(1.0) as u32); } }
pub fn exit(c: i32) -> ! { unsafe { _exit(c) } }
pub fn pid() -> i32 { unsafe { getpid() } }
/// die with the parent process tree: children are killed if the master goes away
pub fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }
/// (pid, exit status) of a finished descendant; None when none is left
pub fn reap(block: bool) -> Option<(i32, i32)> {
    let mut st = 0;
    let r = unsafe { waitpid(-1, &mut st, if block { 0 } else { 1 }) };
    if r > 0 { Some((r, st)) } else { None }
}
