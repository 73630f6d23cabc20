//! Native replay: runs one harness against the real code with concrete input values.
//!
//! usage: replay HARNESS a,b,c  (the input values, whitespace separated, on stdin)
//! Prints `LOG n` lines for everything the harness logs, and one `RESULT ...` line:
//! `ok`, `check ID`, `assume` (the values do not satisfy an assumption), `tape` (too few values),
//! `leak N`, `memory ...`; a panic prints `PANIC ...` and aborts.
//! With REPLAY_FREEZE set, memory that the harness freezes is protected against writing.
//! With REPLAY_PLAIN set the system allocator is used as is (for valgrind).
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering::SeqCst};

#[path = "../big.rs"]
#[allow(dead_code)]
mod big;

struct A;
static MODE: AtomicU8 = AtomicU8::new(0);
#[allow(static_mut_refs)]
fn live() -> &'static AtomicI64 { unsafe { &ARENA.live } }
extern "C" { fn getenv(p: *const u8) -> *const u8; fn _exit(c: i32) -> !; fn write(fd: i32, p: *const u8, n: usize) -> isize; }
fn plain() -> bool {
    match MODE.load(SeqCst) {
        1 => true,
        2 => false,
        _ => { let p = unsafe { !getenv(b"REPLAY_PLAIN\0".as_ptr()).is_null() }; MODE.store(if p { 1 } else { 2 }, SeqCst); p }
    }
}
fn die(s: &[u8]) -> ! { unsafe { write(1, s.as_ptr(), s.len()); _exit(12) } }
// With REPLAY_FREEZE the harness allocates from an arena of its own. Freezing makes the arena read-only (a write
// ends the process) and continues in a second one; the program's own data section is compared at the end.
#[repr(C)]
struct Arena { on: bool, lo: [usize; 2], cur: usize, at: usize, frozen: bool, copy: usize, live: AtomicI64 }
static mut ARENA: Arena = Arena { on: false, lo: [0; 2], cur: 0, at: 0, frozen: false, copy: 0, live: AtomicI64::new(0) };
const ARENA_SIZE: usize = 1 << 30;
extern "C" { fn mmap(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; fn mprotect(p: *mut u8, n: usize, prot: i32) -> i32; }
#[allow(static_mut_refs)]
unsafe fn arena_start() {
    for k in 0..2 { ARENA.lo[k] = mmap(std::ptr::null_mut(), ARENA_SIZE, 3, 0x4022, -1, 0) as usize; }
    ARENA.at = ARENA.lo[0];
    ARENA.on = true;
}
fn inside(u: *mut u8) -> bool { unsafe { let a = u as usize; ARENA.lo[0] != 0 && (a >= ARENA.lo[0] && a < ARENA.lo[0] + ARENA_SIZE || a >= ARENA.lo[1] && a < ARENA.lo[1] + ARENA_SIZE) } }
extern "C" { static __data_start: u8; static _end: u8; }
#[allow(static_mut_refs)]
unsafe fn data() -> (*const u8, usize, usize, usize) {
    let (lo, hi) = (&__data_start as *const u8 as usize, &_end as *const u8 as usize);
    let a = &ARENA as *const Arena as usize;
    (lo as *const u8, hi - lo, a - lo, a - lo + std::mem::size_of::<Arena>())
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn sym_freeze(on: bool) {
    if !ARENA.on { return; }
    let (p, n, x, y) = data();
    if on {
        if ARENA.copy == 0 { ARENA.copy = mmap(std::ptr::null_mut(), n, 3, 0x22, -1, 0) as usize; }
        std::ptr::copy_nonoverlapping(p, ARENA.copy as *mut u8, n);
        if mprotect(ARENA.lo[0] as *mut u8, ARENA_SIZE, 1) != 0 { die(b"RESULT ok\n"); }
        ARENA.cur = 1;
        if ARENA.at >= ARENA.lo[0] && ARENA.at <= ARENA.lo[0] + ARENA_SIZE { ARENA.at = ARENA.lo[1]; }
    } else {
        mprotect(ARENA.lo[0] as *mut u8, ARENA_SIZE, 3);
        let c = ARENA.copy as *const u8;
        for i in 0..n { if (i < x || i >= y) && std::ptr::read_volatile(p.add(i)) != *c.add(i) { die(b"RESULT shared memory outside the heap was written\n"); } }
    }
}
const GUARD: usize = 64;
const MAGIC: u64 = 0x5ca1ab1e_0ddba11;
// layout: [pad .. | size, align, magic, magic | user data | 64 guard bytes 0xA5]
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if plain() { return System.alloc(l); }
        let al = l.align().max(64);
        let p = if ARENA.on {
            let p = (ARENA.at + al - 1) / al * al;
            ARENA.at = p + al + l.size() + GUARD;
            if ARENA.at > ARENA.lo[ARENA.cur] + ARENA_SIZE { return std::ptr::null_mut(); }
            p as *mut u8
        } else { System.alloc(Layout::from_size_align_unchecked(al + l.size() + GUARD, al)) };
        if p.is_null() { return p; }
        live().fetch_add(1, SeqCst);
        let u = p.add(al);
        let h = u as *mut u64;
        *h.sub(4) = l.size() as u64;
        *h.sub(3) = l.align() as u64;
        *h.sub(2) = MAGIC;
        *h.sub(1) = MAGIC;
        std::ptr::write_bytes(u, 0x5D, l.size());
        std::ptr::write_bytes(u.add(l.size()), 0xA5, GUARD);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        if plain() { return System.dealloc(u, l); }
        let h = u as *mut u64;
        if *h.sub(2) != MAGIC || *h.sub(1) != MAGIC { die(b"RESULT memory free of something not allocated, or freed before, or overwritten in front\n"); }
        if *h.sub(4) != l.size() as u64 || *h.sub(3) != l.align() as u64 { die(b"RESULT memory freed with a different layout\n"); }
        for i in 0..GUARD { if *u.add(l.size() + i) != 0xA5 { die(b"RESULT memory written past the end of an allocation\n"); } }
        live().fetch_sub(1, SeqCst);
        *h.sub(2) = 0;
        std::ptr::write_bytes(u, 0xDD, l.size());
        // small blocks stay quarantined for the life of the process
        if l.size() > 1 << 20 && !inside(u) { let al = l.align().max(64); System.dealloc(u.sub(al), Layout::from_size_align_unchecked(al + l.size() + GUARD, al)); }
    }
}
#[global_allocator]
static G: A = A;

static mut TAPE: Vec<u64> = Vec::new();
static mut POS: usize = 0;
static mut QUIET: bool = false;
fn result(s: &str) { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "RESULT {}", s); let _ = o.flush(); }
#[allow(static_mut_refs)]
fn next() -> u64 { unsafe { if POS >= TAPE.len() { result("tape"); _exit(13) } let v = TAPE[POS]; POS += 1; v } }
#[no_mangle] extern "C" fn sym_u64() -> u64 { next() }
#[no_mangle] extern "C" fn sym_u32() -> u32 { next() as u32 }
#[no_mangle] extern "C" fn sym_u16() -> u16 { next() as u16 }
#[no_mangle] extern "C" fn sym_u8() -> u8 { next() as u8 }
#[no_mangle] unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) { for i in 0..n { *p.add(i) = next() as u8; } }
#[no_mangle] extern "C" fn sym_assume(c: bool) { if !c { result("assume"); unsafe { _exit(11) } } }
#[no_mangle] extern "C" fn sym_check(c: bool, id: u32) { if !c { sym_fail(id) } }
#[no_mangle] extern "C" fn sym_fail(id: u32) -> ! { result(&format!("check {}", id)); unsafe { _exit(10) } }
#[no_mangle] extern "C" fn sym_cover(_: u32) {}
#[no_mangle] extern "C" fn sym_pick(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sym_log(v: u64) { if unsafe { QUIET } { return; } let o = std::io::stdout(); let _ = writeln!(o.lock(), "LOG {}", v); }
#[no_mangle] extern "C" fn sym_heap() -> u64 { live().load(SeqCst) as u64 }

#[no_mangle] extern "C" fn sym_linear() {}
#[no_mangle] extern "C" fn sym_bits(_: u32) -> u64 { next() }
#[no_mangle] extern "C" fn sym_scaled_lt(a: u64, b: u64, p2: i32, p10: i32) -> bool { big::scaled_lt(a, b, p2, p10) }
#[no_mangle] extern "C" fn sym_float_ok(bits: u64, w: u32, m: u64, e: i32, neg: bool) -> bool { big::float_ok(bits, w, m, e, neg) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse::<i128>().unwrap() as u64).collect();
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    unsafe { TAPE = s.split_whitespace().map(|x| x.parse().unwrap()).collect(); }
    let f = match harness::TABLE.iter().find(|x| x.0 == a[1]) { Some(f) => f.1, None => { eprintln!("no such harness"); std::process::exit(2) } };
    std::panic::set_hook(Box::new(|i| { let o = std::io::stdout(); let _ = writeln!(o.lock(), "PANIC {}", i.to_string().replace('\n', " ")); }));
    let _ = writeln!(std::io::stdout().lock(), "START");
    drop(s);
    let before = live().load(SeqCst);
    if std::env::var_os("REPLAY_FREEZE").is_some() { unsafe { arena_start() } }
    f(g(0), g(1), g(2));
    let mut lost = live().load(SeqCst) - before;
    if lost > 0 && !unsafe { ARENA.on } {
        // what is set up once, and kept, is no leak: the same again must not take more
        let before = live().load(SeqCst);
        unsafe { POS = 0; QUIET = true; }
        f(g(0), g(1), g(2));
        lost = live().load(SeqCst) - before;
    }
    if lost > 0 && !unsafe { ARENA.on } { result(&format!("leak {}", lost)); unsafe { _exit(14) } }
    result("ok");
}
