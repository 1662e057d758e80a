//! Native runtime of the sequential harnesses: runs one harness on the concrete inputs found by the solver.
//! usage: vreplay HARNESS INPUT...      exit 0: finished, 42: assertion failed, 43: panicked, 44: assumption violated
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering};
use vharness as _;

include!(env!("VP_TABLE"));

struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BASE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GA: A = A;

static mut INPUTS: Vec<u64> = Vec::new();
static mut POS: usize = 0;
static mut OUT: [u64; 64] = [0; 64];

#[no_mangle]
extern "C-unwind" fn vp_any(_: u32) -> u64 {
    unsafe {
        POS += 1;
        // inputs which the solver left unconstrained
        INPUTS.get(POS - 1).copied().unwrap_or(0)
    }
}
#[no_mangle]
extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        println!("ASSUME");
        std::process::exit(44)
    }
}
#[no_mangle]
extern "C-unwind" fn vp_assert(c: bool, id: u32) {
    if !c {
        println!("ASSERT {id}");
        std::process::exit(42)
    }
}
#[no_mangle]
extern "C-unwind" fn vp_reach(id: u32) {
    println!("REACH {id}");
}
#[no_mangle]
extern "C-unwind" fn vp_panic() {
    panic!("user panic")
}
#[no_mangle]
extern "C-unwind" fn vp_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32 {
    catch_unwind(AssertUnwindSafe(|| f(data))).is_err() as u32
}
#[no_mangle]
extern "C-unwind" fn vp_out(s: u64, v: u64) {
    unsafe { OUT[s as usize] = v }
}
#[no_mangle]
extern "C-unwind" fn vp_get(s: u64) -> u64 {
    unsafe { OUT[s as usize] }
}
#[no_mangle]
extern "C-unwind" fn vp_heap_live() -> u64 {
    (LIVE.load(Ordering::Relaxed) - BASE.load(Ordering::Relaxed)) as u64
}
#[no_mangle]
extern "C-unwind" fn vp_concrete(x: u64) -> u64 {
    x
}

fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().unwrap();
    unsafe { INPUTS = a.map(|x| x.parse().unwrap()).collect() };
    std::panic::set_hook(Box::new(|_| {}));
    println!("START");
    BASE.store(LIVE.load(Ordering::Relaxed), Ordering::Relaxed);
    let r = catch_unwind(|| unsafe { dispatch(&name) });
    match r {
        Ok(()) => println!("DONE"),
        Err(_) => {
            println!("PANIC");
            std::process::exit(43)
        }
    }
}
