mod h01;
mod h02;
mod world;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
pub use vcommon::*;

/// seconds by which the time that passes is ahead of the real one
pub static AHEAD: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    if clk == libc::CLOCK_MONOTONIC && r == 0 { (*ts).tv_sec += AHEAD.load(SeqCst) }
    r
}
/// counts what is allocated and not yet freed
pub struct Count;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;

fn main() {
    if std::env::var("LOUD").is_err() { quiet_panics() }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "h01" => h01::main(&a[2], &a[3], &a[4]),
        "h02" => h02::main(&a[2], &a[3], &a[4]),
        x => panic!("unknown command {x}"),
    }
}
