// files of crates that cannot be built here as a whole
#[path = "/repo/core/cli/src/error.rs"]
#[allow(dead_code)]
mod error;
#[path = "/repo/common/logger/src/date_fixed_roller.rs"]
#[allow(dead_code)]
mod roller;
#[path = "/repo/core/cli/src/utils.rs"]
#[allow(dead_code)]
mod utils;
#[allow(unused_imports)]
pub use error::*;

mod i01;
mod i02;
use std::sync::atomic::{AtomicI64, Ordering};
use vcommon::*;

/// The wall clock of this process, in seconds; below zero it is the real one.
pub static CLOCK: AtomicI64 = AtomicI64::new(-1);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let t = CLOCK.load(Ordering::SeqCst);
    if clk == libc::CLOCK_REALTIME && t >= 0 {
        (*ts).tv_sec = t;
        (*ts).tv_nsec = 123_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

fn main() {
    if std::env::var("LOUD").is_err() {
        quiet_panics();
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "i01" => i01::run(&a[2], &a[3], &a[4]),
        "i01-child" => i01::child(&a[2]),
        "i02" => i02::run(&a[2], &a[3], &a[4]),
        "i02-child" => i02::child(&a[2], &a[3], &a[4]),
        x => panic!("unknown command {x}"),
    }
}
