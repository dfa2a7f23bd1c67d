//! The file operations of this process, so that it can stop dead at any one of them.
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

/// operations left before the process stops; below zero it never does
pub static LEFT: AtomicI64 = AtomicI64::new(-1);
/// of a write that is cut short, this many 256ths are written
pub static PART: AtomicI64 = AtomicI64::new(0);
/// operations seen
pub static SEEN: AtomicI64 = AtomicI64::new(0);
/// the wall clock in milliseconds; below zero it is the real one
pub static CLOCK: AtomicI64 = AtomicI64::new(-1);

fn stop_now() -> bool {
    SEEN.fetch_add(1, SeqCst);
    if LEFT.load(SeqCst) < 0 {
        return false;
    }
    LEFT.fetch_sub(1, SeqCst) == 0
}
unsafe fn gone() -> ! {
    libc::syscall(libc::SYS_exit_group, 42);
    loop {}
}
unsafe fn errno(r: libc::c_long) -> libc::c_long {
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fd > 2 && stop_now() {
        let k = (n as i64 * PART.load(SeqCst) / 256) as usize;
        if k > 0 {
            libc::syscall(libc::SYS_write, fd, buf, k);
        }
        gone()
    }
    errno(libc::syscall(libc::SYS_write, fd, buf, n)) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
    if stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_unlink, path)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: libc::c_int, path: *const libc::c_char, f: libc::c_int) -> libc::c_int {
    if stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_unlinkat, d, path, f)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
    if stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_rename, a, b)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const libc::c_char, m: libc::mode_t) -> libc::c_int {
    if stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_mkdir, a, m)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, n: libc::off64_t) -> libc::c_int {
    if stop_now() {
        gone()
    }
    errno(libc::syscall(libc::SYS_ftruncate, fd, n)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let t = CLOCK.load(SeqCst);
    if clk == libc::CLOCK_REALTIME && t >= 0 {
        // it goes on by itself, a tenth of a millisecond a look
        let k = TICKS.fetch_add(1, SeqCst);
        let ms = t + k / 10;
        (*ts).tv_sec = ms / 1000;
        (*ts).tv_nsec = (ms % 1000) * 1_000_000 + (k % 10) * 100_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
pub static TICKS: AtomicI64 = AtomicI64::new(0);

/// Runs f in a child that stops at its k-th file operation (k below zero: never); what f wrote, or none if it stopped or hung.
/// The calling process must have no other threads.
pub enum Ended {
    Done(Vec<u8>),
    Stopped,
    Hung,
}
pub fn child(k: i64, part: i64, f: impl FnOnce() -> Vec<u8>) -> Ended {
    unsafe {
        let mut p = [0i32; 2];
        libc::pipe(p.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::alarm(5);
            PART.store(part, SeqCst);
            LEFT.store(k, SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| b"\"panic\"".to_vec());
            LEFT.store(-1, SeqCst);
            let mut at = 0;
            while at < r.len() {
                let n = libc::syscall(libc::SYS_write, p[1], r[at..].as_ptr(), r.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::syscall(libc::SYS_exit_group, 0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            Ended::Hung
        } else if libc::WEXITSTATUS(st) == 42 {
            Ended::Stopped
        } else {
            Ended::Done(out)
        }
    }
}
