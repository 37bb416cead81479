//! Death at a chosen point of persistence: the process kills itself instead of making the N-th write to a database log
//! (write() of this program is this one; the databases are linked into it).
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Once;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn getpid() -> c_int;
}
const SYS_WRITE: c_long = 1;

static LEFT: AtomicI64 = AtomicI64::new(-1);
static START: Once = Once::new();

/// Dies at the n-th write from now (n > 0).
pub fn die_at(n: i64) {
    LEFT.store(n, Ordering::SeqCst);
}

fn log(fd: c_int) -> bool {
    std::fs::read_link(format!("/proc/self/fd/{}", fd)).map(|p| p.to_string_lossy().ends_with(".log")).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd > 2 {
        START.call_once(|| {
            if let Some(n) = std::env::var("VERIF_DIE").ok().and_then(|n| n.parse().ok()) {
                die_at(n);
            }
        });
        if LEFT.load(Ordering::SeqCst) > 0 && log(fd) && LEFT.fetch_sub(1, Ordering::SeqCst) == 1 {
            kill(getpid(), 9);
            loop {}
        }
    }
    syscall(SYS_WRITE, fd, buf, n) as isize
}
