//! Makes the operating system's generator visible: the getrandom crate calls libc's `syscall`,
//! which this definition replaces within the harness binary.  While a tape is installed on a
//! thread, getrandom(2) on that thread is answered from the tape; everything else goes to the
//! kernel unchanged.

use crate::tape::Tape;
use rand_core::RngCore;
use std::cell::RefCell;

thread_local! {
    static TAPE: RefCell<Option<Tape>> = const { RefCell::new(None) };
}

const SYS_GETRANDOM: i64 = 318;

/// Runs f while getrandom is answered from the tape.
pub fn with_tape<R>(t: &Tape, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            TAPE.with(|c| *c.borrow_mut() = None);
        }
    }
    TAPE.with(|c| *c.borrow_mut() = Some(t.clone()));
    let _reset = Reset;
    f()
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// # Safety
/// as syscall(2)
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if num == SYS_GETRANDOM && b > 0 {
        let tape = TAPE.try_with(|t| t.try_borrow().ok().and_then(|t| t.clone())).ok().flatten();
        if let Some(mut t) = tape {
            let buf = std::slice::from_raw_parts_mut(a as *mut u8, b);
            t.fill_bytes(buf);
            return b as i64;
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
