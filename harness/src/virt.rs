//! Per-thread virtual monotonic clock and seeded `getrandom`, so that a simulated case is a
//! pure function of its seed: `std::time::Instant` follows tokio's paused clock and the keys
//! of std hash maps come from the case seed.
use std::cell::Cell;

thread_local! {
    static HSEED: Cell<u64> = const { Cell::new(0) };
    static VIRT: Cell<bool> = const { Cell::new(false) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
}

pub fn set_hash_seed(s: u64) {
    HSEED.with(|c| c.set(s));
}

pub fn set_virtual_clock(on: bool) {
    VIRT.with(|c| c.set(on));
}

#[cfg(feature = "virt")]
mod imp {
    use super::*;
    thread_local! {
        static START: Cell<Option<std::time::Instant>> = const { Cell::new(None) };
    }

    /// # Safety
    /// Same contract as getrandom(2).
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
        let s = HSEED.try_with(|c| c.get()).unwrap_or(0);
        if s == 0 {
            return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize;
        }
        let mut x = s;
        for i in 0..len {
            x = crate::prng::mix(x);
            *buf.add(i) = x as u8;
        }
        let _ = HSEED.try_with(|c| c.set(crate::prng::mix(x) | 1));
        len as isize
    }

    /// # Safety
    /// Same contract as clock_gettime(2).
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
        let virt = VIRT.try_with(|c| c.get()).unwrap_or(false)
            && !GUARD.try_with(|c| c.get()).unwrap_or(true);
        if virt && clk == libc::CLOCK_MONOTONIC {
            GUARD.with(|c| c.set(true));
            let now = tokio::time::Instant::now().into_std();
            let start = START.with(|s| match s.get() {
                Some(x) => x,
                None => {
                    s.set(Some(now));
                    now
                }
            });
            let d = now.saturating_duration_since(start);
            (*ts).tv_sec = 1_000_000 + d.as_secs() as i64;
            (*ts).tv_nsec = d.subsec_nanos() as i64;
            GUARD.with(|c| c.set(false));
            return 0;
        }
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32
    }
}
