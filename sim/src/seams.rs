//! The clock and the entropy of the process belong to the simulator
//!
//! The code under test has no timers today. Should it ever read a clock or ask for random
//! numbers, it gets those of the simulator while a simulated run is in progress: a clock that
//! advances a little with every reading, jumps at seeded moments, and entropy from a seed.

use std::{cell::Cell, ffi::c_void};

use crate::rng::mix2;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static RUN: Cell<u64> = const { Cell::new(0) };
}

/// Runs between creation and drop see the simulated clock
pub struct Simulated {
    before: (bool, u64, u64),
}

pub fn simulated(spec: u64) -> Simulated {
    let before = (ACTIVE.get(), SEED.get(), NOW.get());
    let run = RUN.get();
    RUN.set(run + 1);
    ACTIVE.set(true);
    // no two runs of a session are offered the same clock
    SEED.set(mix2(spec, run));
    if !before.0 {
        NOW.set(0);
        READS.set(0);
        ENTROPY.set(0);
    }
    Simulated { before }
}

impl Drop for Simulated {
    fn drop(&mut self) {
        ACTIVE.set(self.before.0);
        SEED.set(self.before.1);
        NOW.set(self.before.2);
    }
}

/// Start counting the runs of a session
pub fn first_run(n: u64) {
    RUN.set(n);
}

/// How often the code under test has read a clock or asked for entropy on this thread
pub fn reads() -> u64 {
    READS.get() + ENTROPY.get()
}

fn tick() -> u64 {
    let n = READS.get();
    READS.set(n + 1);
    let r = mix2(SEED.get(), n);
    let step = match r % 16 {
        0 => 3_600_000_000_000, // an hour passes between two readings
        1..=3 => 2_000_000_000,
        _ => 1_000 + r % 1_000_000,
    };
    let t = NOW.get().wrapping_add(step);
    NOW.set(t);
    t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ACTIVE.try_with(Cell::get).unwrap_or(false) {
        let t = tick();
        let base = if id == libc::CLOCK_REALTIME { 1_700_000_000 } else { 1_000 };
        (*ts).tv_sec = base + (t / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ACTIVE.try_with(Cell::get).unwrap_or(false) {
        let n = ENTROPY.get();
        ENTROPY.set(n + 1);
        let out = std::slice::from_raw_parts_mut(buf.cast::<u8>(), len);
        for (i, b) in out.iter_mut().enumerate() {
            *b = mix2(SEED.get() ^ 0xE27, n * 4096 + i as u64) as u8;
        }
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
