//! Stand-in: the clock is the one of this thread, set by the harness.
use std::cell::Cell;

thread_local!(static NOW: Cell<u64> = Cell::new(1_700_000_000_000));

pub fn unix_time_as_millis() -> u64 {
    NOW.with(|n| n.get())
}

pub fn set(ms: u64) {
    NOW.with(|n| n.set(ms))
}

pub fn advance(ms: u64) {
    set(unix_time_as_millis() + ms)
}
