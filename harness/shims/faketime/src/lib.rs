//! Stand-in for faketime: the clock of the node under test is set by the harness, per thread.
use std::cell::Cell;
use std::time::Duration;
thread_local! { static NOW: Cell<u64> = Cell::new(1_000_000_000_000); }
pub fn unix_time() -> Duration { Duration::from_millis(unix_time_as_millis()) }
pub fn unix_time_as_millis() -> u64 { NOW.with(|n| n.get()) }
pub fn set_millis(ms: u64) { NOW.with(|n| n.set(ms)) }
