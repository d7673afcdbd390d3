pub use std::time::{Duration, Instant};

/// The nanoseconds slept so far.
pub static mut SLEPT: u64 = 0;

pub async fn sleep(duration: Duration) {
    crate::pause().await;
    unsafe { SLEPT += duration.as_nanos() as u64 };
}
