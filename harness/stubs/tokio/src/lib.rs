//! A stand-in for tokio: its locks, channels and helpers are the real ones, and what reaches the system answers after
//! any number of waits, over the standard library (whose system is another stand-in).
pub use real::{join, pin, select, sync, try_join};
pub mod fs;
pub mod io;
pub mod net;
pub mod process;
pub mod runtime;
pub mod task;
pub mod time;
pub use task::spawn;

use std::task::{Context, Poll};

/// How many more times something may wait.
pub static mut WAITS: usize = 0;

/// Waits or goes on.
pub fn wait(context: &mut Context<'_>) -> Poll<()> {
    unsafe {
        if WAITS > 0 && sym::pick(2) == 1 {
            WAITS -= 1;
            context.waker().wake_by_ref();
            return Poll::Pending;
        }
    }
    Poll::Ready(())
}

pub async fn pause() {
    std::future::poll_fn(wait).await
}

/// What the library does by itself after an interruption.
pub(crate) fn again<T>(mut f: impl FnMut() -> std::io::Result<T>) -> std::io::Result<T> {
    loop {
        match f() {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            r => return r,
        }
    }
}
