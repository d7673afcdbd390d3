//! Tasks that are run in any order.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

const MAX: usize = 16;

static mut TASKS: [Option<Pin<Box<dyn Future<Output = ()>>>>; MAX] = [const { None }; MAX];
/// Those that were woken, the main one at the end.
static mut WOKEN: [bool; MAX + 1] = [false; MAX + 1];
/// How many polls may be of a task that is not the first of those woken.
pub static mut SWITCHES: usize = 0;
static mut COUNT: usize = 0;

fn wake(p: *const ()) {
    unsafe { *(p as *mut bool) = true };
}

static TABLE: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &TABLE), wake, wake, |_| {});

fn waker(k: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((&raw mut WOKEN as *mut bool).add(k) as *const (), &TABLE)) }
}

#[derive(Debug)]
pub struct JoinError(());

impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("task failed")
    }
}

impl std::error::Error for JoinError {}

struct Shared<T> {
    value: Option<T>,
    waker: Option<Waker>,
}

pub struct JoinHandle<T>(Rc<RefCell<Shared<T>>>);

// there is one thread
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, context: &mut Context) -> Poll<Self::Output> {
        let mut x = self.0.borrow_mut();
        match x.value.take() {
            Some(x) => Poll::Ready(Ok(x)),
            None => {
                x.waker = Some(context.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// Starts a task.
pub fn spawn<F: Future + 'static>(future: F) -> JoinHandle<F::Output> {
    let shared = Rc::new(RefCell::new(Shared { value: None, waker: None }));
    let s = shared.clone();
    let task = Box::pin(async move {
        let x = future.await;
        let w = {
            let mut s = s.borrow_mut();
            s.value = Some(x);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    });
    unsafe {
        sym::check(COUNT < MAX, "a few tasks are started");
        TASKS[COUNT] = Some(task);
        WOKEN[COUNT] = true;
        COUNT += 1;
    }
    JoinHandle(shared)
}

pub async fn spawn_blocking<T: 'static>(f: impl FnOnce() -> T + 'static) -> Result<T, JoinError> {
    crate::pause().await;
    Ok(f())
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|context| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        context.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

/// Polls a future and the tasks, in any order, until it is ready.
pub fn run<T>(future: impl Future<Output = T>) -> T {
    let mut future = Box::pin(future);
    unsafe { WOKEN[MAX] = true };
    for _ in 0..200 {
        let Some(k) = next() else {
            sym::fail("a call that waits is woken")
        };
        unsafe { WOKEN[k] = false };
        let waker = waker(k);
        let mut context = Context::from_waker(&waker);
        if k == MAX {
            if let Poll::Ready(x) = future.as_mut().poll(&mut context) {
                return x;
            }
        } else {
            poll(k, &mut context);
        }
    }
    sym::fail("a call ends")
}

fn poll(k: usize, context: &mut Context) {
    unsafe {
        // what is polled may start others
        let Some(mut task) = TASKS[k].take() else { return };
        if task.as_mut().poll(context).is_pending() {
            TASKS[k] = Some(task);
        }
    }
}

fn next() -> Option<usize> {
    let mut ready = [0; MAX + 1];
    let mut n = 0;
    unsafe {
        for k in (0..COUNT).chain([MAX]) {
            if WOKEN[k] && (k == MAX || TASKS[k].is_some()) {
                ready[n] = k;
                n += 1;
            }
        }
        if n == 0 {
            return None;
        }
        let i = if n > 1 && SWITCHES > 0 { sym::pick(n) } else { 0 };
        if i > 0 {
            SWITCHES -= 1;
        }
        Some(ready[i])
    }
}

/// Goes on with the tasks until none is woken, and says how many are left.
pub fn rest() -> usize {
    unsafe {
        WOKEN[MAX] = false;
        for _ in 0..200 {
            let Some(k) = next() else { break };
            WOKEN[k] = false;
            poll(k, &mut Context::from_waker(&waker(k)));
        }
        (0..COUNT).filter(|k| TASKS[*k].is_some()).count()
    }
}

/// Drops what is left of the tasks, as the end of a program does.
pub fn finish() {
    unsafe {
        for k in 0..COUNT {
            drop(TASKS[k].take());
        }
        COUNT = 0;
    }
}
