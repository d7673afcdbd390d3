//! O09: tasks that are started, and lists that are merged.
use crate::builtin::{node, number, pen_ffi_list_create, pen_ffi_list_lazy, pen_ffi_list_prepend, Node};
use ffi::cps::{AsyncStack, ContinuationFunction};
use ffi::{Any, Closure, List, None as PenNone, Number};
use std::future::Future;
use std::pin::Pin;
use sym::{check, cover, live, pick};

static mut RUNS: [usize; 3] = [0; 3];

struct Thunk {
    index: usize,
    waits: usize,
    value: u64,
}

/// How often it waits yet, and for what.
struct Left(usize, u64);

impl Future for Left {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<()> {
        sym::fail("not polled")
    }
}

extern "C" fn thunk(stack: &mut AsyncStack<Any>, k: ContinuationFunction<Any, Any>, closure: Closure<Thunk>) {
    let (i, n, v) = unsafe {
        let t = &*closure.payload();
        (t.index, t.waits, t.value)
    };
    drop(closure);
    unsafe { RUNS[i] += 1 };
    go(stack, k, n, v)
}

fn go(stack: &mut AsyncStack<Any>, k: ContinuationFunction<Any, Any>, n: usize, v: u64) {
    if n > 0 {
        stack.context().unwrap().waker().wake_by_ref();
        stack.suspend(resume, k, Left(n - 1, v)).unwrap();
    } else {
        k(stack, Number::new(f64::from_bits(v)).into())
    }
}

fn resume(stack: &mut AsyncStack<Any>, k: ContinuationFunction<Any, Any>) {
    let Left(n, v) = stack.restore().unwrap();
    go(stack, k, n, v)
}

async fn spawn_(closure: Closure) -> Closure {
    ffi::import!(_pen_spawn, async fn(closure: Closure) -> Closure);
    _pen_spawn(closure).await
}

async fn yield_() -> PenNone {
    ffi::import!(_pen_yield, async fn() -> PenNone);
    _pen_yield().await
}

async fn race_(list: List) -> List {
    ffi::import!(_pen_race, async fn(list: List) -> List);
    _pen_race(list).await
}

fn bits(x: &Any) -> u64 {
    check(core::ptr::eq(x.type_information(), &number::INFORMATION), "a value is of its type");
    f64::from(number::pen_ffi_any_to_number(x.clone())).to_bits()
}

fn spawn<const N: usize>(waits: usize, switches: usize) {
    let before = live();
    let v: [u64; N] = [(); N].map(|_| sym::u64());
    unsafe { tokio::task::SWITCHES = switches };
    let kept = sym::bool();
    tokio::task::run(async {
        let mut results = vec![];
        for k in 0..N {
            let t = Thunk { index: k, waits: pick(waits + 1), value: v[k] };
            results.push(Some(spawn_(Closure::new(thunk as *const u8, t).into_opaque()).await));
        }
        // not all are waited for
        let n = if kept { N } else { N - 1 };
        let first = pick(N);
        for k in 0..n {
            let k = (first + k) % N;
            let r = results[k].take().unwrap();
            let x = ffi::future::from_closure::<(), Any>(unsafe { core::mem::transmute::<Closure, Closure<()>>(r) }).await;
            check(bits(&x) == v[k], "a task gives its own result");
        }
    });
    check(tokio::task::rest() == 0, "all tasks end");
    check(unsafe { RUNS[..N] == [1; N] }, "a task is run once");
    tokio::task::finish();
    check(live() == before, "what was allocated is freed");
    cover(if kept { 1 } else { 2 });
}

fn yields() {
    static mut ORDER: (u8, bool) = (0, false);
    unsafe { ORDER = (0, false) };
    tokio::task::run(async {
        let other = tokio::spawn(async { unsafe { ORDER.1 = true } });
        yield_().await;
        check(unsafe { ORDER.1 }, "other tasks are run");
        other.await.unwrap();
    });
    cover(1);
}

type Next = Pin<Box<dyn Future<Output = Option<(Any, List)>>>>;

fn next(list: List) -> Next {
    Box::pin(async move {
        match node(&list) {
            Node::Nil => None,
            Node::Cons(x, xs) => Some((x.clone(), xs.clone())),
            Node::Lazy(closure) => {
                let closure = unsafe { core::mem::transmute::<Closure, Closure<()>>(closure.clone()) };
                drop(list);
                let rest = ffi::future::from_closure::<(), List>(closure).await;
                next(rest).await
            }
        }
    })
}

/// `N` lists of at most `M` elements.
fn race<const N: usize, const M: usize>(switches: usize, waits: usize, part: bool, stuck: bool) {
    let before = live();
    {
        let v: [[u64; M]; N] = [(); N].map(|_| [(); M].map(|_| sym::u64()));
        let lengths = [(); N].map(|_| pick(M + 1));
        let n: usize = lengths.iter().sum();
        let never = if stuck { pick(N) } else { N };
        unsafe { crate::builtin::STUCK = true };
        let lists = (0..N)
            .map(|k| {
                let end = if k == never {
                    pen_ffi_list_lazy(Closure::new(core::ptr::null(), ()).into_opaque())
                } else {
                    pen_ffi_list_create()
                };
                v[k][..lengths[k]]
                    .iter()
                    .rev()
                    .fold(end, |l, x| pen_ffi_list_prepend(Number::new(f64::from_bits(*x)).into(), l))
            })
            .collect::<Vec<_>>();
        let wanted = if part { pick(n + 1) } else { n + !stuck as usize };
        unsafe { tokio::task::SWITCHES = switches };
        unsafe { crate::builtin::WAITS = waits };
        let got = tokio::task::run(async {
            let mut got = vec![];
            let mut list = race_(List::from(lists)).await;
            while got.len() < wanted {
                match next(list.clone()).await {
                    Some((x, xs)) => {
                        check(got.len() < n, "no element is given twice");
                        got.push(bits(&x));
                        list = xs;
                    }
                    None => break,
                }
            }
            got
        });
        check(got.len() == wanted.min(n), "all elements are given");
        check(merged(&got, &v, &lengths, [0; N]), "elements of each list are given in order");
        check(tokio::task::rest() == stuck as usize, "all tasks end");
        tokio::task::finish();
        cover(1);
        if N > 1 && n == got.len() && lengths[0] > 0 && got.len() > lengths[0] {
            cover(2);
        }
    }
    check(live() == before, "what was allocated is freed");
}

/// Whether a list is made of the others, in any order between them.
fn merged<const N: usize, const M: usize>(got: &[u64], v: &[[u64; M]; N], lengths: &[usize; N], at: [usize; N]) -> bool {
    let Some((x, rest)) = got.split_first() else { return true };
    let mut good = false;
    for k in 0..N {
        if at[k] < lengths[k] {
            let mut next = at;
            next[k] += 1;
            good |= (*x == v[k][at[k]]) & merged(rest, v, lengths, next);
        }
    }
    good
}

sym::entries! {
    fn t_o09_spawn() { spawn::<2>(2, 2) }
    fn d_o09_spawn() { spawn::<3>(2, 4) }
    fn t_o09_yield() { yields() }
    fn t_o09_race() { race::<2, 3>(4, 2, false, false) }
    fn t_o09_many() { race::<3, 2>(3, 1, false, false) }
    fn d_o09_race() { race::<2, 4>(6, 3, false, false) }
    fn d_o09_many() { race::<3, 3>(4, 2, false, false) }
    fn t_o09_single() { race::<1, 4>(3, 2, false, false) }
    fn t_o09_part() { race::<2, 3>(3, 1, true, false) }
    fn d_o09_part() { race::<3, 3>(4, 1, true, false) }
    fn t_o09_stuck() { race::<3, 2>(2, 0, false, true) }
    fn d_o09_stuck() { race::<3, 3>(4, 0, false, true) }
}
