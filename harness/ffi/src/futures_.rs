//! F08: calls between futures and continuations give each result once. F09: values cross the border as they are.
use crate::builtin::{elements, source, WAITS};
use crate::probe::{dropped, Probe};
use crate::stack::{waker, woken};
use core::future::{poll_fn, Future};
use core::pin::Pin;
use core::task::{Context, Poll};
use futures::Stream;
use pen_ffi::cps::{AsyncStack, ContinuationFunction};
use pen_ffi::{Any, Boolean, ByteString, Closure, Error, List, None as PenNone, Number};
use sym::{check, cover, live, pick};

/// Polls until the result is there; each wait must have woken the task.
fn run<T>(future: impl Future<Output = T>, polls: &mut usize) -> T {
    let mut future = Box::pin(future);
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    loop {
        let n = woken();
        *polls += 1;
        match future.as_mut().poll(&mut context) {
            Poll::Ready(x) => return x,
            Poll::Pending => check(woken() > n, "a call that waits is woken"),
        }
        if *polls > 40 {
            sym::fail("a call ends");
        }
    }
}

/// A future that waits a number of times.
struct Waits<T> {
    left: usize,
    value: Option<T>,
    probe: Probe,
}

impl<T> Unpin for Waits<T> {}

impl<T> Future for Waits<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, context: &mut Context) -> Poll<T> {
        if self.left == 0 {
            match self.value.take() {
                Some(x) => Poll::Ready(x),
                None => sym::fail("a future is not polled after its end"),
            }
        } else {
            self.left -= 1;
            context.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

fn waits<T>(left: usize, value: T) -> Waits<T> {
    Waits { left, value: Some(value), probe: Probe::new(1) }
}

// a thunk in continuation passing style, as compiled code or the library makes them
type Stack<T> = AsyncStack<T>;
type Continuation<T> = ContinuationFunction<T, T>;

#[derive(Clone)]
struct Thunk {
    waits: usize,
    value: u64,
    _probe: Probe,
}

extern "C" fn thunk(stack: &mut Stack<u64>, k: Continuation<u64>, closure: Closure<Thunk>) {
    let (n, v) = unsafe { ((*closure.payload()).waits, (*closure.payload()).value) };
    drop(closure);
    go(stack, k, waits(n, v))
}

fn resume(stack: &mut Stack<u64>, k: Continuation<u64>) {
    let future = stack.restore::<Waits<u64>>().unwrap();
    go(stack, k, future)
}

fn go(stack: &mut Stack<u64>, k: Continuation<u64>, mut future: Waits<u64>) {
    let r = Pin::new(&mut future).poll(stack.context().unwrap());
    match r {
        Poll::Ready(v) => k(stack, v),
        Poll::Pending => stack.suspend(resume, k, future).unwrap(),
    }
}

fn from_closure(max: usize) {
    let before = live();
    let v = sym::u64();
    let n = pick(max + 1);
    let mut polls = 0;
    let closure = Closure::new(thunk as *const u8, Thunk { waits: n, value: v, _probe: Probe::new(2) });
    let kept = if sym::bool() { Some(closure.clone()) } else { None };
    let r = run(pen_ffi::future::from_closure::<Thunk, u64>(closure), &mut polls);
    check(r == v, "a call gives the result of its closure");
    check(polls == n + 1, "a call waits as often as its closure");
    check(dropped() == 1 + kept.is_none() as usize, "a call gives its closure up, and what waits is dropped once");
    drop(kept);
    check(dropped() == 2, "payloads are dropped once");
    check(live() == before, "a call frees its memory");
    cover(1);
}

extern "C" fn function(stack: &mut Stack<u64>, k: Continuation<u64>) {
    let (n, v) = unsafe { ARGUMENT };
    go(stack, k, waits(n, v))
}

static mut ARGUMENT: (usize, u64) = (0, 0);

fn from_function(max: usize) {
    let before = live();
    let v = sym::u64();
    let n = pick(max + 1);
    unsafe { ARGUMENT = (n, v) };
    let mut polls = 0;
    let r = run(pen_ffi::future::from_function(function), &mut polls);
    check(r == v, "a call gives the result of its function");
    check(polls == n + 1, "a call waits as often as its function");
    check(dropped() == 1, "what waits is dropped once");
    check(live() == before, "a call frees its memory");
    cover(1);
}

/// A closure made from a future, called as compiled code would.
fn to_closure(max: usize) {
    let before = live();
    let v = sym::u64();
    let n = pick(max + 1);
    let mut polls = 0;
    let closure: Closure = pen_ffi::future::to_closure(waits(n, v));
    if sym::bool() {
        cover(2);
        drop(closure);
        check(dropped() == 1, "a future that is not run is dropped once");
    } else {
        // the closure is typed by its result on one side only
        let r = run(pen_ffi::future::from_closure::<(), u64>(closure), &mut polls);
        check(r == v, "a call gives the result of the future");
        check(dropped() == 1, "a future is dropped once");
        check(polls >= n + 1, "a call waits as often as its future");
        cover(1);
    }
    check(live() == before, "a call frees its memory");
}

extern "C" fn add(
    stack: &mut Stack<Number>,
    k: Continuation<Number>,
    closure: Closure<Number>,
    x: Number,
    y: ByteString,
) {
    let a = unsafe { *closure.payload() };
    unsafe { SEEN = (f64::from(a).to_bits(), f64::from(x).to_bits(), y.as_slice().len()) };
    drop(closure);
    if y.as_slice().len() > 1 {
        stack.trampoline(k, x).unwrap();
    } else {
        k(stack, x)
    }
}

static mut SEEN: (u64, u64, usize) = (0, 0, 0);

fn call() {
    let before = live();
    let (a, b) = (sym::u64(), sym::u64());
    let data: [u8; 3] = sym::bytes();
    let n = pick(4);
    let mut polls = 0;
    let r = run(
        async {
            let closure = Closure::new(add as *const u8, Number::new(f64::from_bits(a)));
            pen_ffi::call!(
                fn(Number, ByteString) -> Number,
                closure.clone(),
                Number::new(f64::from_bits(b)),
                ByteString::from(&data[..n]),
            )
            .await
        },
        &mut polls,
    );
    check(f64::from(r).to_bits() == b, "a call gives the result of its closure");
    check(unsafe { SEEN } == (a, b, n), "a call passes its arguments");
    check(polls == 1 + (n > 1) as usize, "a call waits as often as its closure");
    check(live() == before, "a call frees its memory");
    cover(1);
}

extern "C" fn echo(stack: &mut Stack<ByteString>, k: Continuation<ByteString>, x: ByteString) {
    if x.as_slice().len() > 1 {
        stack.trampoline(k, x).unwrap();
    } else {
        k(stack, x)
    }
}

fn call_function() {
    let before = live();
    let data: [u8; 3] = sym::bytes();
    let n = pick(4);
    let mut polls = 0;
    let r = run(
        async { pen_ffi::call_function!(fn(ByteString) -> ByteString, echo, ByteString::from(&data[..n])).await },
        &mut polls,
    );
    check(r.as_slice().len() == n, "a call gives the result of its function");
    for i in 0..n {
        check(r.as_slice()[i] == data[i], "a call gives the result of its function");
    }
    drop(r);
    check(live() == before, "a call frees its memory");
    cover(1);
}

// functions that the attribute makes callable from compiled code
#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _test_pair(x: Number, y: Number) -> Number {
    unsafe { ARGUMENT.1 = f64::from(x).to_bits() ^ f64::from(y).to_bits().rotate_left(1) };
    y
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _test_nothing(x: Number) {
    unsafe { ARGUMENT.1 = f64::from(x).to_bits() };
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _test_fallible(good: Boolean, x: Number, e: ByteString) -> Result<Number, ByteString> {
    if good.into() {
        Ok(x)
    } else {
        Err(e)
    }
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _test_later(n: Number, x: ByteString) -> ByteString {
    let n = f64::from(n).to_bits() as usize;
    waits(n, ()).await;
    x
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _test_later_fallible(good: Boolean, x: Number) -> Result<Number, Number> {
    waits(1, ()).await;
    if good.into() {
        Ok(x)
    } else {
        Err(x)
    }
}

fn bindgen_sync() {
    let (a, b) = (sym::u64(), sym::u64());
    let r = _test_pair(Number::new(f64::from_bits(a)), Number::new(f64::from_bits(b)));
    check(f64::from(r).to_bits() == b, "a function returns its result");
    check(unsafe { ARGUMENT.1 } == a ^ b.rotate_left(1), "a function gets its arguments");
    let _: PenNone = _test_nothing(Number::new(f64::from_bits(a)));
    check(unsafe { ARGUMENT.1 } == a, "a function gets its arguments");
    cover(1);
}

fn any_of(r: pen_ffi::extra::Result) -> Any {
    unsafe { core::mem::transmute(r) }
}

fn number_is(any: Any, v: u64) -> bool {
    Number::try_from(any).is_ok_and(|x| f64::from(x).to_bits() == v)
}

fn bindgen_fallible() {
    let before = live();
    let v = sym::u64();
    let data: [u8; 2] = sym::bytes();
    let good = sym::bool();
    {
        let any = any_of(_test_fallible(good.into(), Number::new(f64::from_bits(v)), ByteString::from(&data[..])));
        if good {
            cover(1);
            check(number_is(any, v), "a good result is its value");
        } else {
            cover(2);
            match Error::try_from(any) {
                Ok(e) => {
                    let s = ByteString::try_from(source(&e).clone());
                    check(
                        s.is_ok_and(|s| {
                            s.as_slice().len() == 2 && s.as_slice()[0] == data[0] && s.as_slice()[1] == data[1]
                        }),
                        "a bad result is an error of its source",
                    );
                }
                Err(_) => sym::fail("a bad result is an error"),
            }
        }
    }
    check(live() == before, "results are freed");
}

fn bindgen_async(max: usize) {
    let before = live();
    let data: [u8; 3] = sym::bytes();
    let n = pick(max + 1);
    let mut polls = 0;
    {
        // compiled code calls it with a stack for its own result; here that is the result of the call
        let r = run(
            async {
                pen_ffi::call_function!(
                    fn(Number, ByteString) -> ByteString,
                    later,
                    Number::new(f64::from_bits(n as u64)),
                    ByteString::from(&data[..])
                )
                .await
            },
            &mut polls,
        );
        check(r.as_slice().len() == 3, "an asynchronous function returns its result");
        for i in 0..3 {
            check(r.as_slice()[i] == data[i], "an asynchronous function returns its result");
        }
    }
    check(polls > n, "an asynchronous function waits for what it awaits");
    check(dropped() == 1, "what is awaited is dropped once");
    check(live() == before, "an asynchronous function frees its memory");
    cover(1);
}

unsafe extern "C" fn later(stack: &mut Stack<ByteString>, k: Continuation<ByteString>, n: Number, x: ByteString) {
    let f: extern "C" fn(&mut AsyncStack<()>, ContinuationFunction<ByteString, ()>, Number, ByteString) = _test_later;
    let f: extern "C" fn(&mut Stack<ByteString>, Continuation<ByteString>, Number, ByteString) =
        core::mem::transmute(f);
    f(stack, k, n, x)
}

unsafe extern "C" fn later_fallible(stack: &mut Stack<Any>, k: Continuation<Any>, good: Boolean, x: Number) {
    let f: *const u8 = _test_later_fallible as *const u8;
    let f: extern "C" fn(&mut Stack<Any>, Continuation<Any>, Boolean, Number) = core::mem::transmute(f);
    f(stack, k, good, x)
}

fn bindgen_async_fallible() {
    let before = live();
    let v = sym::u64();
    let good = sym::bool();
    let mut polls = 0;
    {
        let any = run(
            async {
                pen_ffi::call_function!(
                    fn(Boolean, Number) -> Any,
                    later_fallible,
                    good.into(),
                    Number::new(f64::from_bits(v))
                )
                .await
            },
            &mut polls,
        );
        if good {
            cover(1);
            check(number_is(any, v), "a good result is its value");
        } else {
            cover(2);
            match Error::try_from(any) {
                Ok(e) => check(number_is(source(&e).clone(), v), "a bad result is an error of its source"),
                Err(_) => sym::fail("a bad result is an error"),
            }
        }
    }
    check(live() == before, "results are freed");
}

/// A value of each type of the language.
fn value(kind: usize, v: u64) -> Any {
    match kind {
        0 => Boolean::new(v & 1 == 1).into(),
        1 => Number::new(f64::from_bits(v)).into(),
        2 => ByteString::from(&v.to_le_bytes()[..]).into(),
        3 => List::from([Number::new(f64::from_bits(v)), Number::new(1.0)]).into(),
        4 => Error::new(Number::new(f64::from_bits(v))).into(),
        5 => PenNone::default().into(),
        _ => crate::any::Empty {}.into(),
    }
}

fn builtin() {
    let before = live();
    let v = sym::u64();
    {
        let kind = pick(7);
        let any = value(kind, v);
        let is = [any.is_boolean(), any.is_number(), any.is_string(), any.is_list(), any.is_error(), any.is_none()];
        for (k, &b) in is.iter().enumerate() {
            check(b == (k == kind), "a value is of its own type and no other");
        }
        let good = match pick(5) {
            0 => Boolean::try_from(any).ok().map(|b| (0, bool::from(b) == (v & 1 == 1))),
            1 => Number::try_from(any).ok().map(|x| (1, f64::from(x).to_bits() == v)),
            2 => ByteString::try_from(any).ok().map(|s| {
                let mut d = s.as_slice().len() as u64 ^ 8;
                for (x, y) in s.as_slice().iter().zip(v.to_le_bytes()) {
                    d |= (x ^ y) as u64;
                }
                (2, d == 0)
            }),
            3 => List::try_from(any).ok().map(|l| {
                let e = elements(&l);
                (3, e.len() == 2 && number_is(e[0].clone(), v) && number_is(e[1].clone(), 1f64.to_bits()))
            }),
            _ => Error::try_from(any).ok().map(|e| (4, number_is(source(&e).clone(), v))),
        };
        match good {
            Some((target, good)) => {
                cover(1);
                check(target == kind, "a value comes out as its own type only");
                check(good, "a value comes out as it went in");
            }
            None => {
                cover(2);
            }
        }
    }
    check(live() == before, "values are freed");
}

fn comes_out() {
    let v = sym::u64();
    let kind = pick(5);
    let any = value(kind, v);
    let good = match kind {
        0 => Boolean::try_from(any).is_ok(),
        1 => Number::try_from(any).is_ok(),
        2 => ByteString::try_from(any).is_ok(),
        3 => List::try_from(any).is_ok(),
        _ => Error::try_from(any).is_ok(),
    };
    check(good, "a value comes out as its own type");
    cover(1);
}

fn numbers() {
    let v = sym::u64();
    let n = Number::from(f64::from_bits(v));
    check(f64::from(n).to_bits() == v, "a number is what it was made from");
    check(bool::from(Boolean::from(v & 1 == 1)) == (v & 1 == 1), "a boolean is what it was made from");
    let x = f64::from_bits(v);
    let u = usize::from(n);
    if x != x || x <= 0.0 {
        check(u == 0, "no number below zero or none is an index above zero");
    } else if x < 9007199254740992.0 {
        check(u as f64 <= x && x - (u as f64) < 1.0, "an index is a number without its fraction");
        cover(1);
    }
}

fn lists<const N: usize>() {
    let before = live();
    let data: [u64; N] = core::array::from_fn(|_| sym::u64());
    let n = pick(N + 1);
    {
        let list = List::from(data[..n].iter().map(|&v| Number::new(f64::from_bits(v))).collect::<Vec<_>>());
        let e = elements(&list);
        check(e.len() == n, "a list has the elements it is made from");
        for (x, &v) in e.into_iter().zip(&data) {
            check(number_is(x, v), "a list has the elements it is made from, in order");
        }
        // and back, as a stream
        unsafe { WAITS = pick(3) };
        let mut polls = 0;
        let mut stream = Box::pin(pen_ffi::future::stream::from_list(list));
        for k in 0..n + 1 {
            let x = run(poll_fn(|c| stream.as_mut().poll_next(c)), &mut polls);
            match x {
                Some(x) => {
                    check(k < n, "a stream ends where its list does");
                    check(number_is(x, data[k]), "a stream gives the elements of its list, in order");
                }
                None => check(k == n, "a stream gives all elements of its list"),
            }
        }
    }
    check(live() == before, "lists are freed");
    cover(1);
}

sym::entries! {
    fn t_f08_from_closure() { from_closure(4) }
    fn t_f08_from_function() { from_function(4) }
    fn t_f08_to_closure() { to_closure(4) }
    fn t_f08_call() { call() }
    fn t_f08_call_function() { call_function() }
    fn t_f08_bindgen_sync() { bindgen_sync() }
    fn t_f08_bindgen_fallible() { bindgen_fallible() }
    fn t_f08_bindgen_async() { bindgen_async(4) }
    fn t_f08_bindgen_async_fallible() { bindgen_async_fallible() }
    fn d_f08_from_closure() { from_closure(30) }
    fn d_f08_to_closure() { to_closure(20) }
    fn t_f09_builtin() { builtin() }
    fn t_f09_comes_out() { comes_out() }
    fn t_f09_numbers() { numbers() }
    fn t_f09_lists() { lists::<3>() }
    fn d_f09_lists() { lists::<12>() }
}
