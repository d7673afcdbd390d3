//! F06: a continuation stack gives back what was pushed, last first. F07: an asynchronous one only goes through its
//! actions in their order.
use crate::probe::{dropped, Probe};
use core::future::{ready, Ready};
use core::task::{Context, RawWaker, RawWakerVTable, Waker};
use pen_ffi::cps::{AsyncStack, ContinuationFunction, CpsError, Stack};
use sym::{check, cover, live, pick};

#[derive(Clone, Copy, PartialEq)]
#[repr(align(16))]
struct Aligned(u64);

#[derive(Clone, Copy)]
enum Item {
    Byte(u8),
    Short(u16),
    Word(u64),
    Pair(u8, u64),
    Bytes([u8; 11]),
    Unit,
    Aligned(u64),
    Owner(u64),
}

fn item(kinds: usize) -> Item {
    match pick(kinds) {
        0 => Item::Byte(sym::u8()),
        1 => Item::Word(sym::u64()),
        2 => Item::Bytes(sym::bytes()),
        3 => Item::Pair(sym::u8(), sym::u64()),
        4 => Item::Owner(sym::u64()),
        5 => Item::Unit,
        6 => Item::Aligned(sym::u64()),
        _ => Item::Short(sym::u16()),
    }
}

fn push(stack: &mut Stack, i: Item) {
    match i {
        Item::Byte(x) => stack.push(x),
        Item::Short(x) => stack.push(x),
        Item::Word(x) => stack.push(x),
        Item::Pair(a, b) => stack.push((a, b)),
        Item::Bytes(x) => stack.push(x),
        Item::Unit => stack.push(()),
        Item::Aligned(x) => stack.push(Aligned(x)),
        Item::Owner(x) => stack.push(Probe::new(x)),
    }
}

fn pop(stack: &mut Stack, i: Item) {
    let good = match i {
        Item::Byte(x) => stack.pop::<u8>() == x,
        Item::Short(x) => stack.pop::<u16>() == x,
        Item::Word(x) => stack.pop::<u64>() == x,
        Item::Pair(a, b) => stack.pop::<(u8, u64)>() == (a, b),
        Item::Bytes(x) => {
            let y = stack.pop::<[u8; 11]>();
            let mut d = 0;
            for k in 0..11 {
                d |= x[k] ^ y[k];
            }
            d == 0
        }
        Item::Unit => {
            stack.pop::<()>();
            true
        }
        Item::Aligned(x) => stack.pop::<Aligned>().0 == x,
        Item::Owner(x) => stack.pop::<Probe>().get() == x,
    };
    check(good, "a stack gives back what was pushed");
}

fn operations(capacity: usize, steps: usize, kinds: usize) {
    let before = live();
    let mut stack = Stack::new(capacity);
    let mut model = vec![];
    let mut owners = 0;
    for _ in 0..steps {
        if sym::bool() {
            let i = item(kinds);
            push(&mut stack, i);
            model.push(i);
        } else {
            match model.pop() {
                Some(i) => {
                    pop(&mut stack, i);
                    owners += matches!(i, Item::Owner(_)) as usize;
                }
                None => sym::end(),
            }
        }
        check(dropped() == owners, "a stack does not drop what it holds or gave back");
    }
    while let Some(i) = model.pop() {
        pop(&mut stack, i);
    }
    drop(stack);
    drop(model);
    check(live() == before, "a stack frees its memory");
    cover(1);
}

/// Many values, so that the stack grows several times.
fn growth(n: usize) {
    let before = live();
    let mut stack = Stack::new(1 + pick(64));
    let data: Vec<u64> = (0..n).map(|_| sym::u64()).collect();
    for &x in &data {
        stack.push(x);
    }
    for &x in data.iter().rev() {
        check(stack.pop::<u64>() == x, "a stack gives back what was pushed");
    }
    drop(stack);
    drop(data);
    check(live() == before, "a stack frees its memory");
    cover(1);
}

static mut WOKEN: usize = 0;
static TABLE: RawWakerVTable = RawWakerVTable::new(
    |_| RawWaker::new(core::ptr::null(), &TABLE),
    |_| unsafe { WOKEN += 1 },
    |_| unsafe { WOKEN += 1 },
    |_| {},
);

pub fn woken() -> usize {
    unsafe { WOKEN }
}

pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &TABLE)) }
}

type Value = u64;
type AStack = AsyncStack<Value>;

fn step(stack: &mut AStack, continue_: ContinuationFunction<Value, Value>) {
    let future = stack.restore::<Ready<Value>>().unwrap();
    continue_(stack, future.into_inner())
}

extern "C" fn continue_(stack: &mut AStack, value: Value) {
    stack.resolve(value)
}

/// What an asynchronous stack may do next.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Next {
    Suspend,
    Resume { trampoline: bool },
    Restore,
}

fn refused<T>(r: Result<T, CpsError>, good: bool, message: &str) -> Option<T> {
    check(r.is_ok() == good, message);
    r.ok()
}

/// Any sequence of calls: each goes through exactly in its turn, and one that is refused changes nothing.
fn protocol(steps: usize) {
    let before = live();
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    let mut stack = AStack::new(1 + pick(2) * 63);
    let mut next = Next::Suspend;
    let mut value = 0;
    let mut resolved = None;
    for _ in 0..steps {
        match pick(8) {
            0 => {
                let v = sym::u64();
                if refused(
                    stack.suspend(step, continue_, ready(v)),
                    next == Next::Suspend,
                    "suspension is for its turn only",
                )
                .is_some()
                {
                    value = v;
                    next = Next::Resume { trampoline: false };
                }
            }
            1 => {
                let v = sym::u64();
                let n = woken();
                let r = stack.run_with_context(&mut context, |s| s.trampoline(continue_, v));
                if refused(r, next == Next::Suspend, "a trampoline is for its turn only").is_some() {
                    value = v;
                    next = Next::Resume { trampoline: true };
                    check(woken() > n, "a trampoline wakes its task");
                }
            }
            2 => {
                let v = sym::u64();
                check(stack.trampoline(continue_, v).is_err(), "a trampoline needs a context");
            }
            3 => {
                if let Next::Resume { trampoline: true } = next {
                    // the step function takes the value from the stack
                    match stack.resume::<Value>() {
                        Ok((f, k)) => {
                            cover(2);
                            check(k as usize == continue_ as *const () as usize, "the continuation comes back");
                            f(&mut stack, k);
                            resolved = None;
                            check(stack.resolved_value() == Some(value), "a trampoline carries its value");
                            check(stack.resolved_value().is_none(), "a result is taken once");
                            next = Next::Suspend;
                        }
                        Err(_) => sym::fail("a trampoline can be resumed"),
                    }
                } else {
                    let good = matches!(next, Next::Resume { .. });
                    if let Some((f, k)) = refused(stack.resume::<Value>(), good, "resumption is for its turn only") {
                        check(f as usize == step as *const () as usize, "the step function comes back");
                        check(k as usize == continue_ as *const () as usize, "the continuation comes back");
                        next = Next::Restore;
                    }
                }
            }
            4 => {
                let good = next == Next::Restore;
                if let Some(future) =
                    refused(stack.restore::<Ready<Value>>(), good, "restoration is for its turn only")
                {
                    cover(3);
                    check(future.into_inner() == value, "the future comes back");
                    next = Next::Suspend;
                }
            }
            5 => {
                // a result stays until it is taken, whatever else goes on
                let v = sym::u64();
                stack.resolve(v);
                resolved = Some(v);
            }
            6 => {
                check(stack.resolved_value() == resolved, "a result is the one resolved last, once");
                resolved = None;
            }
            _ => {
                // plain values go below and above what is suspended only while nothing is
                if next == Next::Suspend {
                    let x = sym::u64();
                    stack.push(x);
                    check(stack.pop::<u64>() == x, "a stack gives back what was pushed");
                } else {
                    sym::end();
                }
            }
        }
        check(stack.context().is_none(), "there is no context outside a run");
    }
    drop(stack);
    check(live() == before, "a stack frees its memory");
    cover(1);
}

fn contexts() {
    let waker = waker();
    let mut context = Context::from_waker(&waker);
    let mut stack = AStack::new(8);
    check(stack.context().is_none(), "there is no context outside a run");
    let v = sym::u64();
    let r = stack.run_with_context(&mut context, |s| {
        let n = woken();
        match s.context() {
            Some(c) => c.waker().wake_by_ref(),
            None => sym::fail("there is a context in a run"),
        }
        check(woken() == n + 1, "the context is the one given");
        s.resolve(v);
        v
    });
    check(r == v, "a run returns its result");
    check(stack.context().is_none(), "there is no context outside a run");
    check(stack.resolved_value() == Some(v), "a resolved value is kept");
    check(stack.resolved_value().is_none(), "a result is taken once");
    cover(1);
}

sym::entries! {
    fn t_f06_operations() { operations([1, 7, 8, 64][pick(4)], 4, 5) }
    fn d_f06_operations() { operations([1, 8, 24, 64][pick(4)], 6, 7) }
    fn t_f06_aligned() { operations(16, 3, 7) }
    fn t_f06_empty() { operations(0, 3, 3) }
    fn t_f06_growth() { growth(20) }
    fn d_f06_growth() { growth(200) }
    fn t_f07_protocol() { protocol(5) }
    fn d_f07_protocol() { protocol(7) }
    fn t_f07_contexts() { contexts() }
}
