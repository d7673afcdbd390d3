//! F01: a shared value lives exactly as long as its references. F02: also when threads share it.
use crate::probe::{dropped, Probe};
use pen_ffi::{Arc, ArcBuffer};
use sym::{check, cover, live, pick};

/// The word before a payload is the count that compiled code keeps too: references but one, or that negated and one
/// less for values that threads may share; the least number is for static values.
fn count<T>(arc: &Arc<T>) -> *mut i64 {
    (&**arc as *const T as *mut i64).wrapping_sub(1)
}

const STATIC: i64 = i64::MIN;

fn spare(n: i64) -> bool {
    // a count that can take one more reference
    n != i64::MAX && n != STATIC + 1
}

/// One operation on a value with any count.
fn step(op: u32) {
    let v = sym::u64();
    let n = sym::u64() as i64;
    let before = live();
    let arc = Arc::new(Probe::new(v));
    let p = count(&arc);
    let payload = &*arc as *const Probe;
    unsafe { *p = n };
    match op {
        0 => {
            sym::assume(spare(n));
            let other = arc.clone();
            let m = unsafe { *p };
            check(
                m == if n >= 0 { n + 1 } else if n == STATIC { n } else { n - 1 },
                "a clone adds one reference",
            );
            check(&*other as *const Probe == payload, "a clone is the same value");
            check(other.get() == v, "a clone shows the value");
            core::mem::forget(other);
            core::mem::forget(arc);
        }
        1 => {
            drop(arc);
            if n == 0 || n == -1 {
                cover(1);
                check(dropped() == 1, "the last reference drops the value");
                check(live() == before, "the last reference frees the memory");
            } else {
                cover(2);
                check(dropped() == 0, "other references keep the value");
                check(
                    unsafe { *p } == if n == STATIC { n } else if n > 0 { n - 1 } else { n + 1 },
                    "a drop takes one reference away",
                );
            }
            sym::observe(dropped() as u64);
        }
        _ => {
            let mut arc = arc;
            let unique = n == 0 || n == -1;
            match Arc::get_mut(&mut arc) {
                Some(x) => {
                    cover(1);
                    check(unique, "only the owner of the sole reference may change a value");
                    check(x as *mut Probe as *const Probe == payload, "the value to change is the value");
                    x.set(!v);
                    check(arc.get() == !v, "a change is seen");
                }
                None => {
                    cover(2);
                    check(!unique, "the owner of the sole reference may change a value");
                }
            }
            core::mem::forget(arc);
        }
    }
}

/// Any sequence of operations on up to three references to two values.
fn operations(steps: usize) {
    let before = live();
    let made = [sym::u64(), sym::u64()];
    let mut values = made;
    let mut alive = [0usize; 2];
    let mut gone = 0;
    let mut slots: [Option<(usize, Arc<Probe>)>; 3] = [None, None, None];
    let mut fresh = 0;
    for _ in 0..steps {
        let i = pick(3);
        match pick(5) {
            0 => {
                // a new value, or another reference to the one that is there
                match slots[i].take() {
                    None => {
                        if fresh == 2 {
                            sym::end();
                        }
                        slots[i] = Some((fresh, Arc::new(Probe::new(made[fresh]))));
                        alive[fresh] = 1;
                        fresh += 1;
                    }
                    Some((k, arc)) => {
                        let free = (0..3).find(|&j| j != i && slots[j].is_none());
                        match free {
                            Some(j) => slots[j] = Some((k, arc.clone())),
                            None => sym::end(),
                        }
                        alive[k] += 1;
                        slots[i] = Some((k, arc));
                    }
                }
            }
            1 => match slots[i].take() {
                Some((k, arc)) => {
                    drop(arc);
                    alive[k] -= 1;
                    if alive[k] == 0 {
                        gone += 1;
                    }
                }
                None => sym::end(),
            },
            2 => match &slots[i] {
                Some((_, arc)) => arc.clone().synchronize(),
                None => sym::end(),
            },
            3 => match &mut slots[i] {
                Some((k, arc)) => match Arc::get_mut(arc) {
                    Some(x) => {
                        check(alive[*k] == 1, "a value with other references is not handed out to change");
                        x.set(values[*k].wrapping_add(1));
                        values[*k] = values[*k].wrapping_add(1);
                    }
                    None => check(alive[*k] > 1, "a value without other references is handed out to change"),
                },
                None => sym::end(),
            },
            _ => {
                // a reference takes the place of another
                let j = (i + 1) % 3;
                let (a, b) = (slots[i].take(), slots[j].take());
                match (a, b) {
                    (Some((k, a)), Some((l, mut b))) => {
                        b.clone_from(&a);
                        alive[l] -= 1;
                        if alive[l] == 0 {
                            gone += 1;
                        }
                        alive[k] += 1;
                        slots[i] = Some((k, a));
                        slots[j] = Some((k, b));
                    }
                    _ => sym::end(),
                }
            }
        }
        for slot in slots.iter().flatten() {
            check(slot.1.get() == values[slot.0], "a value is what it was made as");
        }
        check(dropped() == gone, "values are dropped exactly when their last references go");
    }
    cover(1);
    drop(slots);
    check(dropped() == fresh, "each value is dropped once");
    check(live() == before, "all memory is freed");
}

/// Payloads of other sizes and alignments.
fn payload<T: Copy + PartialEq + 'static>(value: T) {
    let before = live();
    let arc = Arc::new(value);
    check((&*arc as *const T as usize) % core::mem::align_of::<T>() == 0, "a value is aligned");
    check(*arc == value, "a value is what it was made as");
    let mut other = arc.clone();
    check(*other == value, "a clone is the same value");
    let zero = core::mem::size_of::<T>() == 0;
    check(Arc::get_mut(&mut other).is_none(), "a value with other references is not handed out to change");
    drop(arc);
    check(*other == value, "a value stays while there are references");
    check(zero || Arc::get_mut(&mut other).is_some(), "a value without other references is handed out to change");
    if sym::bool() {
        other.clone().synchronize();
        let third = other.clone();
        drop(other);
        check(*third == value, "a value stays while there are references");
        drop(third);
    } else {
        drop(other);
    }
    check(live() == before, "all memory is freed");
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Mixed {
    a: u8,
    b: u64,
    c: u16,
}

#[repr(align(16))]
#[derive(Clone, Copy, PartialEq)]
struct Aligned(u64);

/// Buffers of any length.
fn buffer<const N: usize>() {
    let n = pick(N + 1);
    let data: [u8; N] = sym::bytes();
    let before = live();
    let mut b = ArcBuffer::new(n);
    check(b.as_slice().len() == n, "a buffer has the length asked for");
    check(b.as_slice_mut().len() == n, "a buffer has the length asked for");
    b.as_slice_mut().copy_from_slice(&data[..n]);
    check(b.as_slice() == &data[..n], "a buffer holds what is written");
    let mut all: Vec<ArcBuffer> = vec![b];
    for _ in 0..3 {
        match pick(3) {
            0 => {
                let c = all[0].clone();
                check(c.as_slice().as_ptr() == all[0].as_slice().as_ptr() || n == 0, "a clone is the same buffer");
                all.push(c);
            }
            1 => drop(all.remove(0)),
            _ => {
                let c = ArcBuffer::from(&data[..n]);
                all.push(c);
            }
        }
        if all.is_empty() {
            break;
        }
        for b in &all {
            check(b.as_slice() == &data[..n], "a buffer holds what was written");
        }
    }
    drop(all);
    check(live() == before, "all memory is freed");
    cover(1);
}

/// What threads share is a value with a few references each.
struct Shared {
    arcs: [Option<Arc<Probe>>; 3],
}

static mut SHARED: Shared = Shared { arcs: [None, None, None] };

fn take(k: usize) -> Arc<Probe> {
    unsafe { (*core::ptr::addr_of_mut!(SHARED)).arcs[k].take().unwrap() }
}

extern "C" fn work(a: *mut u8) {
    let k = a as usize;
    let mut arc = take(k & 3);
    match k >> 2 {
        0 => {
            check(arc.get() == 7, "a shared value is what it was made as");
            drop(arc);
        }
        1 => {
            let other = arc.clone();
            drop(arc);
            check(other.get() == 7, "a shared value is what it was made as");
            drop(other);
        }
        2 => {
            if let Some(x) = Arc::get_mut(&mut arc) {
                // the others are gone, and what they did is over
                cover(2);
                x.set(9);
                check(arc.get() == 9, "a change is seen");
            }
            drop(arc);
        }
        _ => {
            let other = arc.clone();
            let third = other.clone();
            drop(other);
            drop(arc);
            drop(third);
        }
    }
}

/// Threads with a reference each do their jobs while any number of references is held elsewhere.
fn threads(n: usize, jobs: usize) {
    let before = live();
    let elsewhere = sym::u64();
    sym::assume(elsewhere < 1 << 62);
    let arc = Arc::new(Probe::new(7));
    arc.clone().synchronize();
    let mut last = 0;
    for k in 0..n {
        unsafe { (*core::ptr::addr_of_mut!(SHARED)).arcs[k] = Some(arc.clone()) };
    }
    let p = count(&arc);
    drop(arc);
    unsafe { *p = *p - elsewhere as i64 };
    for k in 0..n {
        let job = pick(jobs);
        // the threads are alike, so their jobs need not come in every order
        if job < last {
            sym::end();
        }
        last = job;
        sym::spawn(work, (k | job << 2) as *mut u8);
    }
    sym::join();
    if elsewhere == 0 {
        check(dropped() == 1, "the last of all threads drops the value, once");
        check(live() == before, "the last of all threads frees the memory");
        cover(1);
    } else {
        check(dropped() == 0, "references held elsewhere keep the value");
        check(unsafe { *p } == -(elsewhere as i64), "the count is that of the references left");
        cover(3);
    }
}

sym::entries! {
    fn t_f01_clone() { step(0) }
    fn t_f01_drop() { step(1) }
    fn t_f01_synchronize() {
        let n = sym::u64() as i64;
        sym::assume(n != 0 && n != -1 && n != i64::MAX);
        let arc = Arc::new(Probe::new(1));
        let p = count(&arc);
        unsafe { *p = n };
        arc.synchronize();
        // one reference was taken by the call
        let m = unsafe { *p };
        check(
            m == if n == STATIC { n } else if n >= 0 { -n } else { n + 1 },
            "a value made ready for threads keeps its references",
        );
        check(dropped() == 0, "a value made ready for threads stays");
        cover(1);
    }
    fn t_f01_get_mut() { step(2) }
    fn t_f01_operations() { operations(4) }
    fn d_f01_operations() { operations(7) }
    fn t_f01_payloads() {
        match pick(7) {
            0 => payload(sym::u8()),
            1 => payload(sym::u16()),
            2 => payload(sym::u64()),
            3 => payload([sym::u64(), sym::u64(), sym::u64()]),
            4 => payload(Mixed { a: sym::u8(), b: sym::u64(), c: sym::u16() }),
            5 => payload(()),
            _ => payload(sym::bytes::<13>()),
        }
    }
    fn t_f01_aligned() { payload(Aligned(sym::u64())) }
    fn t_f01_buffer() { buffer::<4>() }
    fn d_f01_buffer() { buffer::<20>() }
    fn t_f02_two() { threads(2, 4) }
    fn t_f02_three() { threads(3, 3) }
    fn d_f02_three() { threads(3, 4) }
}
