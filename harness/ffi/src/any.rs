//! F04: a dynamically typed value is what was put in, and comes out as its own type only.
use crate::probe::{dropped, made, Probe};
use pen_ffi::Any;
use sym::{check, cover, live, pick};

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Owner {
    probe: Probe,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Other {
    probe: Probe,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Word {
    a: u32,
    b: u16,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Long {
    a: u64,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Default)]
pub struct Empty {}

fn make(kind: usize, v: u64) -> Any {
    match kind {
        0 => Owner { probe: Probe::new(v) }.into(),
        1 => Other { probe: Probe::new(v) }.into(),
        2 => Word { a: v as u32, b: (v >> 32) as u16 }.into(),
        3 => Long { a: v }.into(),
        _ => Empty {}.into(),
    }
}

fn seen(kind: usize, any: &Any, v: u64) -> bool {
    match kind {
        0 => <&Owner>::try_from(any).is_ok_and(|x| x.probe.get() == v),
        1 => <&Other>::try_from(any).is_ok_and(|x| x.probe.get() == v),
        2 => <&Word>::try_from(any).is_ok_and(|x| x.a == v as u32 && x.b == (v >> 32) as u16),
        3 => <&Long>::try_from(any).is_ok_and(|x| x.a == v),
        _ => <&Empty>::try_from(any).is_ok(),
    }
}

fn is(kind: usize, any: &Any) -> bool {
    match kind {
        0 => <&Owner>::try_from(any).is_ok(),
        1 => <&Other>::try_from(any).is_ok(),
        2 => <&Word>::try_from(any).is_ok(),
        3 => <&Long>::try_from(any).is_ok(),
        _ => <&Empty>::try_from(any).is_ok(),
    }
}

/// Converts by value; true when the conversion went through with the right value.
fn take(kind: usize, any: Any, v: u64) -> Option<bool> {
    match kind {
        0 => Owner::try_from(any).ok().map(|x| x.probe.get() == v),
        1 => Other::try_from(any).ok().map(|x| x.probe.get() == v),
        2 => Word::try_from(any).ok().map(|x| x.a == v as u32 && x.b == (v >> 32) as u16),
        3 => Long::try_from(any).ok().map(|x| x.a == v),
        _ => Empty::try_from(any).ok().map(|_| true),
    }
}

fn owns(kind: usize) -> usize {
    (kind < 2) as usize
}

fn types() {
    let v = sym::u64();
    let before = live();
    let kind = pick(5);
    let any = make(kind, v);
    check(made() == owns(kind) && dropped() == 0, "a value moves into a dynamic one");
    for other in 0..5 {
        check(is(other, &any) == (other == kind), "a dynamic value is of its own type and no other");
    }
    check(seen(kind, &any, v), "a dynamic value is what was put in");
    let target = pick(5);
    let copied = sym::bool();
    let copy = if copied { Some(any.clone()) } else { None };
    let n = owns(kind) * (1 + copied as usize);
    check(made() == n && dropped() == 0, "a clone of a dynamic value clones it");
    match take(target, any, v) {
        Some(good) => {
            cover(1);
            check(target == kind, "a dynamic value comes out as its own type only");
            check(good, "a dynamic value comes out as it went in");
        }
        None => {
            cover(2);
            check(target != kind, "a dynamic value comes out as its own type");
        }
    }
    check(dropped() == owns(kind), "a value is dropped once, whether it came out or not");
    if let Some(copy) = copy {
        check(seen(kind, &copy, v), "a clone is what was cloned");
        drop(copy);
        check(dropped() == n, "a dynamic value is dropped once");
    }
    check(live() == before, "dynamic values are freed");
}

fn change() {
    let (v, w) = (sym::u64(), sym::u64());
    let kind = pick(2);
    let mut any = make(if kind == 0 { 0 } else { 3 }, v);
    let copy = any.clone();
    let good = match kind {
        0 => <&mut Owner>::try_from(&mut any).map(|x| x.probe.set(w)).is_ok(),
        _ => <&mut Long>::try_from(&mut any).map(|x| x.a = w).is_ok(),
    };
    check(good, "a dynamic value can be changed as its own type");
    check(seen(if kind == 0 { 0 } else { 3 }, &any, w), "a change is seen");
    check(seen(if kind == 0 { 0 } else { 3 }, &copy, v), "a clone does not see a change");
    check(
        <&mut Other>::try_from(&mut any).is_err() && <&mut Word>::try_from(&mut any).is_err(),
        "a dynamic value can be changed as its own type only",
    );
    cover(1);
}

sym::entries! {
    fn t_f04_types() { types() }
    fn t_f04_change() { change() }
}
