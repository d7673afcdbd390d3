//! F05: a closure keeps its entry function and payload and drops the payload once, however it is typed.
use crate::probe::{dropped, Probe};
use pen_ffi::Closure;
use sym::{check, cover, live, pick};

enum Held {
    Typed(Closure<Probe>),
    Opaque(Closure),
}

impl Held {
    fn entry(&self) -> u64 {
        match self {
            Held::Typed(c) => c.entry_function() as u64,
            Held::Opaque(c) => c.entry_function() as u64,
        }
    }
    fn value(&self) -> u64 {
        match self {
            Held::Typed(c) => unsafe { (*c.payload()).get() },
            Held::Opaque(c) => unsafe { (*(c.payload() as *const Probe)).get() },
        }
    }
}

fn closures(steps: usize) {
    let (f, v) = (sym::u64(), sym::u64());
    let before = live();
    let mut all = vec![Held::Typed(Closure::new(f as *const u8, Probe::new(v)))];
    for _ in 0..steps {
        match pick(3) {
            0 => {
                let c = match &all[0] {
                    Held::Typed(c) => Held::Typed(c.clone()),
                    Held::Opaque(c) => Held::Opaque(c.clone()),
                };
                all.push(c);
            }
            1 => {
                let c = match all.remove(0) {
                    Held::Typed(c) => Held::Opaque(c.into_opaque()),
                    c => c,
                };
                all.push(c);
            }
            _ => drop(all.remove(0)),
        }
        if all.is_empty() {
            break;
        }
        check(dropped() == 0, "a payload stays while its closure does");
        for c in &all {
            check(c.entry() == f, "a closure keeps its entry function");
            check(c.value() == v, "a closure keeps its payload");
        }
    }
    drop(all);
    check(dropped() == 1, "a payload is dropped once");
    check(live() == before, "closures are freed");
    cover(1);
}

fn sizes() {
    let before = live();
    let (a, b, c) = (sym::u8(), sym::u64(), sym::bytes::<21>());
    {
        let x = Closure::new(core::ptr::null(), a);
        let y = Closure::new(core::ptr::null(), (a, b, a));
        let z = Closure::new(core::ptr::null(), c);
        let w = Closure::new(core::ptr::null(), ());
        unsafe {
            check(*x.payload() == a, "a closure keeps its payload");
            check(*y.payload() == (a, b, a), "a closure keeps its payload");
            let mut d = 0;
            for i in 0..21 {
                d |= (*z.payload())[i] ^ c[i];
            }
            check(d == 0, "a closure keeps its payload");
        }
        check(w.entry_function().is_null(), "a closure keeps its entry function");
        let y = y.into_opaque();
        drop((x, z, w));
        unsafe { check(*(y.payload() as *const (u8, u64, u8)) == (a, b, a), "a closure keeps its payload") };
    }
    check(live() == before, "closures are freed");
    cover(1);
}

/// Compiled code drops a closure through the functions that its metadata points to.
sym::entries! {
    fn t_f05_closures() { closures(4) }
    fn d_f05_closures() { closures(8) }
    fn t_f05_sizes() { sizes() }
}
