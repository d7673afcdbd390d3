//! K08: states of tests.
use crate::builtin::number;
use ffi::{Any, Arc, None, Number};
use sym::{check, cover, live, pick};

#[repr(C)]
struct State(Arc<Any>);

impl Clone for State {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

extern "C" {
    fn _pen_test_state_new() -> State;
    fn _pen_test_state_freeze(state: State) -> None;
    fn _pen_test_state_get(state: State) -> Any;
    fn _pen_test_state_set(state: State, value: Any) -> None;
}

fn any(x: u64) -> Any {
    number::pen_ffi_number_to_any(f64::from_bits(x).into())
}

/// The bits of a number, or none.
fn value(x: Any) -> Option<u64> {
    core::ptr::eq(x.type_information(), &number::INFORMATION)
        .then(|| f64::from(Number::from(number::pen_ffi_any_to_number(x))).to_bits())
}

fn sequence<const N: usize>() {
    let before = live();
    unsafe {
        let s = _pen_test_state_new();
        let mut expected = Option::None;
        for _ in 0..N {
            match pick(3) {
                0 => {
                    let x = sym::u64();
                    _pen_test_state_set(s.clone(), any(x));
                    expected = Some(x);
                }
                1 => {
                    let x = value(_pen_test_state_get(s.clone()));
                    check(x == expected, "a state holds the value set last");
                    cover(1);
                }
                _ => {
                    _pen_test_state_freeze(s.clone());
                }
            }
        }
    }
    check(live() == before, "states are freed");
}

struct Shared {
    state: State,
}

/// A read that is not the only one at the time.
extern "C" fn read_too(p: *mut u8) {
    let s = unsafe { &*(p as *const Shared) };
    let x = value(unsafe { _pen_test_state_get(s.state.clone()) });
    check(x.is_some(), "a read gives a value while another reads it");
    check(x == Some(7), "a read gives a value that was set");
}

extern "C" fn read(p: *mut u8) {
    let s = unsafe { &*(p as *const Shared) };
    let x = value(unsafe { _pen_test_state_get(s.state.clone()) });
    check(x == Some(7) || x == Some(8), "a read gives a value that was set");
}

extern "C" fn write(p: *mut u8) {
    let s = unsafe { &*(p as *const Shared) };
    unsafe { _pen_test_state_set(s.state.clone(), any(8)) };
}

fn readers(writer: bool) {
    let s = unsafe { _pen_test_state_new() };
    unsafe { _pen_test_state_set(s.clone(), any(7)) };
    s.0.clone().synchronize();
    let shared = Shared { state: s };
    let p = &shared as *const Shared as *mut u8;
    if writer {
        sym::spawn(read, p);
        sym::spawn(write, p);
    } else {
        sym::spawn(read_too, p);
        sym::spawn(read_too, p);
    }
    sym::join();
    let x = value(unsafe { _pen_test_state_get(shared.state.clone()) });
    if writer {
        check(x != Some(7), "a value that is set while another is read is kept");
        check(x == Some(8), "a state keeps the value set last");
    } else {
        check(x.is_some(), "a state keeps a value that two read");
        check(x == Some(7), "a state keeps the value set last");
    }
    cover(1);
}

sym::entries! {
    fn t_k08_sequence() { sequence::<4>() }
    fn d_k08_sequence() { sequence::<7>() }
    fn t_k08_readers() { readers(false) }
    fn t_k08_writer() { readers(true) }
}
