//! K03: strings made of strings.
use crate::common::{same, Text};
use ffi::{Any, Arc, ByteString};
use sym::{check, cover, live, pick};

#[repr(C)]
struct StringBuilder(Arc<Any>);

extern "C" {
    fn _pen_core_string_builder_create() -> StringBuilder;
    fn _pen_core_string_builder_append(builder: StringBuilder, string: ByteString) -> StringBuilder;
    fn _pen_core_string_builder_build(builder: StringBuilder, separator: ByteString) -> ByteString;
}

fn join<const K: usize, const N: usize>() {
    let before = live();
    {
        let separator = Text::<2>::new();
        let n = pick(K + 1);
        let mut expected = vec![];
        let mut b = unsafe { _pen_core_string_builder_create() };
        for i in 0..n {
            let s = Text::<N>::new();
            b = unsafe { _pen_core_string_builder_append(b, s.string()) };
            if i > 0 {
                expected.extend(separator.bytes());
            }
            expected.extend(s.bytes());
        }
        let r = unsafe { _pen_core_string_builder_build(b, separator.string()) };
        check(same(r.as_slice(), &expected), "a joined string is the strings in order, with separators between");
        if n > 1 {
            cover(1);
        }
    }
    check(live() == before, "builders are freed");
}

/// More strings than a builder has room for at first.
fn many<const K: usize>() {
    let data: [u8; K] = sym::bytes();
    let separator = Text::<1>::new();
    let mut expected = vec![];
    let mut b = unsafe { _pen_core_string_builder_create() };
    for (i, x) in data.iter().enumerate() {
        b = unsafe { _pen_core_string_builder_append(b, [*x].as_slice().into()) };
        if i > 0 {
            expected.extend(separator.bytes());
        }
        expected.push(*x);
    }
    let r = unsafe { _pen_core_string_builder_build(b, separator.string()) };
    check(same(r.as_slice(), &expected), "a joined string is the strings in order, with separators between");
    cover(1);
}

sym::entries! {
    fn t_k03_join() { join::<3, 2>() }
    fn d_k03_join() { join::<5, 3>() }
    fn t_k03_many() { many::<20>() }
    fn d_k03_many() { many::<100>() }
}
