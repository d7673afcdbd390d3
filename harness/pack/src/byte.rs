//! K01: strings as bytes, and views of them.
use crate::common::{same, Text};
use ffi::{Boolean, ByteString, Number};
use sym::{check, cover, pick};

extern "C" {
    fn _pen_core_string_starts_with(string: ByteString, prefix: ByteString) -> Boolean;
    fn _pen_core_byte_length(string: ByteString) -> Number;
    fn _pen_core_byte_slice(string: ByteString, start: Number, end: Number) -> ByteString;
    fn _pen_core_view_starts_with(string: ByteString, start: Number, end: Number, prefix: ByteString) -> Boolean;
    fn _pen_core_view_to_string(string: ByteString, start: Number, end: Number) -> ByteString;
}

fn length<const N: usize>() {
    let s = Text::<N>::new();
    let n = f64::from(unsafe { _pen_core_byte_length(s.string()) });
    check(n == s.bytes().len() as f64, "the length is the number of bytes");
    cover(1);
}

/// From and to any numbers, whole or not.
fn slice<const N: usize>() {
    let s = Text::<N>::new();
    let (start, end) = (sym::f64(), sym::f64());
    let r = unsafe { _pen_core_byte_slice(s.string(), start.into(), end.into()) };
    let r = r.as_slice();
    // A slice is never anything else than some consecutive bytes of the string.
    let n = s.bytes().len();
    let mut part = r.is_empty();
    for i in 0..n {
        if i + r.len() <= n {
            part |= same(&s.bytes()[i..i + r.len()], r);
        }
    }
    check(part, "a slice is a part of its string");
}

/// The bytes at the positions from `start` to `end`, of which the first is 1, as far as there are any.
fn slice_whole<const N: usize>() {
    let s = Text::<N>::new();
    let (start, end) = (sym::u8() as i8 as i64, sym::u8() as i8 as i64);
    let infinite = pick(3);
    let x = if infinite == 1 { f64::NEG_INFINITY } else { start as f64 };
    let y = if infinite == 2 { f64::INFINITY } else { end as f64 };
    let start = if infinite == 1 { i64::MIN } else { start };
    let end = if infinite == 2 { i64::MAX } else { end };
    let r = unsafe { _pen_core_byte_slice(s.string(), x.into(), y.into()) };
    let mut expected = vec![];
    for (i, &b) in s.bytes().iter().enumerate() {
        let i = i as i64 + 1;
        if start <= i && i <= end {
            expected.push(b);
        }
    }
    check(same(r.as_slice(), &expected), "a slice is the bytes between its positions");
    if expected.len() > 1 {
        cover(1);
    }
    if expected.is_empty() {
        cover(2);
    }
}

fn starts_with<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    let r = bool::from(unsafe { _pen_core_string_starts_with(s.string(), p.string()) });
    let (s, p) = (s.bytes(), p.bytes());
    check(
        r == (s.len() >= p.len() && same(&s[..p.len()], p)),
        "a string starts with its first bytes and nothing else",
    );
    if r {
        cover(1);
    } else {
        cover(2);
    }
}

/// Of the views there are: a position in the string, or the one after it, and an end not further than one before it.
fn view<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    let n = s.bytes().len();
    let start = pick(n + 1);
    let end = start + pick(n - start + 1);
    let (x, y) = (start as f64 + 1.0, end as f64);
    let v = &s.bytes()[start..end];
    let r = unsafe { _pen_core_view_to_string(s.string(), x.into(), y.into()) };
    check(same(r.as_slice(), v), "a view is the bytes between its positions");
    let r = bool::from(unsafe { _pen_core_view_starts_with(s.string(), x.into(), y.into(), p.string()) });
    let p = p.bytes();
    check(
        r == (v.len() >= p.len() && same(&v[..p.len()], p)),
        "a view starts with its first bytes and nothing else",
    );
    if r {
        cover(1);
    } else {
        cover(2);
    }
}

sym::entries! {
    fn t_k01_length() { length::<4>() }
    fn t_k01_slice() { slice::<3>() }
    fn t_k01_whole() { slice_whole::<3>() }
    fn d_k01_whole() { slice_whole::<8>() }
    fn t_k01_starts() { starts_with::<4, 4>() }
    fn d_k01_starts() { starts_with::<9, 9>() }
    fn t_k01_view() { view::<4, 4>() }
    fn d_k01_view() { view::<7, 5>() }
}
