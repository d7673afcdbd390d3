//! K07: numbers as texts.
use crate::builtin::{error, number};
use crate::common::{same, Text};
use ffi::extra::Result;
use ffi::{Any, ByteString, Number};
use sym::{check, cover};

extern "C" {
    fn _pen_json_decode_number(string: ByteString) -> Number;
    fn _pen_json_encode_number(number: Number) -> ByteString;
    fn _pen_core_parse_number(string: ByteString) -> Result;
    fn _pen_core_convert_number_to_string(number: Number) -> ByteString;
    fn _pen_prelude_debug_number(number: Number) -> ByteString;
}

fn raw<const N: usize>() {
    let s = Text::<N>::new();
    let x = f64::from(unsafe { _pen_json_decode_number(s.string()) });
    // the other reader of numbers agrees
    let r: Any = unsafe { core::mem::transmute(_pen_core_parse_number(s.string())) };
    if core::ptr::eq(r.type_information(), &number::INFORMATION) {
        let y = f64::from(number::pen_ffi_any_to_number(r));
        check(x == y || x.is_nan() && y.is_nan(), "a text stands for one number");
    } else {
        check(core::ptr::eq(r.type_information(), &error::INFORMATION), "a text that is no number is an error");
        check(x.is_nan(), "a text that is no number stands for none");
        cover(2);
    }
    // digits, with a sign before and a point between
    let b = s.bytes();
    let (negative, d) = match b {
        [b'-', d @ ..] => (true, d),
        d => (false, d),
    };
    let mut parts = d.split(|&c| c == b'.');
    let (w, f) = (parts.next().unwrap(), parts.next());
    let digits = |d: &[u8]| !d.is_empty() && d.iter().all(u8::is_ascii_digit);
    if !digits(w) || parts.next().is_some() || f.is_some_and(|f| !digits(f)) {
        return;
    }
    let (mut n, mut scale) = (0u64, 1u64);
    for &c in w {
        n = n * 10 + (c - b'0') as u64;
    }
    for &c in f.unwrap_or_default() {
        n = n * 10 + (c - b'0') as u64;
        scale *= 10;
    }
    let y = n as f64 / scale as f64;
    cover(1);
    check(x == if negative { -y } else { y }, "a text becomes the number it stands for");
}

fn round(n: f64) {
    let s = unsafe { _pen_json_encode_number(n.into()) };
    for of in [_pen_core_convert_number_to_string, _pen_prelude_debug_number] {
        check(same(unsafe { of(n.into()) }.as_slice(), s.as_slice()), "a number has one text");
    }
    check(
        s.as_slice().iter().all(|c| c.is_ascii_digit() || b"-.".contains(c)),
        "a text of a number is digits with a sign and a point",
    );
    let x = unsafe { _pen_json_decode_number(s) };
    check(f64::from(x) == n, "a number is read as it was written");
    cover(1);
}

sym::entries! {
    fn t_k07_raw() { raw::<3>() }
    fn d_k07_raw() { raw::<4>() }
    fn t_k07_round() { round(sym::u8() as i8 as f64) }
    fn t_k07_round_parts() { round(sym::u8() as i8 as f64 * 0.25) }
    fn d_k07_round() { round(sym::u8() as f64) }
    fn d_k07_round_parts() { round(sym::u8() as f64 * 0.0625) }
}
