//! K04: numbers, their bits, and the characters they stand for.
use crate::common::{same, Text};
use crate::utf8::characters;
use ffi::{Boolean, ByteString, Number};
use sym::{check, cover, pick};

extern "C" {
    fn _pen_core_absolute(x: Number) -> Number;
    fn _pen_core_ceil(x: Number) -> Number;
    fn _pen_core_floor(x: Number) -> Number;
    fn _pen_core_fraction(x: Number) -> Number;
    fn _pen_core_round(x: Number) -> Number;
    fn _pen_core_truncate(x: Number) -> Number;
    fn _pen_core_is_nan(x: Number) -> Boolean;
    fn _pen_core_nan() -> Number;
    fn _pen_core_infinity() -> Number;
    fn _pen_core_epsilon() -> Number;
    fn _pen_core_bit_and(x: Number, y: Number) -> Number;
    fn _pen_core_bit_or(x: Number, y: Number) -> Number;
    fn _pen_core_bit_xor(x: Number, y: Number) -> Number;
    fn _pen_core_bit_not(x: Number) -> Number;
    fn _pen_core_bit_left_shift(x: Number, count: Number) -> Number;
    fn _pen_core_bit_right_shift(x: Number, count: Number) -> Number;
    fn _pen_core_bit_to_integer_64(x: Number) -> Number;
    fn _pen_core_bit_from_integer_64(x: Number) -> Number;
    fn _pen_core_character_from_code_point(x: Number) -> ByteString;
    fn _pen_core_character_to_code_point(x: ByteString) -> Number;
}

fn bits(x: Number) -> u64 {
    f64::from(x).to_bits()
}

fn number(x: u64) -> Number {
    f64::from_bits(x).into()
}

fn logic() {
    let (x, y) = (sym::u64(), sym::u64());
    unsafe {
        check(bits(_pen_core_bit_and(number(x), number(y))) == x & y, "and of all bits");
        check(bits(_pen_core_bit_or(number(x), number(y))) == x | y, "or of all bits");
        check(bits(_pen_core_bit_xor(number(x), number(y))) == x ^ y, "exclusive or of all bits");
        check(bits(_pen_core_bit_not(number(x))) == !x, "not of all bits");
    }
    cover(1);
}

/// By every whole count.
fn shift() {
    let x = sym::u64();
    let n = sym::u16();
    let (l, r) = unsafe {
        let count = || Number::from(n as f64);
        (
            bits(_pen_core_bit_left_shift(number(x), count())),
            bits(_pen_core_bit_right_shift(number(x), count())),
        )
    };
    if n < 64 {
        cover(1);
        check(l == x << n, "bits move to the left");
        check(r == x >> n, "bits move to the right");
    } else {
        cover(2);
        check(l == 0 && r == 0, "bits that move out are lost");
    }
}

fn integer() {
    let n = sym::u64();
    if n <= 1 << 53 {
        cover(1);
        let i = unsafe { _pen_core_bit_to_integer_64((n as f64).into()) };
        check(bits(i) == n, "a whole number becomes the integer");
        check(f64::from(unsafe { _pen_core_bit_from_integer_64(i) }) == n as f64, "an integer becomes the number");
    } else {
        cover(2);
        let x = f64::from(unsafe { _pen_core_bit_from_integer_64(number(n)) });
        check(x >= 9007199254740992.0 && x <= 18446744073709551616.0, "a large integer becomes a number like it");
    }
}

/// 2^52, from which on numbers are whole.
const WHOLE: f64 = 4503599627370496.0;

fn whole(x: f64) -> bool {
    let e = (x.to_bits() >> 52 & 0x7ff) as u32;
    let m = x.to_bits() & ((1 << 52) - 1);
    if e < 1023 {
        e == 0 && m == 0
    } else {
        e >= 1075 || m & ((1 << 52) - 1 >> (e - 1023)) == 0
    }
}

fn rounding() {
    let x = sym::f64();
    let of = |f: unsafe extern "C" fn(Number) -> Number| f64::from(unsafe { f(x.into()) });
    match pick(6) {
        0 => {
            let y = of(_pen_core_absolute);
            check(y.to_bits() == x.to_bits() & !(1 << 63), "an absolute value has no sign");
        }
        1 => {
            let y = bool::from(unsafe { _pen_core_is_nan(x.into()) });
            check(y == (x != x), "what is no number is told");
        }
        k => {
            let y = match k {
                2 => of(_pen_core_ceil),
                3 => of(_pen_core_floor),
                4 => of(_pen_core_round),
                _ => of(_pen_core_truncate),
            };
            if x.is_nan() {
                check(y.is_nan(), "what is no number stays none");
            } else if !(-WHOLE < x && x < WHOLE) {
                cover(1);
                check(y == x, "large numbers are whole already");
            } else {
                cover(2);
                check(whole(y), "a rounded number is whole");
                let (down, up) = (y <= x && x < y + 1.0, y - 1.0 < x && x <= y);
                check(
                    match k {
                        2 => up,
                        3 => down,
                        4 if x < 0.0 => y - 0.5 < x && x <= y + 0.5,
                        4 => y - 0.5 <= x && x < y + 0.5,
                        _ if x < 0.0 => up,
                        _ => down,
                    },
                    "a rounded number is next to it on the right side",
                );
            }
        }
    }
}

fn fraction() {
    let x = sym::f64();
    let y = f64::from(unsafe { _pen_core_fraction(x.into()) });
    if x.is_nan() || !(-WHOLE < x && x < WHOLE) {
        cover(1);
        check(y == 0.0 || y.is_nan(), "large numbers have no fraction");
    } else if whole(x) {
        cover(2);
        check(y == 0.0, "whole numbers have no fraction");
    } else {
        cover(3);
        check(if x < 0.0 { -1.0 < y && y < 0.0 } else { 0.0 < y && y < 1.0 }, "a fraction is less than one");
        if -1.0 < x && x < 1.0 {
            check(y == x, "what is less than one is its own fraction");
        }
    }
}

/// Of numbers of 16ths.
fn fraction_parts() {
    let (w, n) = (sym::u8(), sym::u8());
    sym::assume(n < 16);
    let x = w as f64 + n as f64 * 0.0625;
    let y = f64::from(unsafe { _pen_core_fraction(x.into()) });
    check(y == n as f64 * 0.0625, "a fraction is what is left without the whole part");
    cover(1);
}

fn constants() {
    unsafe {
        check(f64::from(_pen_core_nan()).is_nan(), "not a number");
        check(f64::from(_pen_core_infinity()).to_bits() == 0x7ff << 52, "infinity");
        let e = f64::from(_pen_core_epsilon());
        check(1.0 + e > 1.0 && 1.0 + e / 2.0 == 1.0, "epsilon is the distance from one to the next number");
    }
    cover(1);
}

fn from_code_point() {
    let n = sym::u32();
    let s = unsafe { _pen_core_character_from_code_point((n as f64).into()) };
    let b = s.as_slice();
    if n < 0xd800 || n > 0xdfff && n < 0x110000 {
        cover(1);
        let cs = characters(b);
        check(cs.is_some_and(|c| c.len() == 1), "a code point becomes one character");
        let back = unsafe { _pen_core_character_to_code_point(s.clone()) };
        check(f64::from(back) == n as f64, "its character has the code point");
        let k = match b.len() {
            1 => b[0] as u32,
            2 => (b[0] as u32 & 31) << 6 | b[1] as u32 & 63,
            3 => (b[0] as u32 & 15) << 12 | (b[1] as u32 & 63) << 6 | b[2] as u32 & 63,
            _ => (b[0] as u32 & 7) << 18 | (b[1] as u32 & 63) << 12 | (b[2] as u32 & 63) << 6 | b[3] as u32 & 63,
        };
        check(k == n, "its character is that of the code point");
    } else {
        cover(2);
        check(b.is_empty(), "what is no code point has no character");
    }
}

fn to_code_point<const N: usize>() {
    let s = Text::<N>::new();
    let x = unsafe { _pen_core_character_to_code_point(s.string()) };
    match characters(s.bytes()) {
        Some(c) if !c.is_empty() => {
            cover(1);
            let r = unsafe { _pen_core_character_from_code_point(x) };
            check(same(r.as_slice(), &s.bytes()[..c[0]]), "the code point is that of the first character");
        }
        _ => {
            cover(2);
            check(f64::from(x).is_nan(), "what has no character has no code point");
        }
    }
}

sym::entries! {
    fn t_k04_logic() { logic() }
    fn t_k04_shift() { shift() }
    fn t_k04_integer() { integer() }
    fn t_k04_rounding() { rounding() }
    fn t_k04_fraction() { fraction() }
    fn t_k04_parts() { fraction_parts() }
    fn t_k04_constants() { constants() }
    fn t_k04_from_code() { from_code_point() }
    fn t_k04_to_code() { to_code_point::<5>() }
}
