//! K05: what maps rely on: equality of strings, hashes, and the indexes made of them.
use crate::common::{same, Text};
use ffi::{Boolean, ByteString, Number};
use sym::{check, cover};

extern "C" {
    fn _pen_prelude_equal_strings(one: ByteString, other: ByteString) -> Boolean;
    fn _pen_prelude_combine_hashes(one: Number, other: Number) -> Number;
    fn _pen_prelude_hash_number(number: Number) -> Number;
    fn _pen_prelude_hash_string(string: ByteString) -> Number;
    fn _pen_prelude_hash_to_index(hash: Number, layer: Number, level: Number) -> Number;
}

/// The levels of a layer, by packages/prelude/Map.pen.
const LEVELS: u64 = 13;

fn bits(x: Number) -> u64 {
    f64::from(x).to_bits()
}

fn number(x: u64) -> Number {
    f64::from_bits(x).into()
}

fn equal<const N: usize>() {
    let (s, t) = (Text::<N>::new(), Text::<N>::new());
    let r = bool::from(unsafe { _pen_prelude_equal_strings(s.string(), t.string()) });
    check(r == same(s.bytes(), t.bytes()), "strings are equal exactly when their bytes are");
    if r {
        cover(1);
    } else {
        cover(2);
    }
}

/// Equal numbers hash alike, and so do all that are no numbers.
fn hash_number() {
    // numbers are equal that are the same, or are both zeros
    let bits = match sym::pick(3) {
        0 => {
            let x = sym::u64();
            (x, x)
        }
        1 => ((sym::bool() as u64) << 63, (sym::bool() as u64) << 63),
        _ => {
            let (x, y) = (sym::u64(), sym::u64());
            sym::assume(f64::from_bits(x).is_nan() && f64::from_bits(y).is_nan());
            (x, y)
        }
    };
    let (x, y) = (f64::from_bits(bits.0), f64::from_bits(bits.1));
    let (a, b) = unsafe { (_pen_prelude_hash_number(x.into()), _pen_prelude_hash_number(y.into())) };
    check(f64::from(a).to_bits() == f64::from(b).to_bits(), "equal numbers hash alike");
    if x.to_bits() != y.to_bits() {
        cover(1);
    }
}

fn hash_string<const N: usize>() {
    let s = Text::<N>::new();
    let a = bits(unsafe { _pen_prelude_hash_string(s.string()) });
    let b = bits(unsafe { _pen_prelude_hash_string(s.bytes().to_vec().into()) });
    check(a == b, "equal strings hash alike");
    cover(1);
}

/// Combining is one to one in each of the two.
fn combine() {
    let (a, b, c) = (sym::u64(), sym::u64(), sym::u64());
    let of = |x, y| bits(unsafe { _pen_prelude_combine_hashes(number(x), number(y)) });
    if b != c {
        check(of(a, b) != of(a, c), "other hashes combined are other hashes");
        check(of(b, a) != of(c, a), "other hashes combined are other hashes");
        cover(1);
    }
}

fn index() {
    let (hash, layer) = (sym::u64(), sym::u64());
    let level = sym::u8() as u64;
    sym::assume(level >= 1 && level <= LEVELS);
    let i = f64::from(unsafe { _pen_prelude_hash_to_index(number(hash), number(layer), (level as f64).into()) });
    let mut one = false;
    for k in 1..=32 {
        one |= i == k as f64;
    }
    check(one, "an index is a whole number from 1 to 32");
    cover(1);
}

/// Keys of different hashes part at some level of each layer.
fn separate() {
    // every number is one and only one product with an odd number: taking these spares the solver the division
    let any = || sym::u64().wrapping_mul(0xef7b_def7_bdef_7bdf);
    let (a, b) = (any(), any());
    let layer = sym::pick(3) as f64 + 1.0;
    sym::assume(a != b);
    let mut same = true;
    for level in 1..=LEVELS {
        let of = |h| unsafe {
            f64::from(_pen_prelude_hash_to_index(number(h), layer.into(), (level as f64).into())) as u64
        };
        same &= of(a) == of(b);
    }
    check(!same, "keys of different hashes part at some level");
    cover(1);
}

sym::entries! {
    fn t_k05_equal() { equal::<4>() }
    fn d_k05_equal() { equal::<12>() }
    fn t_k05_hash_number() { hash_number() }
    fn t_k05_hash_string() { hash_string::<4>() }
    fn d_k05_hash_string() { hash_string::<12>() }
    fn t_k05_combine() { combine() }
    fn t_k05_index() { index() }
    fn t_k05_separate() { separate() }
}
