//! Not a property: the executor's own encodings of floating-point operations against the machine's.
use core::hint::black_box as b;

const N: usize = 64;

fn value(i: usize) -> u64 {
    // around the places where something changes
    let base = [
        0.0f64, f64::MIN_POSITIVE, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 255.5, 4294967295.0, 4294967295.5,
        2147483648.0, 4503599627370495.5, 4503599627370496.0, 9007199254740991.0, 9007199254740993.0,
        9223372036854775807.0, 9223372036854775808.0, 18446744073709551615.0, 18446744073709549568.0, 1e30,
        f64::MAX, f64::INFINITY, f64::NAN, f64::EPSILON, 123456.789, 1e-300, 5e-324, 0.1,
    ][i % 32];
    let x = if i / 32 == 1 { -base } else { base };
    x.to_bits()
}

fn f(v: u64) -> f64 {
    f64::from_bits(v)
}

fn ops(v: u64, k: u64) -> u64 {
    let x = f(v);
    match k {
        0 => x.floor().to_bits(),
        1 => x.ceil().to_bits(),
        2 => x.trunc().to_bits(),
        3 => x.round().to_bits(),
        4 => x.round_ties_even().to_bits(),
        5 => x as u64,
        6 => x as i64 as u64,
        7 => x as u32 as u64,
        8 => x as i32 as u64,
        9 => x as u8 as u64,
        10 => (v as f64).to_bits(),
        11 => (v as i64 as f64).to_bits(),
        12 => (v as u32 as f64).to_bits(),
        13 => (v as i16 as f64).to_bits(),
        14 => x.is_nan() as u64,
        15 => (x < 1.5) as u64 | (((x <= 2.0) as u64) << 1) | (((x == 0.0) as u64) << 2) | (((x > -1.0) as u64) << 3),
        16 => (x as f32).floor().to_bits() as u64,
        17 => (x as f32) as u64,
        18 => (x.abs().to_bits()) ^ (-x).to_bits(),
        19 => ((x + 0.1) as f32).to_bits() as u64,
        20 => (x < f(value(3))) as u64,
        _ => v.wrapping_mul(3),
    }
}

sym::entries! {
    fn x_float() {
        let i = sym::pick(N);
        let k = sym::pick(22) as u64;
        let v = sym::u64();
        let want = b(value(b(i)));
        sym::assume(v == want || v == want.wrapping_add(1) || v == want.wrapping_sub(1));
        let d = sym::concrete(v.wrapping_sub(want).wrapping_add(1)).wrapping_sub(1);
        let c = want.wrapping_add(d);
        let nan = (k < 5 || k == 16 || k == 18 || k == 19) && f(c).is_nan();
        let (x, y) = (ops(v, k), ops(c, k));
        if !nan {
            sym::check(x == y, "the encoding agrees");
        } else {
            sym::check(f(x).is_nan() || k > 15, "the encoding agrees");
        }
        sym::cover(1);
    }
}
