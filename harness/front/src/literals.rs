//! N01: what literals stand for.
use ast::*;
use hir::ir;
use position::Position;
use sym::*;

pub fn place() -> Position {
    Position::new("m", 1, 1, "")
}

/// What an expression is made into.
fn compile(e: impl Into<Expression>) -> Option<ir::Expression> {
    let t = types::Reference::new("none", place());
    let b = Block::new(vec![], e, place());
    let f = FunctionDefinition::new("f", Lambda::new(vec![], t, b, place()), None, place());
    let m = Module::new(vec![], vec![], vec![], vec![f], place());
    let m = ast_hir::compile_prelude(&m, "").ok()?;
    let [f] = m.function_definitions() else { fail("the function is kept") };
    Some(f.lambda().body().clone())
}

/// Characters and escapes one after another, as the grammar has them.
pub fn string(pieces: usize) {
    let (mut text, mut bytes) = (vec![], vec![]);
    for _ in 0..pieces {
        match pick(3) {
            0 => {
                let b = u8();
                assume(b < 128 && b != b'"' && b != b'\\');
                text.push(b);
                bytes.push(b);
            }
            1 => {
                let k = pick(5);
                text.extend([b'\\', b"\\\"nrt"[k]]);
                bytes.push(b"\\\"\n\r\t"[k]);
            }
            _ => {
                text.extend(b"\\x");
                let mut n = 0;
                for _ in 0..2 {
                    let d = u8();
                    assume(d < 16);
                    let c = if d < 10 { b'0' + d } else if bool() { b'a' - 10 + d } else { b'A' - 10 + d };
                    text.push(c);
                    n = n * 16 + d;
                }
                bytes.push(n);
            }
        }
    }
    let s = unsafe { String::from_utf8_unchecked(text) };
    match compile(ByteString::new(s, place())) {
        Some(ir::Expression::String(s)) => check(s.value() == bytes, "a string is the bytes that its characters and escapes stand for"),
        _ => fail("a string is made into a string"),
    }
    cover(1);
}

fn number(r: NumberRepresentation) -> Option<f64> {
    match compile(Number::new(r, place()))? {
        ir::Expression::Number(n) => Some(n.value()),
        _ => fail("a number is made into a number"),
    }
}

fn digit(d: u8) -> char {
    (if d < 10 { b'0' + d } else { b'a' - 10 + d }) as char
}

/// Whole numbers in powers of two.
pub fn whole(bits: u32, digits: usize) {
    let mut n = 0u64;
    let s = (0..digits)
        .map(|_| {
            let d = u8();
            assume((d as u32) < 1 << bits);
            n = n << bits | d as u64;
            digit(d)
        })
        .collect::<String>();
    let r = if bits == 1 { NumberRepresentation::Binary(s) } else { NumberRepresentation::Hexadecimal(s) };
    check(number(r) == Some(n as f64), "a number is the value of its digits");
    cover(1);
}

/// What 64 bits cannot hold is refused, and what they can is as exact as a number can be.
pub fn long() {
    let l = [u8(), u8()];
    assume(l[0] < 16 && l[1] < 16);
    let zero = bool();
    let mut s = String::from(if zero { "0" } else { "" });
    let more = bool();
    if more {
        s.push('1');
    }
    s.push(digit(l[0]));
    s += "00000000000000";
    s.push(digit(l[1]));
    let n = (l[0] as u64) << 60 | l[1] as u64;
    let r = number(NumberRepresentation::Hexadecimal(s));
    check(r == if more { None } else { Some(n as f64) }, "a number is the value of its digits, if it is in range");
    cover(1 + more as u32);
}

pub fn decimal() {
    let d = [u8(), u8(), u8()];
    assume(d.iter().all(|d| *d < 10));
    let point = pick(3);
    let mut s = String::new();
    for (i, d) in d.iter().enumerate() {
        if i > 0 && i == point {
            s.push('.');
        }
        s.push(digit(*d));
    }
    let n = d.iter().fold(0u32, |n, d| n * 10 + *d as u32) as f64 / [1.0, 100.0, 10.0][point];
    check(number(NumberRepresentation::FloatingPoint(s)) == Some(n), "a number is the value of its digits");
    cover(1);
}

/// What the crate regex asks of the system: how many threads there are, one.
mod system {
    use core::ffi::{c_char, c_int, c_long, c_void};
    unsafe extern "C" {
        fn __errno_location() -> *mut c_int;
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn open64(_: *const c_char, _: c_int) -> c_int {
        unsafe { *__errno_location() = 2 };
        -1
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn sched_getaffinity(_: c_int, _: usize, _: *mut c_void) -> c_int {
        unsafe { *__errno_location() = 38 };
        -1
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn sysconf(_: c_int) -> c_long {
        1
    }
}
