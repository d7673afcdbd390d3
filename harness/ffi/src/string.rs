//! F03: byte strings hold exactly the bytes they are made from.
use core::hash::{Hash, Hasher};
use pen_ffi::ByteString;
use sym::{check, cover, live, pick};

fn same(a: &[u8], b: &[u8]) -> bool {
    // without branches on the bytes
    let mut d = (a.len() ^ b.len()) as u64;
    if d == 0 {
        for i in 0..a.len() {
            d |= (a[i] ^ b[i]) as u64;
        }
    }
    d == 0
}

#[derive(Default)]
struct Sum(u64);

impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = self.0.rotate_left(9) ^ b as u64;
        }
    }
}

fn hash(s: &ByteString) -> u64 {
    let mut h = Sum::default();
    s.hash(&mut h);
    h.finish()
}

fn bytes<const N: usize>() {
    let data: [u8; N] = sym::bytes();
    let n = pick(N + 1);
    let before = live();
    {
        let s = match pick(2) {
            0 => ByteString::from(&data[..n]),
            _ => ByteString::from(data[..n].to_vec()),
        };
        check(same(s.as_slice(), &data[..n]), "a string holds the bytes it is made from");
        let t = s.clone();
        check(t == s, "a clone equals its string");
        drop(s);
        check(same(t.as_slice(), &data[..n]), "a clone holds the bytes of its string");
        sym::observe(hash(&t));
    }
    check(live() == before, "strings are freed");
    cover(1);
}

/// Strings are equal when their bytes are, and equal strings hash alike.
fn equality<const N: usize>() {
    let (a, b): ([u8; N], [u8; N]) = (sym::bytes(), sym::bytes());
    let (n, m) = (pick(N + 1), pick(N + 1));
    let (s, t) = (ByteString::from(&a[..n]), ByteString::from(&b[..m]));
    let equal = s == t;
    check(equal == same(&a[..n], &b[..m]), "strings are equal exactly when their bytes are");
    check(equal == (t == s), "equality is symmetric");
    if equal {
        cover(1);
        check(hash(&s) == hash(&t), "equal strings hash alike");
    } else {
        cover(2);
    }
}

fn text<const N: usize>() {
    let data: [u8; N] = sym::bytes();
    if let Ok(t) = core::str::from_utf8(&data) {
        cover(1);
        match pick(2) {
            0 => check(same(ByteString::from(t).as_slice(), &data), "a string holds the text it is made from"),
            _ => check(
                same(ByteString::from(String::from(t)).as_slice(), &data),
                "a string holds the text it is made from",
            ),
        }
    }
}

fn character() {
    if let Some(c) = char::from_u32(sym::u32()) {
        cover(1);
        let n = c as u32;
        let s = ByteString::from(c);
        let u = s.as_slice();
        let b = |k: u32, m: u32| (0x80 | (n >> k & 0x3f & m)) as u8;
        if n < 0x80 {
            check(same(u, &[n as u8]), "a character is one byte");
        } else if n < 0x800 {
            check(same(u, &[0xc0 | (n >> 6) as u8, b(0, 63)]), "a character is its encoding");
        } else if n < 0x10000 {
            check(same(u, &[0xe0 | (n >> 12) as u8, b(6, 63), b(0, 63)]), "a character is its encoding");
        } else {
            check(
                same(u, &[0xf0 | (n >> 18) as u8, b(12, 63), b(6, 63), b(0, 63)]),
                "a character is its encoding",
            );
        }
    }
}

sym::entries! {
    fn t_f03_bytes() { bytes::<6>() }
    fn d_f03_bytes() { bytes::<40>() }
    fn t_f03_equality() { equality::<4>() }
    fn d_f03_equality() { equality::<10>() }
    fn t_f03_text() { text::<3>() }
    fn d_f03_text() { text::<6>() }
    fn t_f03_character() { character() }
    fn t_f03_default() {
        check(ByteString::default().as_slice().is_empty(), "the default string is empty");
        check(ByteString::default() == ByteString::from(""), "the default string is empty");
        cover(1);
    }
}
