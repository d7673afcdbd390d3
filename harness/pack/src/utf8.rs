//! K02: strings as texts.
use crate::builtin::{elements, string};
use crate::common::{same, Text};
use ffi::{Any, Boolean, ByteString, List, Number};
use sym::{check, cover, pick};

extern "C" {
    fn _pen_core_utf8_characters(string: ByteString) -> List;
    fn _pen_core_utf8_contains(string: ByteString, pattern: ByteString) -> Boolean;
    fn _pen_core_utf8_find(string: ByteString, pattern: ByteString) -> Number;
    fn _pen_core_utf8_starts_with(string: ByteString, pattern: ByteString) -> Boolean;
    fn _pen_core_utf8_ends_with(string: ByteString, pattern: ByteString) -> Boolean;
    fn _pen_core_utf8_length(string: ByteString) -> Number;
    fn _pen_core_utf8_slice(string: ByteString, start: Number, end: Number) -> ByteString;
    fn _pen_core_utf8_split(string: ByteString, pattern: ByteString) -> List;
    fn _pen_core_utf8_replace(string: ByteString, pattern: ByteString, replacement: ByteString) -> ByteString;
    fn _pen_core_utf8_to_lowercase(string: ByteString) -> ByteString;
    fn _pen_core_utf8_to_uppercase(string: ByteString) -> ByteString;
    fn _pen_core_utf8_trim(string: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_end(string: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_end_matches(string: ByteString, pattern: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_start(string: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_start_matches(string: ByteString, pattern: ByteString) -> ByteString;
}

/// The lengths of the characters of a text, by the definition of UTF-8; none of what is not one.
pub fn characters(b: &[u8]) -> Option<Vec<usize>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let (n, low, high) = match b[i] {
            0x00..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xed => (3, 0x80, 0x9f),
            0xe1..=0xef => (3, 0x80, 0xbf),
            0xf0 => (4, 0x90, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            _ => return None,
        };
        if i + n > b.len() || n > 1 && !(low..=high).contains(&b[i + 1]) {
            return None;
        }
        if (2..n).any(|k| b[i + k] & 0xc0 != 0x80) {
            return None;
        }
        v.push(n);
        i += n;
    }
    Some(v)
}

fn at(s: &[u8], i: usize, p: &[u8]) -> bool {
    i + p.len() <= s.len() && same(&s[i..i + p.len()], p)
}

fn list(l: List) -> Vec<ByteString> {
    elements(&l)
        .into_iter()
        .map(|x: Any| {
            check(
                core::ptr::eq(x.type_information(), &string::INFORMATION),
                "the elements are strings",
            );
            string::pen_ffi_any_to_string(x)
        })
        .collect()
}

fn same_list(l: List, expected: &[&[u8]], message: &str) {
    let v = list(l);
    check(
        v.len() == expected.len() && v.iter().zip(expected).all(|(x, y)| same(x.as_slice(), y)),
        message,
    );
}

fn length<const N: usize>() {
    let s = Text::<N>::new();
    let n = f64::from(unsafe { _pen_core_utf8_length(s.string()) });
    let l = unsafe { _pen_core_utf8_characters(s.string()) };
    if let Some(cs) = characters(s.bytes()) {
        cover(1);
        check(n == cs.len() as f64, "the length is the number of characters");
        let mut parts: Vec<&[u8]> = vec![];
        let mut i = 0;
        for c in cs {
            parts.push(&s.bytes()[i..i + c]);
            i += c;
        }
        same_list(l, &parts, "the characters are the string's in order");
    } else {
        cover(2);
        check(n.is_nan(), "what is not a text has no length");
        check(elements(&l).is_empty(), "what is not a text has no characters");
    }
}

fn slice<const N: usize>() {
    let s = Text::<N>::new();
    let (start, end) = (sym::u8() as i8 as i64, sym::u8() as i8 as i64);
    let infinite = pick(3);
    let x = if infinite == 1 { f64::NEG_INFINITY } else { start as f64 };
    let y = if infinite == 2 { f64::INFINITY } else { end as f64 };
    let start = if infinite == 1 { i64::MIN } else { start };
    let end = if infinite == 2 { i64::MAX } else { end };
    let r = unsafe { _pen_core_utf8_slice(s.string(), x.into(), y.into()) };
    let mut expected = vec![];
    if let Some(cs) = characters(s.bytes()) {
        cover(1);
        let mut i = 0;
        for (k, &c) in cs.iter().enumerate() {
            if start <= k as i64 + 1 && k as i64 + 1 <= end {
                expected.extend(&s.bytes()[i..i + c]);
            }
            i += c;
        }
    } else {
        cover(2);
    }
    check(same(r.as_slice(), &expected), "a slice is the characters between its positions");
}

/// From and to any numbers, whole or not.
fn slice_any<const N: usize>() {
    let s = Text::<N>::new();
    let (start, end) = (sym::f64(), sym::f64());
    let r = unsafe { _pen_core_utf8_slice(s.string(), start.into(), end.into()) };
    let r = r.as_slice();
    check((0..=s.bytes().len()).any(|i| at(s.bytes(), i, r)), "a slice is a part of its string");
    check(characters(r).is_some(), "a slice is a text");
    if !r.is_empty() {
        cover(1);
    }
}

fn searching<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    let contains = bool::from(unsafe { _pen_core_utf8_contains(s.string(), p.string()) });
    let found = f64::from(unsafe { _pen_core_utf8_find(s.string(), p.string()) });
    let (cs, ps) = (characters(s.bytes()), characters(p.bytes()));
    let mut expected = None;
    if let (Some(cs), Some(_)) = (cs, ps) {
        let mut i = 0;
        for (k, c) in cs.iter().chain([&0]).enumerate() {
            if at(s.bytes(), i, p.bytes()) {
                expected = Some(k + 1);
                break;
            }
            i += c;
        }
    }
    check(contains == expected.is_some(), "a string contains what occurs in it");
    match expected {
        Some(k) => {
            cover(1);
            check(found == k as f64, "a pattern is found at the character where it first occurs");
        }
        None => {
            cover(2);
            check(found < 0.0, "a pattern that does not occur is not found");
        }
    }
}

fn ends<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    let starts = bool::from(unsafe { _pen_core_utf8_starts_with(s.string(), p.string()) });
    let ends = bool::from(unsafe { _pen_core_utf8_ends_with(s.string(), p.string()) });
    if characters(s.bytes()).is_some() && characters(p.bytes()).is_some() {
        let (s, p) = (s.bytes(), p.bytes());
        check(starts == at(s, 0, p), "a text starts with its beginnings and nothing else");
        check(
            ends == (p.len() <= s.len() && at(s, s.len() - p.len(), p)),
            "a text ends with its endings and nothing else",
        );
        if starts {
            cover(1);
        }
        if ends {
            cover(2);
        }
    } else {
        check(!starts && !ends, "what is not a text has no beginnings and endings");
    }
}

/// The parts between occurrences of a pattern that is not empty, found from the left.
fn parts<'a>(s: &'a [u8], p: &[u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let (mut start, mut i) = (0, 0);
    while i < s.len() {
        if at(s, i, p) {
            v.push(&s[start..i]);
            i += p.len();
            start = i;
        } else {
            i += 1;
        }
    }
    v.push(&s[start..]);
    v
}

fn split<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    sym::assume(!p.bytes().is_empty());
    let l = unsafe { _pen_core_utf8_split(s.string(), p.string()) };
    if characters(s.bytes()).is_some() && characters(p.bytes()).is_some() {
        let parts = parts(s.bytes(), p.bytes());
        if parts.len() > 1 {
            cover(1);
        }
        same_list(l, &parts, "a string is split at every occurrence of a pattern");
    } else {
        cover(2);
        same_list(l, &[s.bytes()], "what is not a text is not split");
    }
}

fn replace<const N: usize, const M: usize>() {
    let (s, p, r) = (Text::<N>::new(), Text::<M>::new(), Text::<M>::new());
    sym::assume(!p.bytes().is_empty());
    let t = unsafe { _pen_core_utf8_replace(s.string(), p.string(), r.string()) };
    if [s.bytes(), p.bytes(), r.bytes()].iter().all(|x| characters(x).is_some()) {
        let parts = parts(s.bytes(), p.bytes());
        if parts.len() > 1 {
            cover(1);
        }
        check(
            same(t.as_slice(), &parts.join(r.bytes())),
            "every occurrence of a pattern is replaced and nothing else",
        );
    } else {
        cover(2);
        check(same(t.as_slice(), s.bytes()), "what is not a text is left as it is");
    }
}

/// The characters that Unicode calls white space.
fn space(c: &[u8]) -> bool {
    match *c {
        [c] => matches!(c, b'\t'..=b'\r' | b' '),
        [0xc2, c] => matches!(c, 0x85 | 0xa0),
        [0xe1, 0x9a, 0x80] | [0xe3, 0x80, 0x80] | [0xe2, 0x81, 0x9f] => true,
        [0xe2, 0x80, c] => matches!(c, 0x80..=0x8a | 0xa8 | 0xa9 | 0xaf),
        _ => false,
    }
}

fn trim<const N: usize>() {
    let s = Text::<N>::new();
    let b = s.bytes();
    let (mut start, mut end) = (0, b.len());
    if let Some(cs) = characters(b) {
        cover(1);
        for &c in &cs {
            if !space(&b[start..start + c]) {
                break;
            }
            start += c;
        }
        for &c in cs.iter().rev() {
            if end == start || !space(&b[end - c..end]) {
                break;
            }
            end -= c;
        }
    } else {
        cover(2);
    }
    // a string of nothing but space has no end before its beginning
    let last = if start == b.len() && characters(b).is_some() { 0 } else { end };
    match pick(3) {
        0 => check(
            same(unsafe { _pen_core_utf8_trim(s.string()) }.as_slice(), &b[start..end]),
            "space around a text is trimmed and nothing else",
        ),
        1 => check(
            same(unsafe { _pen_core_utf8_trim_start(s.string()) }.as_slice(), &b[start..]),
            "space before a text is trimmed and nothing else",
        ),
        _ => check(
            same(unsafe { _pen_core_utf8_trim_end(s.string()) }.as_slice(), &b[..last]),
            "space after a text is trimmed and nothing else",
        ),
    }
}

fn trim_matches<const N: usize, const M: usize>() {
    let (s, p) = (Text::<N>::new(), Text::<M>::new());
    sym::assume(!p.bytes().is_empty());
    let (mut b, q) = (s.bytes(), p.bytes());
    let text = characters(b).is_some() && characters(q).is_some();
    if text {
        cover(1);
    } else {
        cover(2);
    }
    if pick(2) == 0 {
        let r = unsafe { _pen_core_utf8_trim_start_matches(s.string(), p.string()) };
        while text && at(b, 0, q) {
            b = &b[q.len()..];
        }
        check(same(r.as_slice(), b), "every pattern before a text is trimmed and nothing else");
    } else {
        let r = unsafe { _pen_core_utf8_trim_end_matches(s.string(), p.string()) };
        while text && b.len() >= q.len() && at(b, b.len() - q.len(), q) {
            b = &b[..b.len() - q.len()];
        }
        check(same(r.as_slice(), b), "every pattern after a text is trimmed and nothing else");
    }
}

/// Of letters of ASCII, and of what is not a text.
fn cases<const N: usize>(other: bool) {
    let s = Text::<N>::new();
    let b = s.bytes();
    sym::assume(other || b.is_ascii() || characters(b).is_none());
    let lower = unsafe { _pen_core_utf8_to_lowercase(s.string()) };
    let upper = unsafe { _pen_core_utf8_to_uppercase(s.string()) };
    if b.is_ascii() {
        cover(1);
        let (mut l, mut u) = (b.to_vec(), b.to_vec());
        for k in 0..b.len() {
            l[k] = b[k] + 32 * b[k].is_ascii_uppercase() as u8;
            u[k] = b[k] - 32 * b[k].is_ascii_lowercase() as u8;
        }
        check(same(lower.as_slice(), &l), "letters become lower case ones and nothing else changes");
        check(same(upper.as_slice(), &u), "letters become upper case ones and nothing else changes");
    } else if characters(b).is_none() {
        cover(2);
        check(same(lower.as_slice(), b) && same(upper.as_slice(), b), "what is not a text is left as it is");
    } else {
        check(
            characters(lower.as_slice()).is_some() && characters(upper.as_slice()).is_some(),
            "a text in another case is a text",
        );
    }
}

sym::entries! {
    fn t_k02_length() { length::<4>() }
    fn d_k02_length() { length::<6>() }
    fn t_k02_slice() { slice::<4>() }
    fn d_k02_slice() { slice::<6>() }
    fn t_k02_slice_any() { slice_any::<2>() }
    fn t_k02_searching() { searching::<3, 2>() }
    fn d_k02_searching() { searching::<5, 3>() }
    fn t_k02_ends() { ends::<4, 3>() }
    fn d_k02_ends() { ends::<6, 4>() }
    fn t_k02_split() { split::<3, 2>() }
    fn d_k02_split() { split::<5, 3>() }
    fn t_k02_replace() { replace::<3, 2>() }
    fn d_k02_replace() { replace::<4, 3>() }
    fn t_k02_trim() { trim::<4>() }
    fn d_k02_trim() { trim::<6>() }
    fn t_k02_trim_matches() { trim_matches::<4, 2>() }
    fn d_k02_trim_matches() { trim_matches::<6, 3>() }
    fn t_k02_cases() { cases::<3>(false) }
    fn d_k02_cases() { cases::<5>(false) }
    fn d_k02_cases_other() { cases::<2>(true) }
}
