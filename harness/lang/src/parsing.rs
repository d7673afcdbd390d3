use crate::{reference, source::*, str_of, tree};
use sym::*;

fn decide(s: &str, positions: bool) {
    let m = parse::parse(s, "path").ok();
    let r = reference::Reader::new(s.as_bytes()).module().ok();
    match (m, r) {
        (Some(m), Some(r)) => {
            cover(1);
            let m = tree::of(&m);
            if positions {
                check(tree::same(&m, &r, true), "every node's position is that of its token");
            } else {
                check(tree::same(&m, &r, false), "the parser builds the tree the grammar gives");
            }
        }
        (None, None) => cover(2),
        _ if positions => (),
        (Some(_), None) => fail("the parser accepts a source outside the grammar"),
        (None, Some(_)) => fail("the parser rejects a source of the grammar"),
    }
}

/// The module is the one the grammar gives, or both refuse the source.
pub fn structure(s: &str) {
    decide(s, false)
}

/// Every node stands at the line and column of its token, and its position shows the text of that line.
pub fn positions(s: &str) {
    decide(s, true)
}

/// Parsing ends in a module or in an error that points into the source.
pub fn total(s: &str) {
    match parse::parse(s, "path") {
        Ok(_) => cover(1),
        Err(e) => {
            cover(2);
            let m = e.to_string();
            dump(m.as_bytes());
            points_into(s, &m);
        }
    }
    match parse::parse_comments(s, "path") {
        Ok(_) => (),
        Err(e) => points_into(s, &e.to_string()),
    }
}

/// The message has the form `what`, path, `line:column:<tab>text`, caret.
fn points_into(s: &str, m: &str) {
    let b = m.as_bytes();
    let mut i = 0;
    let mut skip = |c: u8| {
        let from = i;
        while i < b.len() && b[i] != c {
            i += 1;
        }
        check(i < b.len(), "an error message has a description, a path and a position");
        i += 1;
        (from, i - 1)
    };
    skip(b'\n');
    let (p, q) = skip(b'\n');
    check(tree::text_eq(&m[p..q], "path"), "an error names its file");
    let (p, q) = skip(b':');
    let line = number(&b[p..q]);
    let (p, q) = skip(b':');
    let column = number(&b[p..q]);
    skip(b'\t');
    let mut k = 1;
    let mut start = 0;
    for (j, &c) in s.as_bytes().iter().enumerate() {
        if c == b'\n' && k < line {
            k += 1;
            start = j + 1;
        }
    }
    check(k == line, "an error's line is one of the source");
    let end = s.as_bytes()[start..].iter().position(|&c| c == b'\n').map_or(s.len(), |n| start + n);
    check(column >= 1 && column <= end - start + 1, "an error's column is one of its line");
    let text = &s.as_bytes()[start..end];
    check(b.len() >= i + text.len() && &b[i..i + text.len()] == text, "an error shows its line");
}

fn number(b: &[u8]) -> usize {
    check(!b.is_empty() && b.iter().all(u8::is_ascii_digit), "positions are numbers");
    b.iter().fold(0, |n, &c| n * 10 + (c - b'0') as usize)
}

/// A comment list is the source's comments in order, with their text and position.
pub fn comments(s: &str) {
    let m = parse::parse_comments(s, "path").ok();
    match (m, reference::comments(s.as_bytes())) {
        (Some(m), Some(r)) => {
            cover(1);
            check(m.len() == r.len(), "every comment is read once");
            for (c, (text, p)) in m.iter().zip(&r) {
                check(tree::text_eq(c.line(), text), "a comment's text is what stands after its sign");
                let q = c.position();
                check((q.line_number() as u32, q.column_number() as u32) == *p, "a comment stands where it is");
            }
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("comments are read from a source with a broken string"),
        // A source that is not a module need not have readable comments.
        (None, Some(_)) => check(parse::parse(s, "path").is_err(), "comments of a module are read"),
    }
}

fn base(t: &str) -> Vec<u8> {
    t.bytes().filter(|&c| c != b'~').collect()
}

/// Whether the bytes are blanks and whole comments only.
fn is_blank(b: &[u8]) -> bool {
    let mut comment = false;
    for &c in b {
        if c == b'\n' || c == b'\r' {
            comment = false;
        } else if comment || c == b' ' || c == b'\t' {
        } else if c == b'#' {
            comment = true;
        } else {
            return false;
        }
    }
    !comment
}

/// The module is the same whatever blanks and comments stand between two tokens.
fn layout<const N: usize>() {
    laid_out(&bytes::<N>())
}

/// The same for a comment of any character that any line break ends.
fn layout_comment() {
    laid_out(&[b'#', u8(), u8()])
}

fn laid_out(b: &[u8]) {
    let t = LAYOUTS[pick(LAYOUTS.len())].as_bytes();
    // A blank or a place for one, chosen.
    let places = t.iter().filter(|&&c| c == b'~' || c == b' ').count();
    let at = pick(places);
    assume(is_blank(b));
    let mut v = vec![];
    let mut k = 0;
    for &c in t {
        if c == b'~' || c == b' ' {
            if k == at {
                v.extend_from_slice(b);
            } else if c == b' ' {
                v.push(c);
            }
            k += 1;
        } else {
            v.push(c);
        }
    }
    let plain = base(core::str::from_utf8(t).unwrap());
    let Ok(m) = parse::parse(str_of(&plain), "path") else { fail("the template is a module") };
    match parse::parse(str_of(&v), "path") {
        Ok(n) => {
            cover(1);
            check(
                tree::same(&tree::of(&m), &tree::of(&n), false),
                "blanks and comments between tokens do not change the module",
            )
        }
        Err(_) => fail("blanks and comments between tokens do not make a module invalid"),
    }
}

/// Letters, digits, and signs, as the lexical entries use them.
fn word(b: u8) -> bool {
    b.is_ascii_lowercase()
}

fn numeric(b: u8) -> bool {
    b.is_ascii_digit() || matches!(b, b'+' | b'-' | b'.' | b'e' | b'E' | b'b' | b'x' | b'a' | b'F' | b'_' | b' ')
}

fn filled<const N: usize>(before: &str, after: &str, f: fn(u8) -> bool) -> Vec<u8> {
    let b = bytes::<N>();
    for x in b {
        assume(f(x));
    }
    [before.as_bytes(), &b, after.as_bytes()].concat()
}

fn any(_: u8) -> bool {
    true
}

/// Operands joined by two or three operators of any kind, with or without parentheses.
fn operators<const N: usize>() -> Vec<u8> {
    let mut v = b"f=\\() a {".to_vec();
    for k in 0..N {
        v.push(b'a' + k as u8);
        let b = bytes::<2>();
        for x in b {
            assume(matches!(x, b'|' | b'&' | b'=' | b'!' | b'<' | b'>' | b'+' | b'-' | b'*' | b'/' | b' '));
        }
        v.extend_from_slice(&b);
    }
    v.extend_from_slice(b"z}");
    v
}

entries! {
    fn x_show() {
        let n = u16() as usize;
        let mut b = vec![0; n];
        fill(&mut b);
        let s = str_of(&b);
        let mut o = String::new();
        match parse::parse(s, "path") { Ok(m) => tree::show(&tree::of(&m), &mut o), Err(e) => o = e.to_string() }
        dump(o.as_bytes());
        match reference::Reader::new(s.as_bytes()).module() { Ok(r) => { o.clear(); tree::show(&r, &mut o); dump(o.as_bytes()); } Err(_) => dump(b"rejected") }
    }
    fn d_l01_raw() { let v = raw::<5>(5); total(str_of(&v)); }
    fn t_l01_raw() { let v = raw::<3>(3); total(str_of(&v)); }
    fn t_l01_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); total(str_of(&v)); }
    fn d_l01_r1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 1); total(str_of(&v)); }
    fn t_l01_cut() { let v = truncated::<1>(TEMPLATES[pick(TEMPLATES.len())]); total(str_of(&v)); }
    fn d_l01_cut() { let v = truncated::<2>(TEMPLATES[pick(TEMPLATES.len())]); total(str_of(&v)); }

    fn t_l02_raw() { let v = raw::<4>(4); structure(str_of(&v)); }
    fn t_l02_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); structure(str_of(&v)); }
    fn t_l02_r1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 1); structure(str_of(&v)); }
    fn t_l02_operators() { let v = operators::<2>(); structure(str_of(&v)); }
    fn d_l02_operators() { let v = operators::<3>(); structure(str_of(&v)); }
    fn d_l02_w2() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 2, 0); structure(str_of(&v)); }

    fn t_l03_layout() { layout::<1>() }
    fn t_l03_comment() { layout_comment() }
    fn d_l03_layout2() { layout::<2>() }
    fn d_l03_layout3() { layout::<3>() }

    fn t_l04_name() { let v = filled::<3>("f=\\() a {", "}", any); structure(str_of(&v)); }
    fn t_l04_word() { let v = filled::<4>("type ", "=a", word); structure(str_of(&v)); }
    fn d_l04_word() { let v = filled::<7>("type ", "=a", word); structure(str_of(&v)); }
    fn t_l04_number() { let v = filled::<4>("f=\\() a {", "}", numeric); structure(str_of(&v)); }
    fn d_l04_number() { let v = filled::<5>("f=\\() a {", "}", numeric); structure(str_of(&v)); }
    fn t_l04_string() { let v = filled::<4>("f=\\() a {\"", "\"}", any); structure(str_of(&v)); }
    fn d_l04_string() { let v = filled::<5>("f=\\() a {\"", "\"}", any); structure(str_of(&v)); }

    fn t_l05_raw() { let v = raw::<4>(4); comments(str_of(&v)); }
    fn d_l05_raw() { let v = raw::<6>(6); comments(str_of(&v)); }
    fn t_l05_w1() { let v = window(COMMENTS[pick(COMMENTS.len())], 1, 0); comments(str_of(&v)); }
    fn t_l05_w2() { let v = window(COMMENTS[pick(COMMENTS.len())], 2, 0); comments(str_of(&v)); }
    fn d_l05_w3() { let v = window(COMMENTS[pick(COMMENTS.len())], 3, 0); comments(str_of(&v)); }

    fn t_l12_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); positions(str_of(&v)); }
    fn t_l12_lines() { let v = lines_near(TEMPLATES[pick(TEMPLATES.len())]); positions(str_of(&v)); }
    fn d_l12_lines() { let v = lines(TEMPLATES[pick(TEMPLATES.len())]); positions(str_of(&v)); }
    fn d_l12_w2() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 2, 0); positions(str_of(&v)); }
}
