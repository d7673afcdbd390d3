//! Sources with symbolic parts.
use sym::*;

/// Programs that between them use every construct of the language.
pub const TEMPLATES: &[&str] = &[
    // modules
    "import A'B import A'C'D as e { x, y } import 'a'b { z }",
    "import foreign f \\(a) b import foreign \"c\" g h",
    "type t = a | [b] | {c: d}\ntype u = \\(a, \\() b) c | d\ntype v = (\\() a) | (b)",
    "type r {}\ntype s { x a y [b] }",
    "foreign \"c\" f = \\() a {b} foreign g = \\(x a, y b'c,) d {e}",
    // blocks and operators
    "f=\\() a {x = y z = w v}",
    "f=\\() a {a + b * c - d / e}",
    "f=\\() a {a == b & c != d | !e}",
    "f=\\() a {a < b + c <= (d > e) >= g}",
    "f=\\() a {a(b, c).d?.e(g,)(h)?}",
    "f=\\() a {!a(b) !(!c) (d).e}",
    "f=\\() a {\\(x b) c {x}(y)}",
    // conditionals
    "f=\\() a {if a {b} else if c {d} else {e}}",
    "f=\\() a {if [x, ...y] = z {a} else {b}}",
    "f=\\() a {if x = m[k] {a} else {b}}",
    "f=\\() a {if x = y as a {b} else if c | d {e} else {g}}",
    "f=\\() a {if x = y() as [a] {b}}",
    // literals
    "f=\\() a {r{} r{a: b, c: d,} m'r{...a, b: c, d: e}}",
    "f=\\() a {[a] [a b, ...c] [[a] b,]}",
    "f=\\() a {[a b for c in d] [a b for c, d in e, g if h for i in j]}",
    "f=\\() a {{a: b} {a: b c: d, ...e} {a: [b] c: d,}}",
    "f=\\() a {.5 1.5 2e-3 0b01 0xfA}",
    "f=\\() a {\"\" \"a\\n\\x4fb\\\"\\\\\"}",
    // comments
    "# a\nf=\\() a { # b\nc # d\n}\n#e",
];

/// A source of at most `N` arbitrary bytes that is valid UTF-8.
pub fn raw<const N: usize>(len: usize) -> Vec<u8> {
    let mut b = [0u8; N];
    fill(&mut b[..len]);
    b[..len].to_vec()
}

/// A template with `n` symbolic bytes put at a place of it, in the place of `cut` of its own.
pub fn window(t: &str, n: usize, cut: usize) -> Vec<u8> {
    let t = t.as_bytes();
    let at = pick(t.len() - cut + 1);
    let mut v = Vec::with_capacity(t.len() + n);
    v.extend_from_slice(&t[..at]);
    let mut b = [0u8; 8];
    fill(&mut b[..n]);
    v.extend_from_slice(&b[..n]);
    v.extend_from_slice(&t[at + cut..]);
    v
}

/// A template whose `@`s are symbolic bytes.
pub fn holes(t: &str) -> Vec<u8> {
    let mut v = t.as_bytes().to_vec();
    for k in 0..v.len() {
        if v[k] == b'@' {
            v[k] = u8();
        }
    }
    v
}

/// A template with a line break or a comment line put at two places of it.
pub fn broken(t: &str) -> Vec<u8> {
    let t = t.as_bytes();
    let a = pick(t.len() + 1);
    let b = pick(t.len() + 1);
    assume(a <= b);
    let mut v = Vec::with_capacity(t.len() + 8);
    v.extend_from_slice(&t[..a]);
    filler(&mut v);
    v.extend_from_slice(&t[a..b]);
    filler(&mut v);
    v.extend_from_slice(&t[b..]);
    v
}

/// A template with line breaks put at two places of it.
pub fn lines(t: &str) -> Vec<u8> {
    let t = t.as_bytes();
    let a = pick(t.len() + 1);
    let b = pick(t.len() + 1);
    assume(a <= b);
    [&t[..a], b"\n", &t[a..b], b"\n", &t[b..]].concat()
}

/// A template with a comment of symbolic bytes put at a place of it.
pub fn commented_at<const N: usize>(t: &str) -> Vec<u8> {
    let t = t.as_bytes();
    let a = pick(t.len() + 1);
    [&t[..a], b"#", &bytes::<N>(), b"\n", &t[a..]].concat()
}

fn filler(v: &mut Vec<u8>) {
    if pick(2) == 0 {
        v.push(b'\n');
    } else {
        let c = u8();
        assume(c >= b' ' && c < 127);
        v.extend_from_slice(&[b'#', c, b'\n']);
    }
}

pub const HAZARDS: &[&str] = &[
    "f=\\() a {a@(b@c)@d}",
    "f=\\() a {a (@@) b}",
    "f=\\() a {(@@) (@b)}",
    "f=\\() a {a ({@:@}) b}",
    "f=\\() a {(@a)@b}",
    "f=\\() a {if (@a) {b} else if (@b) {c} else {d}}",
    "f=\\() a {if ([a@]@b) {b} else {d}}",
    "f=\\() a {if x = (@a)[(@b)] {b} else {d}}",
    "type a = (@)@(\\() b@c)@(\\() d)",
    "type a = \\() (@)@(b@c)",
    "f=\\() a {r{...(@a),b:(@c)} [a (@b)]}",
    "f=\\() a {\\(x a) (b@c) {x}@(d)}",
    "f=\\() a {(@a)@b (@)@c}",
    "import A'B { @@, @, b }",
    "import A'@ as a import A'@ as b import 'a'@ as c",
];

/// The beginning of a template and `N` symbolic bytes.
pub fn truncated<const N: usize>(t: &str) -> Vec<u8> {
    let n = pick(t.len());
    [&t.as_bytes()[..n], &bytes::<N>()].concat()
}

/// A template with a line break in the middle and two symbolic blanks put at a place of it.
pub fn lines_near(t: &str) -> Vec<u8> {
    let t = t.as_bytes();
    let a = pick(t.len() + 1);
    let b = bytes::<2>();
    for x in b {
        assume(matches!(x, b' ' | b'\t' | b'\r' | b'\n'));
    }
    [&t[..a], &b, &t[a..]].concat()
}

/// Modules where `~` is a place between tokens; at a space, a blank must stand.
pub const LAYOUTS: &[&str] = &[
    "~import A'B as e~{~x~,~y~}~import 'a'b~",
    "import foreign \"c\"~g~\\(~a~,~b~)~c import foreign f h~",
    "type t~=~a~|~[~b~]~|~{~c~:~d~}~type r~{~x a y~[~b~]~}~",
    "foreign \"c\"~f~=~\\(~x a~,~y b'c~,~)~d~{~e~}~",
    "f~=~\\(~)~a~{~x~=~y z~=~w v~}~",
    "f=\\() a {~a~+~b~*~c~==~!~d~&~(~e~/~g~)~}",
    "f=\\() a {~a(~b~,~c~,~)~.~d~?~.~e~}",
    "f=\\() a {if a~{~b~}~else if c~{~d~}~else~{~e~}~}",
    "f=\\() a {if~[~x~,~...~y~]~=~z~{~a~}~else~{~b~}~}",
    "f=\\() a {if x~=~m~[~k~]~{~a~}~else~{~b~}~}",
    "f=\\() a {if x~=~y as a~{~b~}~else if c~|~d~{~e~}~else~{~g~}~}",
    "f=\\() a {r~{~a~:~b~,~c~:~d~}~m'r~{~...~a~,~b~:~c~}~}",
    "f=\\() a {~[~a b~,~...~c~,~]~[~a b for c~,~d in d~,~e if g for h in i~]~}",
    "f=\\() a {~{~a~:~b c~:~d~,~...~e~}~}",
    "f=\\() a {~\"b\"~1.5 0b01 \"#\"~0xfA~}",
];

/// Sources in which comments, strings and code meet.
pub const COMMENTS: &[&str] = &[
    "# a\nf=\\() a { # b\nc # d\n}\n#e",
    "f=\\() a {\"#\" #\"\n\"\\\"#\" # x\r\n}",
    "#a#b\n\n #\"c\n#",
    "import foreign \"c\" f \\() a #é\n\ntype a = b#",
];

/// More of them, in which what may be broken over lines is inside of what may be.
pub const NESTED: &[&str] = &[
    "f=\\() a {x = g(~\\(x a~,~y b~|~c) c~{~d~}~,~e~)~h~+~i(~j~)~}",
    "f=\\() a {if x~{~y~}~else~{~z~}(~a~)~[~a if b~{~c~}~else~{~d~}~,~e~]~}",
    "f=\\() a {r{a~:~[~a b(~c~)~for d in e~]~,~}~\"s\n\"~(~)~x~.~y~}",
    "f=\\() a {\\() a~{x = y~z~}(~b~)~+~{~a~:~b c(~d~)~:~e~}~}",
];

/// A layout with something at one or two of its places.
pub fn twice(apart: bool, part: fn() -> Vec<u8>) -> Vec<u8> {
    let (one, other) = (part(), part());
    let t = pick(LAYOUTS.len() + NESTED.len());
    let t = if t < LAYOUTS.len() { LAYOUTS[t] } else { NESTED[t - LAYOUTS.len()] }.as_bytes();
    let places = t.iter().filter(|&&c| c == b'~' || c == b' ').count();
    let p = pick(places);
    let q = if apart { pick(places) } else { p };
    assume(p <= q);
    let mut v = vec![];
    let mut k = 0;
    for &c in t {
        if c == b'~' || c == b' ' {
            if c == b' ' {
                v.push(c);
            }
            if k == p {
                v.extend_from_slice(&one);
            }
            if k == q {
                v.extend_from_slice(&other);
            }
            k += 1;
        } else {
            v.push(c);
        }
    }
    v
}

/// A space or a line break.
pub fn blank() -> Vec<u8> {
    let b = u8();
    assume(b == b' ' || b == b'\n');
    vec![b]
}

/// A comment of any printable character, on a line of its own.
pub fn comment() -> Vec<u8> {
    let b = u8();
    assume(b > b' ' && b < 127);
    vec![b'#', b, b'\n']
}
