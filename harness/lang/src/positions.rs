use sym::*;

fn decimal(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}

/// A position is shown as its path, its line and column, its line's text, and a caret below the column.
fn shown(path: &str, line: usize, column: usize, text: &str, message: Option<&str>) {
    cover(1);
    let p = position::Position::new(path, line, column, text);
    let s = match message {
        Some(m) => position::format_message(&p, m),
        None => p.to_string(),
    };
    dump(s.as_bytes());
    let mut head = decimal(line as u64);
    head.push(b':');
    head.extend(decimal(column as u64));
    head.push(b':');
    let mut v = [path.as_bytes(), b"\n", &head, b"\t", text.as_bytes(), b"\n"].concat();
    for last in [Some("^"), message] {
        let Some(last) = last else { continue };
        if last != "^" || v.last() != Some(&b'\n') {
            v.push(b'\n');
        }
        v.extend(head.iter().map(|_| b' '));
        v.push(b'\t');
        v.extend((1..column).map(|_| b' '));
        v.extend_from_slice(last.as_bytes());
    }
    check(s.as_bytes() == v, "a position is shown with its line and a caret below its column");
}

entries! {
    fn t_l11_line() {
        let n = u16() as usize;
        shown("p", n, 2, "abc", None)
    }
    fn t_l11_column() {
        let c = u8() as usize;
        assume(c >= 1 && c <= 120);
        shown("p", 7, c, "abc", if bool() { Some("m") } else { None })
    }
    fn t_l11_text() {
        let (a, b) = (bytes::<2>(), bytes::<3>());
        shown(crate::str_of(&a), 12, 3, crate::str_of(&b), None)
    }
    fn t_l11_message() {
        let b = bytes::<3>();
        shown("p", 1, 1, "", Some(crate::str_of(&b)))
    }
    fn d_l11_both() {
        let (n, c) = (u16() as usize, u8() as usize);
        assume(c >= 1);
        shown("p", n, c, "abc", Some("m"))
    }
}
