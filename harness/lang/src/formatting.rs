use crate::{source::*, str_of, tree};
use sym::*;

struct Formatted {
    module: ast::Module,
    comments: Vec<ast::Comment>,
    text: String,
}

fn formatted(s: &str) -> Option<Formatted> {
    let module = parse::parse(s, "path").ok()?;
    let comments = match parse::parse_comments(s, "path") {
        Ok(c) => c,
        Err(_) => fail("comments of a valid source are read"),
    };
    let text = format::format(&module, &comments);
    dump(text.as_bytes());
    Some(Formatted { module, comments, text })
}

/// The formatted text means what the source means.
pub fn round_trip(s: &str) {
    let Some(f) = formatted(s) else { return };
    cover(1);
    match parse::parse(&f.text, "path") {
        Ok(m) => check(
            tree::same(&tree::canonical(&tree::of(&f.module)), &tree::canonical(&tree::of(&m)), false),
            "the formatted source has the tree of the source",
        ),
        Err(_) => fail("the formatted source is valid"),
    }
}

pub fn idempotent(s: &str) {
    let Some(f) = formatted(s) else { return };
    cover(1);
    let (Ok(m), Ok(c)) = (parse::parse(&f.text, "path"), parse::parse_comments(&f.text, "path")) else { return };
    let again = format::format(&m, &c);
    dump(again.as_bytes());
    check(tree::text_eq(&f.text, &again), "formatting a formatted source changes nothing");
}

fn essence(comments: &[ast::Comment]) -> Vec<char> {
    comments.iter().flat_map(|c| c.line().chars()).filter(|c| !c.is_whitespace() && *c != '#').collect()
}

pub fn keeps_comments(s: &str) {
    let Some(f) = formatted(s) else { return };
    cover(1);
    let Ok(c) = parse::parse_comments(&f.text, "path") else { fail("comments of a formatted source are read") };
    // Comments that come to stand on one line are joined, so what is compared is their text without spaces and signs.
    check(essence(&f.comments) == essence(&c), "the text of comments is kept, once and in order");
}

/// Whether a comment stands inside a declaration or a statement; moving it moves what the layout is decided by.
fn commented(s: &str) -> bool {
    s.as_bytes().contains(&b'#')
}

macro_rules! hazards {
    ($($t:ident $u:ident $k:expr;)*) => { entries! { $(
        fn $t() { let v = holes(HAZARDS[$k]); round_trip(str_of(&v)); }
        fn $u() { let v = holes(HAZARDS[$k]); let s = str_of(&v); if !commented(s) { idempotent(s) } }
    )* } };
}

hazards! {
    t_l06_h00 t_l07_h00 0;
    t_l06_h01 t_l07_h01 1;
    t_l06_h02 t_l07_h02 2;
    t_l06_h03 t_l07_h03 3;
    t_l06_h04 t_l07_h04 4;
    d_l06_h12 d_l07_h12 12;
    t_l06_h05 t_l07_h05 5;
    t_l06_h06 t_l07_h06 6;
    t_l06_h07 t_l07_h07 7;
    t_l06_h08 t_l07_h08 8;
    t_l06_h09 t_l07_h09 9;
    t_l06_h10 t_l07_h10 10;
    t_l06_h11 t_l07_h11 11;
    t_l06_names t_l07_names 13;
    t_l06_paths t_l07_paths 14;
}

entries! {
    fn t_l06_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); round_trip(str_of(&v)); }
    fn d_l06_r1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 1); round_trip(str_of(&v)); }
    fn d_l06_raw() { let v = raw::<4>(4); round_trip(str_of(&v)); }
    fn d_l06_broken() { let v = broken(TEMPLATES[pick(TEMPLATES.len())]); round_trip(str_of(&v)); }
    fn t_l06_lines() { let v = twice(false, blank); round_trip(str_of(&v)); }
    fn t_l06_comments() { let v = twice(false, comment); round_trip(str_of(&v)); }
    fn d_l06_lines() { let v = twice(true, blank); round_trip(str_of(&v)); }
    fn d_l06_comments() { let v = twice(true, comment); round_trip(str_of(&v)); }
    fn t_l07_lines() { let v = twice(false, blank); idempotent(str_of(&v)); }
    fn d_l07_lines() { let v = twice(true, blank); idempotent(str_of(&v)); }
    fn t_l07_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); idempotent(str_of(&v)); }
    fn d_l07_broken() { let v = lines(TEMPLATES[pick(TEMPLATES.len())]); idempotent(str_of(&v)); }
    fn t_l08_w1() { let v = window(TEMPLATES[pick(TEMPLATES.len())], 1, 0); keeps_comments(str_of(&v)); }
    fn t_l08_comment() { let v = commented_at::<1>(TEMPLATES[pick(TEMPLATES.len())]); keeps_comments(str_of(&v)); }
    fn d_l08_comment() { let v = commented_at::<2>(TEMPLATES[pick(TEMPLATES.len())]); keeps_comments(str_of(&v)); }
    fn t_l08_two() { let v = twice(false, comment); keeps_comments(str_of(&v)); }
    fn d_l08_two() { let v = twice(true, comment); keeps_comments(str_of(&v)); }
    fn d_l08_broken() { let v = broken(TEMPLATES[pick(TEMPLATES.len())]); keeps_comments(str_of(&v)); }
}
