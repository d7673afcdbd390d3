use crate::{source::raw, str_of, tree};
use ast::{ExternalModulePath, InternalModulePath, ModulePath, TypeDefinition};
use std::collections::BTreeMap;
use sym::*;

fn public(name: &str) -> bool {
    matches!(name.as_bytes().first(), Some(b'A'..=b'Z'))
}

/// A block of comments that ends at the line above.
fn above(comments: &[ast::Comment], line: usize) -> Vec<String> {
    let mut v = vec![];
    let mut want = line;
    for c in comments.iter().rev() {
        if c.position().line_number() + 1 == want {
            v.push(c.line().trim().to_string());
            want -= 1;
        }
    }
    v.reverse();
    v
}

enum Item {
    Line(String),
    Code(tree::N),
}

/// What the documentation of the modules has to consist of, in order; blank lines and indentation aside.
fn expected(
    modules: &BTreeMap<ModulePath, (ast::Module, Vec<ast::Comment>)>,
    private: &[&str],
) -> Vec<Item> {
    let mut v = vec![];
    let mut line = |s: String| v.push(Item::Line(s));
    for l in [
        "# `p` package", "d", "```json", "{", "\"type\": \"t\"", "}", "```", "## Install", "```json", "{",
        "\"dependencies\": {", "\"p\": \"u\"", "}", "}", "```",
    ] {
        line(l.into());
    }
    for (path, (module, comments)) in modules {
        let (root, components) = match path {
            ModulePath::External(p) => (p.package().to_string(), p.components()),
            ModulePath::Internal(p) => (String::new(), p.components()),
        };
        if !components.iter().all(|c| public(c)) {
            continue;
        }
        let name: String = [root].into_iter().chain(components.iter().cloned()).collect::<Vec<_>>().join("'");
        v.push(Item::Line(format!("## `{name}` module")));
        // the block of comments at the top of the file, unless it belongs to the first declaration
        let mut n = 0;
        while n < comments.len() && comments[n].position().line_number() == n + 1 {
            n += 1;
        }
        let t = tree::of(module);
        let first = t.kids.iter().flat_map(|k| &k.kids).next().map(|k| k.pos.0 as usize);
        if first != Some(n + 1) {
            for c in &comments[..n] {
                v.push(Item::Line(c.line().trim().into()));
            }
        }
        v.push(Item::Line("### Types".into()));
        let mut none = true;
        for (d, t) in module.type_definitions().iter().zip(&t.kids[2].kids) {
            if !public(d.name()) || private.contains(&d.name()) {
                continue;
            }
            none = false;
            v.push(Item::Line(format!("#### `{}`", d.name())));
            v.extend(above(comments, d.position().line_number()).into_iter().map(Item::Line));
            match d {
                TypeDefinition::RecordDefinition(r) if !r.fields().iter().all(|f| public(f.name())) => {
                    for l in ["```l".into(), format!("type {} {{", d.name()), "# ...".into(), "}".into(), "```".into()] {
                        v.push(Item::Line(l));
                    }
                }
                _ => v.push(Item::Code(tree::canonical(t))),
            }
        }
        if none {
            v.push(Item::Line("No types are defined.".into()));
        }
        v.push(Item::Line("### Functions".into()));
        let mut none = true;
        for (d, t) in module.function_definitions().iter().zip(&t.kids[3].kids) {
            if !public(d.name()) || private.contains(&d.name()) {
                continue;
            }
            none = false;
            v.push(Item::Line(format!("#### `{}`", d.name())));
            v.extend(above(comments, d.position().line_number()).into_iter().map(Item::Line));
            // the arguments and the result
            v.push(Item::Code(tree::canonical(&tree::n("signature", tree::NONE, "", t.kids[1].kids[..2].to_vec()))));
        }
        if none {
            v.push(Item::Line("No functions are defined.".into()));
        }
    }
    v
}

fn check_lines(text: &str, items: &[Item]) {
    // Bytes are compared one by one; searching by words would mix those of several comments in one condition.
    let b = text.as_bytes();
    let mut all = vec![];
    let mut start = 0;
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'\n' {
            let l = text[start..i].trim();
            if !l.is_empty() {
                all.push(l);
            }
            start = i + 1;
        }
    }
    let mut lines = all.into_iter();
    for item in items {
        match item {
            Item::Line(l) => {
                if !l.is_empty() {
                    let Some(x) = lines.next() else { fail("the documentation is complete") };
                    check(tree::text_eq(x, l), "the documentation has the headings and comments of what is public");
                }
            }
            Item::Code(t) => {
                check(lines.next() == Some("```l"), "a public definition is shown");
                let mut code = String::new();
                loop {
                    match lines.next() {
                        Some("```") => break,
                        Some(l) => {
                            code.push_str(l);
                            code.push('\n');
                        }
                        None => fail("a code block ends"),
                    }
                }
                let code = if t.tag == "signature" { format!("f = {code} {{x}}") } else { code };
                let Ok(m) = parse::parse(&code, "path") else { fail("a documented definition is valid") };
                let m = tree::of(&m);
                let got = if t.tag == "signature" {
                    m.kids[3].kids.first().map(|f| tree::n("signature", tree::NONE, "", f.kids[1].kids[..2].to_vec()))
                } else {
                    m.kids[2].kids.first().cloned()
                };
                let Some(got) = got else { fail("a documented definition is a definition") };
                check(tree::same(&tree::canonical(&got), t, false), "a documented definition is the module's");
            }
        }
    }
    check(lines.next().is_none(), "the documentation has nothing but what is public");
}

fn documented(modules: Vec<(ModulePath, &str)>, private: &[&str]) {
    let mut map = BTreeMap::new();
    for (path, s) in modules {
        let (Ok(m), Ok(c)) = (parse::parse(s, "path"), parse::parse_comments(s, "path")) else { return };
        map.insert(path, (m, c));
    }
    cover(1);
    let text = doc::generate(
        &doc::Package { name: "p".into(), url: "u".into(), description: "d".into(), type_: "t".into() },
        &map,
        &doc::Configuration { language: "l".into(), private_names: private.iter().map(|s| s.to_string()).collect() },
    );
    dump(text.as_bytes());
    check_lines(&text, &expected(&map, private));
}

fn one(s: &str) {
    documented(vec![(InternalModulePath::new(vec!["M".into()]).into(), s)], &[]);
}

fn letter() -> u8 {
    let b = u8();
    assume(b.is_ascii_alphanumeric() || b == b'_');
    b
}

fn name<const N: usize>() -> String {
    let v: Vec<u8> = (0..N).map(|_| letter()).collect();
    str_of(&v).to_string()
}

/// Lines of a module: blank, a comment, or a declaration with or without a comment after it.
fn lines(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match pick(4) {
            0 => (),
            1 => {
                s.push('#');
                let b = u8();
                assume(b > b' ' && b < 127);
                s.push(b as char);
            }
            2 => s.push_str("type A = b"),
            _ => s.push_str("type A = b # s"),
        }
        s.push('\n');
    }
    s
}

/// Blank lines and comments, at any of two indentations.
fn remarks(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match pick(3) {
            0 => (),
            1 => s.push_str("#x"),
            _ => s.push_str(" # y"),
        }
        s.push('\n');
    }
    s
}

/// Every kind of declaration that may be the first.
const FIRST: &[&str] = &[
    "import 'A",
    "import A'B { C }",
    "import foreign \"c\" f g",
    "type A = b",
    "type A {}",
    "F = \\() a {b}",
    "foreign F = \\() a {b}",
];

entries! {
    fn t_l09_record() { one(&format!("type {} {{\n {} a\n {} b\n}}", name::<2>(), name::<2>(), name::<1>())) }
    fn t_l09_alias() { one(&format!("type {} = a\ntype {} = b", name::<2>(), name::<1>())) }
    fn t_l09_function() { one(&format!("{} = \\() a {{b}}\n{} = \\(x b) a {{b}}", name::<2>(), name::<1>())) }
    fn t_l09_utf8() { one(&format!("{} = \\() a {{b}}", str_of(&raw::<3>(3)))) }
    fn t_l09_private() {
        let names = ["A", "B", "a", "AA"];
        let (x, y, z) = (names[pick(4)], names[pick(4)], names[pick(4)]);
        let p = [names[pick(4)], names[pick(4)]];
        let s = format!("type {x} {{\n B b\n}}\ntype {y} = a\n{z} = \\() a {{b}}");
        documented(vec![(InternalModulePath::new(vec!["M".into()]).into(), &s)], &p);
    }
    fn t_l09_path() {
        let components = if bool() { vec![name::<1>(), name::<1>()] } else { vec![name::<2>()] };
        let path = if bool() {
            ModulePath::from(InternalModulePath::new(components))
        } else {
            ExternalModulePath::new(name::<1>(), components).into()
        };
        documented(vec![(path, "type A = b")], &[]);
    }
    fn t_l09_paths() {
        let a = InternalModulePath::new(vec![name::<1>()]);
        let b = ExternalModulePath::new("p", vec![name::<1>()]);
        documented(vec![(a.into(), "type A = b"), (b.into(), "F = \\() a {b}")], &[]);
    }
    fn t_l10_lines() { let s = lines(4); one(&s) }
    fn t_l10_first() {
        let s = format!("{}{}\n{}G = \\() a {{b}}\n", remarks(3), FIRST[pick(FIRST.len())], remarks(1));
        one(&s)
    }
    fn d_l10_lines() { let s = lines(6); one(&s) }
    fn t_l10_function() {
        let s = format!("import 'A\n{}F = \\() a {{\n  b # {}\n}}\n{}G = \\() a {{\n  b\n}}\n", lines(1), name::<1>(), lines(2));
        one(&s)
    }
    fn t_l10_comment() { let b = bytes::<2>(); one(&format!("#{}\ntype A = b\n", str_of(&b))) }
    fn t_l10_type() { let t = crate::source::holes("type A = (@)@(\\() b@c)@d"); one(str_of(&t)) }
    fn t_l10_signature() { let t = crate::source::holes("F = \\(x (@)@b) \\() (a@b) {c}"); one(str_of(&t)) }
    fn t_l10_record() { let t = crate::source::holes("type A {\n B (@)@b\n C {a:@}\n}"); one(str_of(&t)) }
}
