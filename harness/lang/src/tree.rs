//! A neutral tree for modules: `of` converts the real syntax tree, `reference` produces it independently.
use ast::{types::Type, *};
use position::Position;

pub type P = (u32, u32);

#[derive(Clone)]
pub struct N {
    pub tag: &'static str,
    pub text: String,
    pub pos: P,
    pub kids: Vec<N>,
}

pub const NONE: P = (0, 0);

pub fn n(tag: &'static str, pos: P, text: &str, kids: Vec<N>) -> N {
    N { tag, text: text.into(), pos, kids }
}

pub fn text_eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.as_bytes() == b.as_bytes()
}

fn tag_eq(a: &'static str, b: &'static str) -> bool {
    std::ptr::eq(a.as_ptr(), b.as_ptr()) || a == b
}

pub fn same(a: &N, b: &N, positions: bool) -> bool {
    tag_eq(a.tag, b.tag)
        && a.kids.len() == b.kids.len()
        && (!positions || a.pos == b.pos)
        && text_eq(&a.text, &b.text)
        && a.kids.iter().zip(&b.kids).all(|(a, b)| same(a, b, positions))
}

fn pos(p: &Position) -> P {
    (p.line_number() as u32, p.column_number() as u32)
}

pub fn binary(o: BinaryOperator) -> &'static str {
    match o {
        BinaryOperator::Add => "+",
        BinaryOperator::Subtract => "-",
        BinaryOperator::Multiply => "*",
        BinaryOperator::Divide => "/",
        BinaryOperator::And => "&",
        BinaryOperator::Or => "|",
        BinaryOperator::Equal => "==",
        BinaryOperator::NotEqual => "!=",
        BinaryOperator::LessThan => "<",
        BinaryOperator::LessThanOrEqual => "<=",
        BinaryOperator::GreaterThan => ">",
        BinaryOperator::GreaterThanOrEqual => ">=",
    }
}

fn convention(c: CallingConvention) -> &'static str {
    match c {
        CallingConvention::C => "c",
        CallingConvention::Native => "native",
    }
}

fn list(tag: &'static str, kids: impl IntoIterator<Item = N>) -> N {
    n(tag, NONE, "", kids.into_iter().collect())
}

fn name(s: &str) -> N {
    n("name", NONE, s, vec![])
}

pub fn of_path(path: &ModulePath) -> N {
    match path {
        ModulePath::External(p) => n("external", NONE, p.package(), p.components().iter().map(|c| name(c)).collect()),
        ModulePath::Internal(p) => n("internal", NONE, "", p.components().iter().map(|c| name(c)).collect()),
    }
}

pub fn of(m: &Module) -> N {
    n(
        "module",
        pos(m.position()),
        "",
        vec![
            list(
                "imports",
                m.imports().iter().map(|i| {
                    n(
                        "import",
                        pos(i.position()),
                        "",
                        vec![
                            of_path(i.module_path()),
                            list("prefix", i.prefix().map(name)),
                            list(
                                "names",
                                i.unqualified_names()
                                    .iter()
                                    .map(|x| n("unqualified", pos(x.position()), x.name(), vec![])),
                            ),
                        ],
                    )
                }),
            ),
            list(
                "foreign-imports",
                m.foreign_imports().iter().map(|i| {
                    n(
                        "foreign-import",
                        pos(i.position()),
                        i.name(),
                        vec![name(convention(i.calling_convention())), of_type(i.type_())],
                    )
                }),
            ),
            list(
                "types",
                m.type_definitions().iter().map(|t| match t {
                    TypeDefinition::RecordDefinition(r) => n(
                        "record-definition",
                        pos(r.position()),
                        r.name(),
                        r.fields()
                            .iter()
                            .map(|f| n("field", pos(f.position()), f.name(), vec![of_type(f.type_())]))
                            .collect(),
                    ),
                    TypeDefinition::TypeAlias(t) => n("alias", pos(t.position()), t.name(), vec![of_type(t.type_())]),
                }),
            ),
            list(
                "functions",
                m.function_definitions().iter().map(|f| {
                    n(
                        "function",
                        pos(f.position()),
                        f.name(),
                        vec![
                            list("export", f.foreign_export().map(|e| name(convention(e.calling_convention())))),
                            of_lambda(f.lambda()),
                        ],
                    )
                }),
            ),
        ],
    )
}

pub fn of_type(t: &Type) -> N {
    match t {
        Type::Function(f) => n(
            "function-type",
            pos(f.position()),
            "",
            vec![list("arguments", f.arguments().iter().map(of_type)), of_type(f.result())],
        ),
        Type::List(l) => n("list-type", pos(l.position()), "", vec![of_type(l.element())]),
        Type::Map(m) => n("map-type", pos(m.position()), "", vec![of_type(m.key()), of_type(m.value())]),
        Type::Record(r) => n("record-type", pos(r.position()), r.name(), vec![]),
        Type::Reference(r) => n("reference", pos(r.position()), r.name(), vec![]),
        Type::Union(u) => n("union", pos(u.position()), "", vec![of_type(u.lhs()), of_type(u.rhs())]),
    }
}

fn of_lambda(l: &Lambda) -> N {
    n(
        "lambda",
        pos(l.position()),
        "",
        vec![
            list(
                "arguments",
                l.arguments()
                    .iter()
                    .map(|a| n("argument", pos(a.position()), a.name(), vec![of_type(a.type_())])),
            ),
            of_type(l.result_type()),
            of_block(l.body()),
        ],
    )
}

fn of_block(b: &Block) -> N {
    n(
        "block",
        pos(b.position()),
        "",
        b.statements()
            .iter()
            .map(|s| {
                n(
                    "statement",
                    pos(s.position()),
                    "",
                    vec![list("let", s.name().map(name)), of_expression(s.expression())],
                )
            })
            .chain([of_expression(b.expression())])
            .collect(),
    )
}

pub fn of_expression(e: &Expression) -> N {
    let p = pos(e.position());
    match e {
        Expression::BinaryOperation(o) => {
            n("binary", p, binary(o.operator()), vec![of_expression(o.lhs()), of_expression(o.rhs())])
        }
        Expression::Call(c) => n(
            "call",
            p,
            "",
            [of_expression(c.function())].into_iter().chain(c.arguments().iter().map(of_expression)).collect(),
        ),
        Expression::If(i) => n(
            "if",
            p,
            "",
            i.branches()
                .iter()
                .map(|b| list("branch", [of_expression(b.condition()), of_block(b.block())]))
                .chain([of_block(i.else_())])
                .collect(),
        ),
        Expression::IfList(i) => n(
            "if-list",
            p,
            "",
            vec![
                name(i.first_name()),
                name(i.rest_name()),
                of_expression(i.list()),
                of_block(i.then()),
                of_block(i.else_()),
            ],
        ),
        Expression::IfMap(i) => n(
            "if-map",
            p,
            i.name(),
            vec![of_expression(i.map()), of_expression(i.key()), of_block(i.then()), of_block(i.else_())],
        ),
        Expression::IfType(i) => n(
            "if-type",
            p,
            i.name(),
            [of_expression(i.argument())]
                .into_iter()
                .chain(i.branches().iter().map(|b| list("branch", [of_type(b.type_()), of_block(b.block())])))
                .chain([list("else", i.else_().map(of_block))])
                .collect(),
        ),
        Expression::Lambda(l) => of_lambda(l),
        Expression::List(l) => n(
            "list",
            p,
            "",
            [of_type(l.type_())]
                .into_iter()
                .chain(l.elements().iter().map(|e| match e {
                    ListElement::Multiple(e) => list("multiple", [of_expression(e)]),
                    ListElement::Single(e) => list("single", [of_expression(e)]),
                }))
                .collect(),
        ),
        Expression::ListComprehension(l) => n(
            "comprehension",
            p,
            "",
            [of_type(l.type_()), of_expression(l.element())]
                .into_iter()
                .chain(l.branches().iter().map(|b| {
                    n(
                        "for",
                        pos(b.position()),
                        "",
                        vec![
                            list("names", b.names().iter().map(|x| name(x))),
                            list("in", b.iteratees().iter().map(of_expression)),
                            list("if", b.condition().map(of_expression)),
                        ],
                    )
                }))
                .collect(),
        ),
        Expression::Map(m) => n(
            "map",
            p,
            "",
            [of_type(m.key_type()), of_type(m.value_type())]
                .into_iter()
                .chain(m.elements().iter().map(|e| match e {
                    MapElement::Multiple(e) => list("multiple", [of_expression(e)]),
                    MapElement::Single(e) => {
                        n("entry", pos(e.position()), "", vec![of_expression(e.key()), of_expression(e.value())])
                    }
                }))
                .collect(),
        ),
        Expression::Number(x) => match x.value() {
            NumberRepresentation::Binary(s) => n("binary-number", p, s, vec![]),
            NumberRepresentation::Hexadecimal(s) => n("hexadecimal", p, s, vec![]),
            NumberRepresentation::FloatingPoint(s) => n("decimal", p, s, vec![]),
        },
        Expression::Record(r) => n(
            "record",
            p,
            r.type_name(),
            [list("update", r.record().map(of_expression))]
                .into_iter()
                .chain(
                    r.fields()
                        .iter()
                        .map(|f| n("field", pos(f.position()), f.name(), vec![of_expression(f.expression())])),
                )
                .collect(),
        ),
        Expression::RecordDeconstruction(d) => n("access", p, d.name(), vec![of_expression(d.expression())]),
        Expression::String(s) => n("string", p, s.value(), vec![]),
        Expression::UnaryOperation(o) => n(
            match o.operator() {
                UnaryOperator::Not => "not",
                UnaryOperator::Try => "try",
            },
            p,
            "",
            vec![of_expression(o.expression())],
        ),
        Expression::Variable(v) => n("variable", p, v.name(), vec![]),
    }
}

/// The form in which a module and its formatted text agree: unions flattened, imports and names ordered.
pub fn canonical(t: &N) -> N {
    let mut kids: Vec<N> = t.kids.iter().map(canonical).collect();
    match t.tag {
        "union" => {
            let mut flat = vec![];
            for k in kids {
                if k.tag == "union" {
                    flat.extend(k.kids);
                } else {
                    flat.push(k);
                }
            }
            kids = flat;
        }
        "imports" => sort(&mut kids, |a, b| path_less(&a.kids[0], &b.kids[0])),
        "names" if kids.iter().all(|k| k.tag == "unqualified") => sort(&mut kids, |a, b| a.text < b.text),
        _ => {}
    }
    N { tag: t.tag, text: t.text.clone(), pos: NONE, kids }
}

fn path_less(a: &N, b: &N) -> bool {
    let key = |x: &N| (x.tag == "internal", x.text.clone(), x.kids.iter().map(|k| k.text.clone()).collect::<Vec<_>>());
    key(a) < key(b)
}

// Stable insertion sort.
fn sort(v: &mut [N], less: impl Fn(&N, &N) -> bool) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && less(&v[j], &v[j - 1]) {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
}

pub fn show(t: &N, out: &mut String) {
    out.push('(');
    out.push_str(t.tag);
    if !t.text.is_empty() {
        out.push(' ');
        out.push_str(&t.text);
    }
    if t.pos != NONE {
        out.push_str(&format!("@{}:{}", t.pos.0, t.pos.1));
    }
    for k in &t.kids {
        out.push(' ');
        show(k, out);
    }
    out.push(')');
}
