//! N02: what names stand for.
use crate::literals::place;
use ast::{self, types as at};
use fnv::FnvHashMap;
use hir::{ir, types};
use sym::*;

const PREFIX: &str = "m:";

/// A module that imports b and t of another one, and c and u by its prefix; it has a and r itself.
struct World {
    /// Whether b and t are its own as well.
    own: bool,
    prefix: bool,
}

fn world() -> World {
    World { own: bool(), prefix: bool() }
}

impl World {
    fn qualifier(&self) -> &'static str {
        if self.prefix { "Q" } else { "Bar" }
    }

    /// The name of a variable that no scope binds.
    fn global(&self, v: &str) -> ir::Expression {
        let name = |n: String| ir::Variable::new(n, place()).into();
        let (q, n) = v.split_once('\'').unwrap_or(("", v));
        match (q, n) {
            ("", "a") => name(format!("{PREFIX}a")),
            ("", "b") if self.own => name(format!("{PREFIX}b")),
            ("", "b") => name("i:b".into()),
            (q, "c") if q == self.qualifier() => name("i:c".into()),
            ("", "none") => ir::None::new(place()).into(),
            ("", "true") => ir::Boolean::new(true, place()).into(),
            ("", "debug") => ir::BuiltInFunction::new(ir::BuiltInFunctionName::Debug, place()).into(),
            _ => name(v.into()),
        }
    }

    fn variable(&self, v: &str, bound: &[&str]) -> ir::Expression {
        if bound.contains(&v) { ir::Variable::new(v, place()).into() } else { self.global(v) }
    }

    fn kind(&self, t: &str) -> types::Type {
        let name = |n: String| types::Reference::new(n, place()).into();
        let (q, n) = t.split_once('\'').unwrap_or(("", t));
        match (q, n) {
            ("", "r") => name(format!("{PREFIX}r")),
            ("", "t") if self.own => name(format!("{PREFIX}t")),
            ("", "t") => name("i:t".into()),
            (q, "u") if q == self.qualifier() => name("i:u".into()),
            ("", "number") => types::Number::new(place()).into(),
            ("", "none") => types::None::new(place()).into(),
            ("", "any") => types::Any::new(place()).into(),
            // of a module's private types only itself knows
            _ => name(t.into()),
        }
    }

    fn compile(&self, body: ast::Block, result: ast::types::Type) -> ir::Module {
        let none = || at::Reference::new("none", place());
        let other = |n: &str| {
            let b = ast::Block::new(vec![], ast::Variable::new("none", place()), place());
            ast::FunctionDefinition::new(n, ast::Lambda::new(vec![], none(), b, place()), None, place())
        };
        let mut fs = vec![ast::FunctionDefinition::new("a", ast::Lambda::new(vec![], result, body, place()), None, place())];
        let mut ts: Vec<ast::TypeDefinition> = vec![ast::RecordDefinition::new("r", vec![], place()).into()];
        if self.own {
            fs.push(other("b"));
            ts.push(ast::TypeAlias::new("t", none(), place()).into());
        }
        let path: ast::ModulePath = ast::ExternalModulePath::new("Foo", vec!["Bar".into()]).into();
        let import = ast::Import::new(
            path.clone(),
            if self.prefix { Some("Q".into()) } else { None },
            vec![ast::UnqualifiedName::new("b", place()), ast::UnqualifiedName::new("t", place())],
            place(),
        );
        let m = ast::Module::new(vec![import], vec![], ts, fs, place());
        let f = |n: &str| interface::FunctionDeclaration::new(format!("i:{n}"), n, types::Function::new(vec![], types::None::new(place()), place()), place());
        let alias = |n: &str, p| interface::TypeAlias::new(format!("i:{n}"), n, types::None::new(place()), p, place());
        let i = interface::Module::new(
            vec![interface::TypeDefinition::new("i:u", "u", vec![], true, true, place())],
            vec![alias("t", true), alias("w", false)],
            vec![f("b"), f("c")],
        );
        let all: FnvHashMap<_, _> = [(path, i)].into_iter().collect();
        match ast_hir::compile(&m, PREFIX, &all, &[]) {
            Ok(m) => m,
            Err(_) => fail("names that are there can be imported"),
        }
    }
}

fn only(m: &ir::Module) -> &ir::FunctionDefinition {
    m.function_definitions().iter().find(|d| d.original_name() == "a").expect("the function is kept")
}

const NAMES: [&str; 5] = ["a", "b", "x", "none", "Bar'c"];

fn choose(n: usize) -> &'static str {
    NAMES[pick(n)]
}

/// Each form of expression that binds a name, with variables in and around it.
pub fn scope(form: usize) {
    let w = world();
    let n = if form == 6 { "z" } else { choose(4) };
    let (u, v, x) = (choose(5), choose(5), choose(3));
    let var = |v: &str| ast::Expression::from(ast::Variable::new(v, place()));
    let block = |v: &str| ast::Block::new(vec![], var(v), place());
    let number = || at::Reference::new("number", place());
    let num = || types::Number::new(place());
    let (out, ins) = (|v| w.variable(v, &[]), |v| w.variable(v, &[n]));
    let (body, expected): (ast::Block, ir::Expression) = match form {
        0 => {
            let l = ast::Lambda::new(vec![ast::Argument::new(n, number(), place())], number(), block(v), place());
            let k = ir::Lambda::new(vec![ir::Argument::new(n, num())], num(), ins(v), place());
            (
                ast::Block::new(vec![], ast::Call::new(var(u), vec![l.into(), var(x)], place()), place()),
                ir::Call::new(None, out(u), vec![k.into(), out(x)], place()).into(),
            )
        }
        1 => (
            ast::Block::new(
                vec![ast::Statement::new(Some(n.into()), var(u), place()), ast::Statement::new(None, var(x), place())],
                var(v),
                place(),
            ),
            ir::Let::new(Some(n.into()), None, out(u), ir::Let::new(None, None, ins(x), ins(v), place()), place()).into(),
        ),
        2 => {
            let (f, r) = if bool() { (n, "y") } else { ("y", n) };
            (
                ast::Block::new(vec![], ast::IfList::new(var(u), f, r, block(v), block(x), place()), place()),
                ir::IfList::new(None, out(u), f, r, ins(v), out(x), place()).into(),
            )
        }
        3 => (
            ast::Block::new(vec![], ast::IfMap::new(n, var(u), var(x), block(v), block(x), place()), place()),
            ir::IfMap::new(None, None, n, out(u), out(x), ins(v), out(x), place()).into(),
        ),
        4 => {
            let b = vec![ast::IfTypeBranch::new(number(), block(v))];
            let c = vec![ir::IfTypeBranch::new(num(), ins(v))];
            (
                ast::Block::new(vec![], ast::IfType::new(n, var(u), b, Some(block(x)), place()), place()),
                ir::IfType::new(n, out(u), c, Some(ir::ElseBranch::new(None, ins(x), place())), place()).into(),
            )
        }
        5 => {
            // the last of the branches is the outermost
            let c = bool();
            let b = vec![
                ast::ListComprehensionBranch::new(vec!["y".into()], vec![var(x)], None, place()),
                ast::ListComprehensionBranch::new(vec![n.into()], vec![var(u)], c.then(|| var(v)), place()),
            ];
            let iteratee = |e| ir::ListComprehensionIteratee::new(None, e);
            let d = vec![
                ir::ListComprehensionBranch::new(vec![n.into()], vec![iteratee(out(u))], c.then(|| ins(v)), place()),
                ir::ListComprehensionBranch::new(vec!["y".into()], vec![iteratee(ins(x))], None, place()),
            ];
            (
                ast::Block::new(vec![], ast::ListComprehension::new(number(), var(v), b, place()), place()),
                ir::ListComprehension::new(num(), ins(v), d, place()).into(),
            )
        }
        _ => {
            let b = vec![ast::IfBranch::new(var(u), block(v)), ast::IfBranch::new(var(x), block(u))];
            (
                ast::Block::new(vec![], ast::If::new(b, block(x), place()), place()),
                ir::If::new(out(u), out(v), ir::If::new(out(x), out(u), out(x), place()), place()).into(),
            )
        }
    };
    let m = w.compile(body, number().into());
    let d = only(&m);
    check(d.name() == "m:a", "a function has the name of its module and its own");
    check(*d.lambda().body() == expected, "names stand for what is bound nearest, then for what the module has, imports, and what is built in");
    cover(1);
}

/// Types at every place that they have in expressions.
pub fn kinds() {
    let w = world();
    let t = ["r", "t", "Bar'u", "number", "any", "w", "Q'u"][pick(7)];
    let a = || at::Type::from(at::Reference::new(t, place()));
    let r = || w.kind(t);
    let v = || ast::Expression::from(ast::Variable::new("x", place()));
    let x = || ir::Expression::from(ir::Variable::new("x", place()));
    let (e, f): (ast::Expression, ir::Expression) = match pick(8) {
        0 => (ast::List::new(a(), vec![], place()).into(), ir::List::new(r(), vec![], place()).into()),
        1 => (ast::Map::new(a(), a(), vec![], place()).into(), ir::Map::new(r(), r(), vec![], place()).into()),
        2 => (
            ast::ListComprehension::new(a(), v(), vec![], place()).into(),
            ir::ListComprehension::new(r(), x(), vec![], place()).into(),
        ),
        3 => (
            ast::IfType::new("x", v(), vec![ast::IfTypeBranch::new(a(), ast::Block::new(vec![], v(), place()))], None, place()).into(),
            ir::IfType::new("x", x(), vec![ir::IfTypeBranch::new(r(), x())], None, place()).into(),
        ),
        4 => (
            ast::Record::new(t, Option::None, vec![], place()).into(),
            ir::RecordConstruction::new(r(), vec![], place()).into(),
        ),
        5 => (
            ast::Record::new(t, Some(v()), vec![], place()).into(),
            ir::RecordUpdate::new(r(), x(), vec![], place()).into(),
        ),
        6 => {
            let g = at::Function::new(vec![a()], at::Union::new(at::List::new(a(), place()), a(), place()), place());
            let h = types::Function::new(vec![r()], types::Union::new(types::List::new(r(), place()), r(), place()), place());
            let l = ast::Lambda::new(vec![ast::Argument::new("x", g, place())], a(), ast::Block::new(vec![], v(), place()), place());
            (l.into(), ir::Lambda::new(vec![ir::Argument::new("x", h)], r(), x(), place()).into())
        }
        _ => {
            let g = at::Map::new(a(), a(), place());
            let h = types::Map::new(r(), r(), place());
            (ast::List::new(g, vec![], place()).into(), ir::List::new(h, vec![], place()).into())
        }
    };
    let m = w.compile(ast::Block::new(vec![], e, place()), a());
    let d = only(&m);
    check(*d.lambda().result_type() == r(), "names of types stand for what the module has, imports, and what is built in");
    check(*d.lambda().body() == f, "names of types stand for what the module has, imports, and what is built in");
    cover(1);
}

/// What the module knows of others, and what it can import.
pub fn imports() {
    let (p, q, public, open) = (bool(), bool(), bool(), bool());
    let path = |n: &str| ast::ModulePath::from(ast::InternalModulePath::new(vec![n.into()]));
    let name = ["f", "r", "a", "z"][pick(4)];
    let import = |n: &str, l| ast::Import::new(path(n), None, l, place());
    let m = ast::Module::new(
        vec![import("P", vec![ast::UnqualifiedName::new(name, place())]), import("Q", vec![])],
        vec![],
        vec![],
        vec![],
        place(),
    );
    let t = || types::Function::new(vec![], types::None::new(place()), place());
    // both know the types of one more module, which may be public in one of them only
    let i = |n: &str, public, open| {
        interface::Module::new(
            vec![interface::TypeDefinition::new("o:r", "r", vec![], open, public, place())],
            vec![interface::TypeAlias::new("o:a", "a", types::None::new(place()), public, place())],
            vec![interface::FunctionDeclaration::new(format!("{n}:f"), "f", t(), place())],
        )
    };
    let mut all: FnvHashMap<_, _> = Default::default();
    if p {
        all.insert(path("P"), i("p", public, open));
    }
    if q {
        all.insert(path("Q"), i("q", !public, open));
    }
    let prelude = i("prelude", false, open);
    match ast_hir::compile(&m, PREFIX, &all, &[prelude]) {
        Ok(m) => {
            check(p && q && name != "z", "what is not there cannot be imported");
            let [d] = m.type_definitions() else { fail("a type of several modules is one") };
            check(
                d.name() == "o:r" && d.original_name() == "r" && d.is_external() && d.is_public() && d.is_open() == open,
                "a type is known as it is defined, and is public if it is in a module that is imported",
            );
            let [a] = m.type_aliases() else { fail("a type of several modules is one") };
            check(
                a.name() == "o:a" && a.is_external() && a.is_public(),
                "a type is known as it is defined, and is public if it is in a module that is imported",
            );
            let f: Vec<_> = m.function_declarations().iter().map(|d| d.name()).collect();
            check(f == ["p:f", "q:f", "prelude:f"], "all functions of the modules are declared");
            cover(1);
        }
        Err(_) => {
            check(!(p && q && name != "z"), "what is there can be imported");
            cover(2);
        }
    }
}
