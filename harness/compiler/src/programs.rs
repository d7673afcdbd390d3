//! T04 and T05: whole functions.
use crate::{kinds::*, program::*};
use hir::ir::BuiltInFunctionName as B;
use sym::*;

static RUN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn running(f: impl FnOnce()) {
    RUN.store(true, std::sync::atomic::Ordering::Relaxed);
    f()
}

fn world() -> World {
    World {
        run: RUN.load(std::sync::atomic::Ordering::Relaxed),
        al: vec![("A", union(Number, T::None)), ("B", union(Number, Error)), ("C", list(Number))],
        records: vec![
            (b'r', vec![("p", Number), ("q", Alias("A"))], true),
            (b's', vec![("p", Number)], false),
        ],
    }
}

fn bx(e: E) -> Box<E> {
    e.into()
}
fn x() -> E {
    E::Var("x")
}
fn y() -> E {
    E::Var("y")
}
fn call(n: &'static str) -> E {
    E::Call(bx(E::Var(n)), vec![])
}
fn number() -> E {
    // no undefined ones, whose bits need not be kept
    let b = u64();
    assume(b >> 52 != 0x7ff && b >> 52 != 0xfff);
    E::Num(b)
}
fn of(l: Vec<E>) -> E {
    let k = pick(l.len());
    l.into_iter().nth(k).unwrap()
}
fn leaf() -> E {
    of(vec![x(), y(), number(), E::Nothing])
}

pub fn branch() {
    let c = of(vec![x(), E::Truth(bool())]);
    world().decide(
        vec![("x", choose(&[Boolean, Any, Number])), ("y", choose(&[Number, Alias("A"), Any, Boolean]))],
        choose(&[Number, Alias("A"), Any, Boolean]),
        E::If(bx(c), bx(leaf()), bx(of(vec![y(), E::Nothing, E::If(bx(x()), bx(E::Nothing), bx(number()))]))),
    )
}

pub fn kinds(deep: bool) {
    let bs = [Number, T::None, Error, Alias("A"), Any, Record(b'r')];
    let bs = if deep { &bs[..] } else { &bs[..5] };
    let body = || of(vec![E::Var("v"), E::Num(0), x()]);
    let mut l = vec![(choose(bs), body())];
    if bool() {
        l.push((choose(bs), body()));
    }
    let other = if bool() { Some(bx(of(vec![E::Var("v"), E::Nothing]))) } else { Option::None };
    world().decide(
        vec![("x", choose(&[Any, Alias("A"), union(Alias("A"), Error), union(Number, Record(b'r')), Number]))],
        choose(&[Alias("A"), Any, Number]),
        E::IfType("v", bx(x()), l, other),
    )
}

pub fn lists() {
    let a = of(vec![call("a"), E::Var("b"), number(), x()]);
    let c = of(vec![x(), E::Nothing, call("a"), E::List(Number, vec![(false, E::Num(0))])]);
    world().decide(
        vec![("x", choose(&[Alias("C"), list(Alias("A")), Number, Any, union(list(Number), T::None)]))],
        choose(&[Number, Alias("C"), union(Alias("C"), T::None), Any, Alias("A"), list(Alias("A"))]),
        E::IfList(bx(x()), "a", "b", bx(a), bx(c)),
    )
}

pub fn maps() {
    let a = of(vec![E::Var("v"), number(), x()]);
    let c = of(vec![x(), E::Nothing, E::Var("v")]);
    world().decide(
        vec![
            ("x", choose(&[map(Number, Number), map(Alias("A"), T::String), map(Any, Alias("A")), Number])),
            ("y", choose(&[Number, T::None, Any, Alias("A")])),
        ],
        choose(&[Alias("A"), Any, Number, union(T::String, map(Alias("A"), T::String))]),
        E::IfMap("v", bx(x()), bx(of(vec![y(), number(), E::Nothing])), bx(a), bx(c)),
    )
}

pub fn calls() {
    let mut a = vec![leaf()];
    match pick(3) {
        0 => a.clear(),
        1 => a.push(of(vec![number(), y()])),
        _ => (),
    }
    let f = of(vec![x(), E::Var("f"), E::Lambda(vec![("a", Alias("A"))], Number, bx(of(vec![E::Var("a"), number()])))]);
    world().decide(
        vec![
            (
                "x",
                choose(&[
                    function(vec![Alias("A")], Number),
                    function(vec![Any, Number], Alias("A")),
                    function(vec![], Number),
                    Number,
                    Any,
                ]),
            ),
            ("y", choose(&[Number, T::None, Any])),
        ],
        choose(&[Number, Alias("A"), Any]),
        E::Call(bx(f), a),
    )
}

pub fn closures() {
    let inner = E::Lambda(
        vec![("a", choose(&[Number, Alias("A"), Any]))],
        choose(&[Number, Alias("A")]),
        bx(of(vec![E::Var("a"), x(), E::Try(bx(x())), E::Call(bx(E::Var("f")), vec![x()])])),
    );
    world().decide(
        vec![("x", choose(&[Number, Alias("A"), Any, Alias("B")]))],
        choose(&[
            function(vec![Number], Number),
            function(vec![Alias("A")], Alias("A")),
            Any,
            union(function(vec![Number], Alias("A")), T::None),
        ]),
        if bool() { E::Let(Some("g"), bx(inner), bx(E::Var("g"))) } else { inner },
    )
}

pub fn lets() {
    let n = if bool() { Some("v") } else { Option::None };
    let b = of(vec![x(), number(), E::Try(bx(x())), E::Let(Option::None, bx(x()), bx(E::Nothing))]);
    let e = of(vec![E::Var("v"), x(), E::Nothing, E::Let(Some("x"), bx(E::Nothing), bx(x()))]);
    world().decide(
        vec![("x", choose(&[Number, Alias("A"), Any, Alias("B"), Error, union(Alias("A"), Error)]))],
        choose(&[Number, Alias("A"), Any, Alias("B")]),
        E::Let(n, bx(b), bx(e)),
    )
}

pub fn elements() {
    let l: Vec<_> = (0..2).map(|_| (bool(), of(vec![x(), y(), number(), E::Try(bx(x()))]))).collect();
    world().decide(
        vec![("x", choose(&[Number, Alias("A"), Alias("C"), Alias("B"), list(Any)])), ("y", choose(&[Alias("C"), list(Alias("A")), Any]))],
        choose(&[Alias("C"), list(Alias("A")), list(Any), Any]),
        E::List(choose(&[Number, Alias("A"), Any]), l),
    )
}

pub fn comprehensions(way: usize) {
    let xs = choose(&[Alias("C"), list(Alias("A")), list(Alias("C")), Number]);
    let ys = choose(&[list(T::String), Alias("C")]);
    let (names, bs) = match way {
        0 => (
            vec![("x", xs), ("y", ys)],
            vec![(vec!["a"], vec![of(vec![x(), y()])], of(vec![E::Truth(bool()), call("a"), E::Less(bx(call("a")), bx(number()))]))]
                .into_iter()
                .map(|(n, l, c)| (n, l, if bool() { Some(c) } else { Option::None }))
                .collect(),
        ),
        // two lists side by side; the names are not yet known in them
        1 => (
            vec![("x", xs), ("a", ys)],
            vec![(
                if bool() { vec!["a", "b"] } else { vec!["b"] },
                vec![of(vec![x(), E::Var("a")]), of(vec![x(), E::Var("a"), E::Var("b"), call("a")])],
                Option::None,
            )],
        ),
        // one after another: the first's names are known in the second
        _ => (
            vec![("x", xs), ("a", ys)],
            vec![
                (vec!["a"], vec![x()], Option::None),
                (vec!["b"], vec![of(vec![E::Var("a"), call("a"), x()])], Option::None),
            ],
        ),
    };
    let e = of(vec![call("a"), call("b"), number(), E::Add(bx(call("a")), bx(call("b"))), E::Try(bx(call("a")))]);
    world().decide(
        names,
        choose(&[list(Number), list(Alias("A")), Any]),
        E::Each(choose(&[Number, Alias("A"), Any]), bx(e), bs),
    )
}

pub fn entries() {
    let one = |a, b| (a, Some(b));
    let l = match pick(3) {
        0 => vec![one(leaf(), leaf())],
        1 => vec![(x(), Option::None), one(number(), leaf())],
        _ => vec![(of(vec![x(), y()]), Option::None), (x(), Option::None)],
    };
    world().decide(
        vec![
            ("x", choose(&[map(Number, Number), map(Alias("A"), Number), map(Number, Any), Number])),
            ("y", choose(&[Number, Alias("A"), Alias("C")])),
        ],
        choose(&[map(Number, Number), map(Alias("A"), Alias("A")), Any]),
        E::Map(choose(&[Number, Alias("A")]), choose(&[Number, Alias("A"), Any]), l),
    )
}

pub fn operations() {
    let (a, b) = (bx(leaf()), bx(of(vec![x(), y(), E::Text(u8()), E::Truth(bool())])));
    let e = match pick(6) {
        0 => E::Add(a, b),
        1 => E::Subtract(a, b),
        2 => E::And(a, b),
        3 => E::Less(a, b),
        4 => E::Not(b),
        _ => E::Equal(a, b),
    };
    let t = [Number, T::String, Boolean, Alias("A"), Any, function(vec![], Number)];
    world().decide(vec![("x", choose(&t)), ("y", choose(&t))], choose(&[Number, T::String, Boolean, Any]), e)
}

pub fn tries() {
    let t = E::Try(bx(of(vec![x(), E::Call(bx(E::Var("f")), vec![x()]), E::BuiltIn(B::Error, vec![x()])])));
    let e = match pick(6) {
        0 => t,
        1 => E::Add(bx(t), bx(number())),
        2 => E::If(bx(E::Truth(true)), bx(t), bx(E::Nothing)),
        3 => E::Lambda(vec![], choose(&[Number, Alias("B"), Any]), bx(t)),
        4 => E::List(Any, vec![(false, E::Call(bx(E::Lambda(vec![], choose(&[Number, Alias("B")]), bx(t))), vec![]))]),
        _ => E::Map(Any, Any, vec![(t, Some(E::Nothing))]),
    };
    world().decide(
        vec![("x", choose(&[Alias("B"), union(Alias("B"), T::None), Error, Any, Number]))],
        choose(&[Alias("B"), union(Alias("B"), T::None), Any, Number, function(vec![], Alias("B")), list(Any)]),
        e,
    )
}

pub fn records() {
    let w = world();
    let t = choose(&[Record(b'r'), Record(b's'), Number, Alias("A")]);
    let p = ("p", of(vec![number(), y()]));
    let q = ("q", of(vec![E::Nothing, y()]));
    let m = pick(4);
    let fs = match pick(if m == 0 { 5 } else { 4 }) {
        0 => vec![p],
        1 => vec![q],
        2 => vec![p, q],
        3 => vec![q, p],
        _ => vec![],
    };
    let e = match m {
        0 => E::Make(t, fs),
        1 => E::Update(t, bx(x()), fs),
        2 => E::Get(bx(x()), FIELDS[pick(2)]),
        _ => E::Get(bx(E::Update(t, bx(x()), fs)), FIELDS[pick(2)]),
    };
    w.decide(
        vec![("x", choose(&[Record(b'r'), Record(b's'), union(Record(b'r'), T::None), Any])), ("y", choose(&[Number, Alias("A")]))],
        choose(&[Record(b'r'), Alias("A"), Number, Any]),
        e,
    )
}

pub fn built_in() {
    let all = [
        B::Debug, B::Delete, B::Error, B::Keys, B::Race, B::ReflectDebug, B::ReflectEqual, B::Size, B::Source, B::Spawn,
        B::Values,
    ];
    let f = all[pick(all.len())];
    let a = match pick(4) {
        0 => vec![],
        1 => vec![x()],
        2 => vec![x(), of(vec![y(), number()])],
        _ => vec![x(), y(), y()],
    };
    world().decide(
        vec![
            (
                "x",
                choose(&[
                    Number,
                    Any,
                    Error,
                    Alias("C"),
                    list(Alias("C")),
                    map(Alias("A"), Number),
                    function(vec![], Number),
                    function(vec![Number], Number),
                ]),
            ),
            ("y", choose(&[Number, Any, T::None])),
        ],
        choose(&[Number, Any, T::None, list(Alias("A")), function(vec![], Number), map(Alias("A"), Number)]),
        E::BuiltIn(f, a),
    )
}
