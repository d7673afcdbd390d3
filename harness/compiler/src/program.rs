//! Expressions, the types the language gives them, and what analysis makes of them.
use crate::kinds::*;
use hir::{
    analysis::{analyze, type_collector, AnalysisContext},
    ir::{self, *},
    types,
};
use sym::*;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Truth(bool),
    /// A number by its bits, which may be symbolic.
    Num(u64),
    Nothing,
    Text(u8),
    Var(&'static str),
    If(Box<E>, Box<E>, Box<E>),
    IfList(Box<E>, &'static str, &'static str, Box<E>, Box<E>),
    IfMap(&'static str, Box<E>, Box<E>, Box<E>, Box<E>),
    IfType(&'static str, Box<E>, Vec<(T, E)>, Option<Box<E>>),
    Call(Box<E>, Vec<E>),
    BuiltIn(BuiltInFunctionName, Vec<E>),
    Lambda(Vec<(&'static str, T)>, T, Box<E>),
    Let(Option<&'static str>, Box<E>, Box<E>),
    /// An element that is a list stands for its elements.
    List(T, Vec<(bool, E)>),
    Each(T, Box<E>, Vec<(Vec<&'static str>, Vec<E>, Option<E>)>),
    Map(T, T, Vec<(E, Option<E>)>),
    Add(Box<E>, Box<E>),
    Subtract(Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Equal(Box<E>, Box<E>),
    Less(Box<E>, Box<E>),
    Not(Box<E>),
    Try(Box<E>),
    Make(T, Vec<(&'static str, E)>),
    Get(Box<E>, &'static str),
    Update(T, Box<E>, Vec<(&'static str, E)>),
}

const NAMES: [&str; 9] = ["x", "y", "f", "a", "b", "c", "v", "w", "g"];
pub const FIELDS: [&str; 2] = ["p", "q"];

fn name(n: &str) -> &'static str {
    NAMES.iter().chain(&FIELDS).find(|x| **x == n).expect("a known name")
}

pub struct World {
    pub al: Aliases,
    /// Whether functions that are accepted are run.
    pub run: bool,
    /// The fields of each record, and whether it is open to this module.
    pub records: Vec<(u8, Vec<(&'static str, T)>, bool)>,
}

pub type Env = Vec<(&'static str, T)>;

fn find(env: &Env, n: &str) -> Option<T> {
    env.iter().rev().find(|x| x.0 == n).map(|x| x.1.clone())
}

fn with(env: &Env, more: impl IntoIterator<Item = (&'static str, T)>) -> Env {
    env.iter().cloned().chain(more).collect()
}

impl World {
    fn elements(&self, t: &T) -> Option<T> {
        match t.single(&self.al)? {
            T::List(e) => Some(*e),
            _ => Option::None,
        }
    }
    fn entries(&self, t: &T) -> Option<(T, T)> {
        match t.single(&self.al)? {
            T::Map(k, v) => Some((*k, *v)),
            _ => Option::None,
        }
    }
    fn function(&self, t: &T) -> Option<(Vec<T>, T)> {
        match t.single(&self.al)? {
            Function(a, r) => Some((a, *r)),
            _ => Option::None,
        }
    }
    fn fields(&self, t: &T) -> Option<&(u8, Vec<(&'static str, T)>, bool)> {
        match t.single(&self.al)? {
            Record(n) => self.records.iter().find(|r| r.0 == n),
            _ => Option::None,
        }
    }
    fn below(&self, a: &T, b: &T) -> Option<()> {
        below(a, b, &self.al).then_some(())
    }
    fn equal(&self, a: &T, b: &T) -> bool {
        equal(a, b, &self.al)
    }

    /// The type that the language gives to an expression, if it has one. The result is that of the function around
    /// it, to which errors go; there is none within elements of lists, which are evaluated later.
    pub fn ty(&self, e: &E, env: &Env, result: Option<&T>) -> Option<T> {
        let of = |e: &E, env: &Env| self.ty(e, env, result);
        let is = |e: &E, t: &T| self.below(&of(e, env)?, t);
        Some(match e {
            E::Truth(_) => Boolean,
            E::Num(_) => Number,
            E::Nothing => T::None,
            E::Text(_) => String,
            E::Var(n) => find(env, n)?,
            E::If(c, t, u) => {
                is(c, &Boolean)?;
                union(of(t, env)?, of(u, env)?)
            }
            E::IfList(l, first, rest, t, u) => {
                let e = self.elements(&of(l, env)?)?;
                let inner = with(env, [(*first, function(vec![], e.clone())), (*rest, list(e))]);
                union(of(t, &inner)?, of(u, env)?)
            }
            E::IfMap(n, m, k, t, u) => {
                let (key, value) = self.entries(&of(m, env)?)?;
                is(k, &key)?;
                union(of(t, &with(env, [(*n, value)]))?, of(u, env)?)
            }
            E::IfType(n, a, bs, other) => {
                let t = of(a, env)?;
                if t.single(&self.al).is_some() && !t.is_any(&self.al) {
                    return Option::None;
                }
                let mut all: Option<T> = Option::None;
                let mut r: Option<T> = Option::None;
                let join = |a: Option<T>, b: T| Some(match a {
                    Some(a) => union(a, b),
                    Option::None => b,
                });
                for (k, b) in bs {
                    self.below(k, &t)?;
                    if k.is_any(&self.al) {
                        return Option::None;
                    }
                    all = join(all, k.clone());
                    r = join(r, of(b, &with(env, [(*n, k.clone())]))?);
                }
                let all = all?;
                match other {
                    Some(b) => r = join(r, of(b, &with(env, [(*n, without(&t, &all, &self.al)?)]))?),
                    Option::None => {
                        if !self.equal(&t, &all) {
                            return Option::None;
                        }
                    }
                }
                r?
            }
            E::Call(f, a) => {
                let (p, r) = self.function(&of(f, env)?)?;
                if p.len() != a.len() {
                    return Option::None;
                }
                for (a, p) in a.iter().zip(&p) {
                    is(a, p)?;
                }
                r
            }
            E::BuiltIn(n, a) => {
                let t = a.iter().map(|a| of(a, env)).collect::<Option<Vec<_>>>()?;
                use BuiltInFunctionName as B;
                match (n, &t[..]) {
                    (B::Debug, [_]) => T::None,
                    (B::Error, [_]) => Error,
                    (B::ReflectDebug, [_]) => String,
                    (B::ReflectEqual, [_, _]) => union(Boolean, T::None),
                    (B::Source, [e]) => {
                        self.below(e, &Error)?;
                        Any
                    }
                    (B::Keys, [m]) => list(self.entries(m)?.0),
                    (B::Values, [m]) => list(self.entries(m)?.1),
                    (B::Delete, [m, k]) => {
                        self.below(k, &self.entries(m)?.0)?;
                        m.clone()
                    }
                    (B::Size, [c]) => {
                        if self.elements(c).is_none() && self.entries(c).is_none() {
                            return Option::None;
                        }
                        Number
                    }
                    (B::Race, [l]) => {
                        let e = self.elements(l)?;
                        self.elements(&e)?;
                        e
                    }
                    (B::Spawn, [f]) => {
                        if !self.function(f)?.0.is_empty() {
                            return Option::None;
                        }
                        f.clone()
                    }
                    _ => return Option::None,
                }
            }
            E::Lambda(p, r, b) => {
                self.below(&self.ty(b, &with(env, p.iter().cloned()), Some(r))?, r)?;
                function(p.iter().map(|p| p.1.clone()).collect(), r.clone())
            }
            E::Let(n, b, e) => {
                let t = of(b, env)?;
                match n {
                    Some(n) => of(e, &with(env, [(*n, t)]))?,
                    Option::None => {
                        if !t.is_any(&self.al) && below(&Error, &t, &self.al) {
                            return Option::None;
                        }
                        of(e, env)?
                    }
                }
            }
            E::List(t, l) => {
                for (many, e) in l {
                    let u = self.ty(e, env, Option::None)?;
                    self.below(&if *many { self.elements(&u)? } else { u }, t)?;
                }
                list(t.clone())
            }
            E::Each(t, e, bs) => {
                let mut env = env.clone();
                for (names, lists, c) in bs {
                    if names.len() != lists.len() {
                        return Option::None;
                    }
                    let mut more = vec![];
                    for (n, l) in names.iter().zip(lists) {
                        more.push((*n, function(vec![], self.elements(&self.ty(l, &env, Option::None)?)?)));
                    }
                    env.extend(more);
                    if let Some(c) = c {
                        self.below(&self.ty(c, &env, Option::None)?, &Boolean)?;
                    }
                }
                self.below(&self.ty(e, &env, Option::None)?, t)?;
                list(t.clone())
            }
            E::Map(k, v, l) => {
                for (a, b) in l {
                    match b {
                        Some(b) => {
                            is(a, k)?;
                            is(b, v)?;
                        }
                        Option::None => {
                            let (i, j) = self.entries(&of(a, env)?)?;
                            self.below(&i, k)?;
                            self.below(&j, v)?;
                        }
                    }
                }
                map(k.clone(), v.clone())
            }
            E::Add(a, b) => {
                let t = of(a, env)?.single(&self.al)?;
                if t != Number && t != String {
                    return Option::None;
                }
                is(b, &t)?;
                t
            }
            E::Subtract(a, b) => {
                is(a, &Number)?;
                is(b, &Number)?;
                Number
            }
            E::Less(a, b) => {
                is(a, &Number)?;
                is(b, &Number)?;
                Boolean
            }
            E::And(a, b) => {
                is(a, &Boolean)?;
                is(b, &Boolean)?;
                Boolean
            }
            E::Not(a) => {
                is(a, &Boolean)?;
                Boolean
            }
            E::Equal(a, b) => {
                let (a, b) = (of(a, env)?, of(b, env)?);
                if !below(&a, &b, &self.al) && !below(&b, &a, &self.al) {
                    return Option::None;
                }
                Boolean
            }
            E::Try(a) => {
                let t = of(a, env)?;
                self.below(&Error, result?)?;
                if t.is_any(&self.al) {
                    return Option::None;
                }
                self.below(&Error, &t)?;
                without(&t, &Error, &self.al)?
            }
            E::Make(t, fs) => {
                let (_, all, open) = self.fields(t)?;
                for (n, e) in fs {
                    is(e, &all.iter().find(|f| f.0 == *n)?.1)?;
                }
                if !open || !all.iter().all(|f| fs.iter().any(|g| g.0 == f.0)) {
                    return Option::None;
                }
                t.clone()
            }
            E::Get(a, n) => {
                let t = of(a, env)?;
                let (_, all, open) = self.fields(&t)?;
                if !open {
                    return Option::None;
                }
                all.iter().find(|f| f.0 == *n)?.1.clone()
            }
            E::Update(t, a, fs) => {
                is(a, t)?;
                let (_, all, open) = self.fields(t)?;
                for (n, e) in fs {
                    is(e, &all.iter().find(|f| f.0 == *n)?.1)?;
                }
                if !open {
                    return Option::None;
                }
                t.clone()
            }
        })
    }
}

impl E {
    pub fn real(&self) -> Expression {
        let p = place();
        let r = E::real;
        let fields = |fs: &[(&'static str, E)]| fs.iter().map(|(n, e)| RecordField::new(*n, r(e), place())).collect();
        match self {
            E::Truth(b) => ir::Boolean::new(*b, p).into(),
            E::Num(n) => ir::Number::new(f64::from_bits(*n), p).into(),
            E::Nothing => ir::None::new(p).into(),
            E::Text(b) => ByteString::new(vec![*b], p).into(),
            E::Var(n) => Variable::new(*n, p).into(),
            E::If(c, t, e) => If::new(r(c), r(t), r(e), p).into(),
            E::IfList(l, a, b, t, e) => IfList::new(Option::None, r(l), *a, *b, r(t), r(e), p).into(),
            E::IfMap(n, m, k, t, e) => IfMap::new(Option::None, Option::None, *n, r(m), r(k), r(t), r(e), p).into(),
            E::IfType(n, a, bs, e) => IfType::new(
                *n,
                r(a),
                bs.iter().map(|(t, e)| IfTypeBranch::new(t.real(), r(e))).collect(),
                e.as_ref().map(|e| ElseBranch::new(Option::None, r(e), place())),
                p,
            )
            .into(),
            E::Call(f, a) => Call::new(Option::None, r(f), a.iter().map(r).collect(), p).into(),
            E::BuiltIn(n, a) => {
                Call::new(Option::None, BuiltInFunction::new(*n, place()), a.iter().map(r).collect(), p).into()
            }
            E::Lambda(a, t, b) => lambda(a, t, b).into(),
            E::Let(n, b, e) => Let::new(n.map(|n| n.to_string()), Option::None, r(b), r(e), p).into(),
            E::List(t, l) => ir::List::new(
                t.real(),
                l.iter().map(|(m, e)| if *m { ListElement::Multiple(r(e)) } else { ListElement::Single(r(e)) }).collect(),
                p,
            )
            .into(),
            E::Each(t, e, bs) => ListComprehension::new(
                t.real(),
                r(e),
                bs.iter()
                    .map(|(n, l, c)| {
                        ListComprehensionBranch::new(
                            n.iter().map(|n| n.to_string()).collect(),
                            l.iter().map(|e| ListComprehensionIteratee::new(Option::None, r(e))).collect(),
                            c.as_ref().map(r),
                            place(),
                        )
                    })
                    .collect(),
                p,
            )
            .into(),
            E::Map(k, v, l) => ir::Map::new(
                k.real(),
                v.real(),
                l.iter()
                    .map(|(a, b)| match b {
                        Some(b) => MapElement::Single(MapEntry::new(r(a), r(b), place())),
                        Option::None => MapElement::Multiple(r(a)),
                    })
                    .collect(),
                p,
            )
            .into(),
            E::Add(a, b) => AdditionOperation::new(Option::None, r(a), r(b), p).into(),
            E::Subtract(a, b) => ArithmeticOperation::new(ArithmeticOperator::Subtract, r(a), r(b), p).into(),
            E::And(a, b) => BooleanOperation::new(BooleanOperator::And, r(a), r(b), p).into(),
            E::Equal(a, b) => EqualityOperation::new(Option::None, EqualityOperator::Equal, r(a), r(b), p).into(),
            E::Less(a, b) => OrderOperation::new(OrderOperator::LessThan, r(a), r(b), p).into(),
            E::Not(a) => NotOperation::new(r(a), p).into(),
            E::Try(a) => TryOperation::new(Option::None, r(a), p).into(),
            E::Make(t, fs) => RecordConstruction::new(t.real(), fields(fs), p).into(),
            E::Get(a, n) => RecordDeconstruction::new(Option::None, r(a), *n, p).into(),
            E::Update(t, a, fs) => RecordUpdate::new(t.real(), r(a), fields(fs), p).into(),
        }
    }
}

fn lambda(a: &[(&'static str, T)], t: &T, b: &E) -> ir::Lambda {
    ir::Lambda::new(a.iter().map(|(n, t)| Argument::new(*n, t.real())).collect(), t.real(), b.real(), place())
}

/// What analysis gives, in which every type has to be exactly the one that its place asks for.
struct Strict<'a>(&'a World);

impl Strict<'_> {
    fn same(&self, a: &T, b: &T) {
        check(self.0.equal(a, b), "every value has exactly the type that its place has");
    }

    /// An expression at a place of a type: a coercion where the types differ, and none where they do not.
    fn at(&self, e: &Expression, t: &T, env: &Env) -> E {
        if let Expression::TypeCoercion(c) = e {
            let (b, u) = self.of(c.argument(), env);
            self.same(&T::of(c.from()), &u);
            self.same(&T::of(c.to()), t);
            check(!self.0.equal(&u, t), "values that have the type already are left alone");
            let al = &self.0.al;
            let inner = |u: &T, t: &T| match (u.single(al), t.single(al)) {
                (Some(T::List(a)), Some(T::List(b))) => below(&a, &b, al),
                (Some(T::Map(k, v)), Some(T::Map(l, w))) => below(&k, &l, al) && below(&v, &w, al),
                _ => false,
            };
            check(below(&u, t, al) || inner(&u, t), "values are only made into more general ones");
            return b;
        }
        let (b, u) = self.of(e, env);
        self.same(&u, t);
        b
    }

    fn of(&self, e: &Expression, env: &Env) -> (E, T) {
        let some = |t: Option<&types::Type>| T::of(t.expect("an inferred type"));
        let at = |e: &Expression, t: &T| Box::new(self.at(e, t, env));
        let both = |t: &Expression, te: &Env, u: &Expression, ue: &Env| {
            let ty = self.result(t, te);
            (Box::new(self.at(t, &ty, te)), Box::new(self.at(u, &ty, ue)), ty)
        };
        let fields = |t: &T, fs: &[RecordField]| {
            let all = &self.0.fields(t).expect("a record").1;
            fs.iter()
                .map(|f| {
                    let n = name(f.name());
                    (n, self.at(f.expression(), &all.iter().find(|x| x.0 == n).expect("a field").1, env))
                })
                .collect()
        };
        match e {
            Expression::Boolean(b) => (E::Truth(b.value()), Boolean),
            Expression::Number(n) => (E::Num(n.value().to_bits()), Number),
            Expression::None(_) => (E::Nothing, T::None),
            Expression::String(s) => (E::Text(s.value()[0]), String),
            Expression::Variable(v) => {
                let n = name(v.name());
                (E::Var(n), find(env, n).expect("a variable"))
            }
            Expression::If(i) => {
                let c = at(i.condition(), &Boolean);
                let (t, u, r) = both(i.then(), env, i.else_(), env);
                (E::If(c, t, u), r)
            }
            Expression::IfList(i) => {
                let el = some(i.type_());
                let l = at(i.list(), &list(el.clone()));
                let (a, b) = (name(i.first_name()), name(i.rest_name()));
                let inner = with(env, [(a, function(vec![], el.clone())), (b, list(el))]);
                let (t, u, r) = both(i.then(), &inner, i.else_(), env);
                (E::IfList(l, a, b, t, u), r)
            }
            Expression::IfMap(i) => {
                let (k, v) = (some(i.key_type()), some(i.value_type()));
                let m = at(i.map(), &map(k.clone(), v.clone()));
                let key = at(i.key(), &k);
                let n = name(i.name());
                let (t, u, r) = both(i.then(), &with(env, [(n, v)]), i.else_(), env);
                (E::IfMap(n, m, key, t, u), r)
            }
            Expression::IfType(i) => {
                let n = name(i.name());
                let (a, t) = self.of(i.argument(), env);
                let mut r: Option<T> = Option::None;
                let mut bs = vec![];
                for b in i.branches() {
                    let k = T::of(b.type_());
                    let inner = with(env, [(n, k.clone())]);
                    let ty = r.get_or_insert_with(|| self.result(b.expression(), &inner));
                    bs.push((k, self.at(b.expression(), ty, &inner)));
                }
                let all = bs.iter().map(|b| b.0.clone()).reduce(union).expect("a branch");
                let r = r.expect("a branch");
                let other = i.else_().map(|b| {
                    let k = some(b.type_());
                    self.same(&k, &without(&t, &all, &self.0.al).expect("what is left"));
                    Box::new(self.at(b.expression(), &r, &with(env, [(n, k)])))
                });
                if other.is_none() {
                    self.same(&all, &t);
                }
                (E::IfType(n, a.into(), bs, other), r)
            }
            Expression::Call(c) => {
                let t = some(c.function_type());
                let (p, r) = self.0.function(&t).expect("a function");
                let a = c.arguments().iter().zip(&p).map(|(a, p)| self.at(a, p, env)).collect::<Vec<_>>();
                check(a.len() == p.len() && a.len() == c.arguments().len(), "calls have all arguments");
                if let Expression::BuiltInFunction(f) = c.function() {
                    (E::BuiltIn(f.name(), a), r)
                } else {
                    let (f, u) = self.of(c.function(), env);
                    self.same(&t, &u);
                    (E::Call(f.into(), a), r)
                }
            }
            Expression::Lambda(l) => self.lambda(l, env),
            Expression::Let(l) => {
                let t = some(l.type_());
                let b = at(l.bound_expression(), &t);
                let n = l.name().map(name);
                let (e, r) = self.of(l.expression(), &with(env, n.map(|n| (n, t))));
                (E::Let(n, b, e.into()), r)
            }
            Expression::List(l) => {
                let t = T::of(l.type_());
                let es = l
                    .elements()
                    .iter()
                    .map(|e| match e {
                        ListElement::Multiple(e) => (true, self.at(e, &list(t.clone()), env)),
                        ListElement::Single(e) => (false, self.at(e, &t, env)),
                    })
                    .collect();
                (E::List(t.clone(), es), list(t))
            }
            Expression::ListComprehension(l) => {
                let t = T::of(l.type_());
                let mut env = env.clone();
                let mut bs = vec![];
                for b in l.branches() {
                    let names: Vec<_> = b.names().iter().map(|n| name(n)).collect();
                    let mut more = vec![];
                    let mut lists = vec![];
                    for (n, i) in names.iter().zip(b.iteratees()) {
                        let t = some(i.type_());
                        lists.push(self.at(i.expression(), &t, &env));
                        more.push((*n, function(vec![], self.0.elements(&t).expect("a list"))));
                    }
                    env.extend(more);
                    let c = b.condition().map(|c| self.at(c, &Boolean, &env));
                    bs.push((names, lists, c));
                }
                let e = self.at(l.element(), &t, &env);
                (E::Each(t.clone(), e.into(), bs), list(t))
            }
            Expression::Map(m) => {
                let (k, v) = (T::of(m.key_type()), T::of(m.value_type()));
                let es = m
                    .elements()
                    .iter()
                    .map(|e| match e {
                        MapElement::Multiple(e) => (self.at(e, &map(k.clone(), v.clone()), env), Option::None),
                        MapElement::Single(e) => (self.at(e.key(), &k, env), Some(self.at(e.value(), &v, env))),
                    })
                    .collect();
                (E::Map(k.clone(), v.clone(), es), map(k, v))
            }
            Expression::Operation(o) => match o {
                Operation::Addition(o) => {
                    let t = some(o.type_());
                    check(t == Number || t == String, "numbers or strings are added");
                    (E::Add(at(o.lhs(), &t), at(o.rhs(), &t)), t)
                }
                Operation::Arithmetic(o) => (E::Subtract(at(o.lhs(), &Number), at(o.rhs(), &Number)), Number),
                Operation::Boolean(o) => (E::And(at(o.lhs(), &Boolean), at(o.rhs(), &Boolean)), Boolean),
                Operation::Equality(o) => {
                    let t = some(o.type_());
                    (E::Equal(at(o.lhs(), &t), at(o.rhs(), &t)), Boolean)
                }
                Operation::Not(o) => (E::Not(at(o.expression(), &Boolean)), Boolean),
                Operation::Order(o) => (E::Less(at(o.lhs(), &Number), at(o.rhs(), &Number)), Boolean),
                Operation::Try(o) => {
                    let t = some(o.type_());
                    let (e, u) = self.of(o.expression(), env);
                    self.same(&union(t.clone(), Error), &u);
                    check(!below(&Error, &t, &self.0.al), "what is left is no error");
                    (E::Try(e.into()), t)
                }
            },
            Expression::RecordConstruction(c) => {
                let t = T::of(c.type_());
                (E::Make(t.clone(), fields(&t, c.fields())), t)
            }
            Expression::RecordDeconstruction(d) => {
                let t = some(d.type_());
                let n = name(d.field_name());
                let r = at(d.record(), &t);
                let all = &self.0.fields(&t).expect("a record").1;
                (E::Get(r, n), all.iter().find(|x| x.0 == n).expect("a field").1.clone())
            }
            Expression::RecordUpdate(u) => {
                let t = T::of(u.type_());
                (E::Update(t.clone(), at(u.record(), &t), fields(&t, u.fields())), t)
            }
            Expression::TypeCoercion(_) => fail("values are only made into others where a place asks for it"),
            Expression::BuiltInFunction(_) | Expression::Thunk(_) => fail("no such expression is in the program"),
        }
    }

    /// The type of the first of several branches, which the others have to have too.
    fn result(&self, e: &Expression, env: &Env) -> T {
        match e {
            Expression::TypeCoercion(c) => T::of(c.to()),
            e => self.of(e, env).1,
        }
    }

    fn lambda(&self, l: &ir::Lambda, env: &Env) -> (E, T) {
        let p: Env = l.arguments().iter().map(|a| (name(a.name()), T::of(a.type_()))).collect();
        let r = T::of(l.result_type());
        let b = self.at(l.body(), &r, &with(env, p.iter().cloned()));
        let t = function(p.iter().map(|p| p.1.clone()).collect(), r.clone());
        (E::Lambda(p, r, b.into()), t)
    }
}

impl World {
    pub fn module(&self, f: Option<(&Env, &T, &E)>) -> Module {
        Module::new(
            self.records
                .iter()
                .map(|(n, fs, open)| {
                    TypeDefinition::new(
                        letter(*n),
                        letter(*n),
                        fs.iter().map(|(n, t)| types::RecordField::new(*n, t.real())).collect(),
                        false,
                        true,
                        !open,
                        place(),
                    )
                })
                .collect(),
            self.al.iter().map(|(n, t)| TypeAlias::new(*n, *n, t.real(), false, false, place())).collect(),
            vec![],
            vec![],
            f.into_iter()
                .map(|(p, r, e)| FunctionDefinition::new("f", "f", lambda(p, r, e), Option::None, true, place()))
                .collect(),
            place(),
        )
    }

    /// Analyses a function and checks what it is made into.
    pub fn decide(&self, p: Env, r: T, e: E) {
        let module = self.module(Some((&p, &r, &e)));
        let context =
            AnalysisContext::new(type_collector::collect(&module), type_collector::collect_record_fields(&module));
        let done = analyze(&context, &module);
        if self.run {
            cover(if done.is_ok() { 1 } else { 2 });
            if done.is_ok() {
                crate::run::run(self, &p, &r, &e);
            }
            return;
        }
        let f = ("f", function(p.iter().map(|p| p.1.clone()).collect(), r.clone()));
        let right = self
            .ty(&e, &with(&vec![f.clone()], p.iter().cloned()), Some(&r))
            .is_some_and(|t| below(&t, &r, &self.al));
        observe(right as u64);
        match done {
            Ok(m) => {
                check(right, "a program that is accepted has types");
                let [d] = m.function_definitions() else { fail("the function is kept") };
                let (back, _) = Strict(self).lambda(d.lambda(), &vec![f]);
                check(back == E::Lambda(p, r, e.into()), "nothing but types is changed");
                cover(1);
            }
            Err(_) => {
                check(!right, "a program that has types is accepted");
                cover(2);
            }
        }
    }
}
