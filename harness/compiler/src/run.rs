//! T05: the values of expressions, as the language means them, with any arguments.
use crate::{kinds::*, program::*};
use hir::ir::BuiltInFunctionName as B;
use std::rc::Rc;
use sym::*;

#[derive(Clone)]
pub enum V {
    Truth(bool),
    Num(u64),
    Nothing,
    Text(u8),
    Error(Rc<V>),
    Record(u8, Vec<(&'static str, V)>),
    /// Lists and maps know the types that they were made of.
    List(T, Vec<V>),
    Map(T, T, Vec<(V, V)>),
    Closure(Vec<(&'static str, T)>, T, Rc<E>, Values),
    /// A function that is not of the program: it may give any value of its type.
    Other(Vec<T>, T),
}

type Values = Vec<(&'static str, V)>;

/// What goes wrong for lack of a variable, field, function or operation.
fn stuck(m: &str) -> ! {
    fail(m)
}

fn is(v: &V, t: &T, w: &World) -> bool {
    let al = &w.al;
    t.members(al).iter().any(|t| match (v, t) {
        (_, Any) => true,
        (V::Truth(_), Boolean) | (V::Num(_), Number) | (V::Nothing, T::None) | (V::Text(_), String) => true,
        (V::Error(_), Error) => true,
        (V::Record(n, _), Record(m)) => n == m,
        (V::List(e, _), List(f)) => equal(e, f, al),
        (V::Map(a, b, _), Map(c, d)) => equal(a, c, al) && equal(b, d, al),
        (V::Closure(p, r, ..), t) => {
            equal(&function(p.iter().map(|p| p.1.clone()).collect(), r.clone()), t, al)
        }
        (V::Other(p, r), t) => equal(&function(p.clone(), r.clone()), t, al),
        _ => false,
    })
}

/// Any value of a type.
pub fn any(t: &T, w: &World) -> V {
    let m = t.members(&w.al);
    match &m[pick(m.len())] {
        Any => match pick(4) {
            0 => V::Num(u64()),
            1 => V::Nothing,
            2 => V::Error(V::Nothing.into()),
            _ => V::List(Number, vec![V::Num(u64())]),
        },
        Boolean => V::Truth(bool()),
        Error => V::Error(V::Nothing.into()),
        T::None => V::Nothing,
        Number => V::Num(u64()),
        String => V::Text(u8()),
        Record(n) => {
            let f = &w.records.iter().find(|r| r.0 == *n).expect("a record").1;
            V::Record(*n, f.iter().map(|(n, t)| (*n, any(t, w))).collect())
        }
        List(e) => V::List(e.as_ref().clone(), if bool() { vec![any(e, w)] } else { vec![] }),
        Map(k, v) => {
            let l = if bool() { vec![(any(k, w), any(v, w))] } else { vec![] };
            V::Map(k.as_ref().clone(), v.as_ref().clone(), l)
        }
        Function(a, r) => V::Other(a.clone(), r.as_ref().clone()),
        Alias(_) | Union(..) => unreachable!(),
    }
}

/// A value, or the error that ends the function.
type R = Result<V, V>;

fn with(env: &Values, more: impl IntoIterator<Item = (&'static str, V)>) -> Values {
    env.iter().cloned().chain(more).collect()
}

fn truth(v: V) -> bool {
    match v {
        V::Truth(b) => b,
        _ => stuck("a condition is a boolean"),
    }
}

fn number(v: V) -> f64 {
    match v {
        V::Num(n) => f64::from_bits(n),
        _ => stuck("an operand is a number"),
    }
}

fn items(v: V) -> Vec<V> {
    match v {
        V::List(_, l) => l,
        _ => stuck("a list is a list"),
    }
}

fn call(w: &World, f: V, a: Vec<V>) -> V {
    match f {
        V::Other(p, r) => {
            if p.len() != a.len() || !a.iter().zip(&p).all(|(a, p)| is(a, p, w)) {
                stuck("a function gets arguments of its types")
            }
            any(&r, w)
        }
        V::Closure(p, r, b, env) => {
            if p.len() != a.len() || !a.iter().zip(&p).all(|(a, p)| is(a, &p.1, w)) {
                stuck("a function gets arguments of its types")
            }
            let env = with(&env, p.iter().map(|p| p.0).zip(a));
            let v = eval(w, &b, &env).unwrap_or_else(|e| e);
            check(is(&v, &r, w), "a function gives values of its type");
            v
        }
        _ => stuck("what is called is a function"),
    }
}

/// A function without arguments that gives a value.
fn thunk(t: &T, v: V) -> V {
    V::Closure(vec![], t.clone(), E::Var("w").into(), vec![("w", v)])
}

fn eval(w: &World, e: &E, env: &Values) -> R {
    let of = |e: &E| eval(w, e, env);
    Ok(match e {
        E::Truth(b) => V::Truth(*b),
        E::Num(n) => V::Num(*n),
        E::Nothing => V::Nothing,
        E::Text(b) => V::Text(*b),
        E::Var(n) => match env.iter().rev().find(|x| x.0 == *n) {
            Some(x) => x.1.clone(),
            Option::None => stuck("a variable is there"),
        },
        E::If(c, t, u) => {
            if truth(of(c)?) {
                of(t)?
            } else {
                of(u)?
            }
        }
        E::IfList(l, a, b, t, u) => match of(l)? {
            V::List(k, l) => match l.split_first() {
                Some((x, r)) => eval(w, t, &with(env, [(*a, thunk(&k, x.clone())), (*b, V::List(k.clone(), r.to_vec()))]))?,
                Option::None => of(u)?,
            },
            _ => stuck("a list is a list"),
        },
        E::IfMap(n, m, k, t, u) => match of(m)? {
            V::Map(kt, _, m) => {
                let k = of(k)?;
                if !is(&k, &kt, w) {
                    stuck("a key has the type of the map's keys")
                }
                match m.first() {
                    // whether it is that key
                    Some((_, v)) if bool() => eval(w, t, &with(env, [(*n, v.clone())]))?,
                    _ => of(u)?,
                }
            }
            _ => stuck("a map is a map"),
        },
        E::IfType(n, a, bs, u) => {
            let v = of(a)?;
            match (bs.iter().find(|b| is(&v, &b.0, w)), u) {
                (Some((_, b)), _) => eval(w, b, &with(env, [(*n, v)]))?,
                (_, Some(u)) => eval(w, u, &with(env, [(*n, v)]))?,
                _ => stuck("a branch is there for every value"),
            }
        }
        E::Call(f, a) => {
            let f = of(f)?;
            let a = a.iter().map(of).collect::<Result<Vec<_>, _>>()?;
            call(w, f, a)
        }
        E::BuiltIn(f, a) => {
            let a = a.iter().map(of).collect::<Result<Vec<_>, _>>()?;
            match (f, &a[..]) {
                (B::Debug, [_]) => V::Nothing,
                (B::Error, [v]) => V::Error(v.clone().into()),
                (B::ReflectDebug, [_]) => V::Text(0),
                (B::ReflectEqual, [_, _]) => any(&union(Boolean, T::None), w),
                (B::Source, [V::Error(v)]) => v.as_ref().clone(),
                (B::Keys, [V::Map(k, _, m)]) => V::List(k.clone(), m.iter().map(|x| x.0.clone()).collect()),
                (B::Values, [V::Map(_, v, m)]) => V::List(v.clone(), m.iter().map(|x| x.1.clone()).collect()),
                (B::Delete, [V::Map(k, v, _), x]) if is(x, k, w) => V::Map(k.clone(), v.clone(), vec![]),
                (B::Size, [V::List(_, l)]) => V::Num((l.len() as f64).to_bits()),
                (B::Size, [V::Map(_, _, m)]) => V::Num((m.len() as f64).to_bits()),
                (B::Race, [V::List(t, l)]) => match t.single(&w.al) {
                    Some(T::List(e)) => {
                        V::List(*e, l.iter().flat_map(|l| items(l.clone())).collect())
                    }
                    _ => stuck("what races is lists"),
                },
                (B::Spawn, [V::Closure(p, ..)]) if p.is_empty() => a[0].clone(),
                (B::Spawn, [V::Other(p, _)]) if p.is_empty() => a[0].clone(),
                _ => stuck("a built-in function gets what it works on"),
            }
        }
        E::Lambda(p, r, b) => V::Closure(p.clone(), r.clone(), b.as_ref().clone().into(), env.clone()),
        E::Let(n, b, e) => {
            let v = of(b)?;
            eval(w, e, &with(env, n.map(|n| (n, v))))?
        }
        E::List(t, l) => {
            let mut r = vec![];
            for (many, e) in l {
                let v = eval(w, e, env).unwrap_or_else(|_| stuck("no error ends what is evaluated later"));
                if *many {
                    r.extend(items(v))
                } else {
                    r.push(v)
                }
            }
            check(r.iter().all(|v| is(v, t, w)), "elements have the type of their list");
            V::List(t.clone(), r)
        }
        E::Each(t, e, bs) => {
            let mut envs = vec![env.clone()];
            for (names, lists, c) in bs {
                let mut next = vec![];
                for env in envs {
                    let lists: Vec<_> = lists
                        .iter()
                        .map(|l| match eval(w, l, &env) {
                            Ok(V::List(t, l)) => (t, l),
                            _ => stuck("what is iterated over is a list"),
                        })
                        .collect();
                    for i in 0..lists.iter().map(|l| l.1.len()).min().unwrap_or(0) {
                        let env = with(&env, names.iter().zip(&lists).map(|(n, (t, l))| (*n, thunk(t, l[i].clone()))));
                        let yes = match c {
                            Some(c) => truth(eval(w, c, &env).unwrap_or_else(|_| stuck("no error ends what is evaluated later"))),
                            Option::None => true,
                        };
                        if yes {
                            next.push(env);
                        }
                    }
                }
                envs = next;
            }
            let r: Vec<_> = envs
                .iter()
                .map(|env| eval(w, e, env).unwrap_or_else(|_| stuck("no error ends what is evaluated later")))
                .collect();
            check(r.iter().all(|v| is(v, t, w)), "elements have the type of their list");
            V::List(t.clone(), r)
        }
        E::Map(k, v, l) => {
            let mut r = vec![];
            for (a, b) in l {
                match b {
                    Some(b) => r.push((of(a)?, of(b)?)),
                    Option::None => match of(a)? {
                        V::Map(_, _, m) => r.extend(m),
                        _ => stuck("a map is a map"),
                    },
                }
            }
            check(r.iter().all(|(a, b)| is(a, k, w) && is(b, v, w)), "entries have the types of their map");
            V::Map(k.clone(), v.clone(), r)
        }
        E::Add(a, b) => match (of(a)?, of(b)?) {
            (V::Num(a), V::Num(b)) => V::Num((f64::from_bits(a) + f64::from_bits(b)).to_bits()),
            (V::Text(a), V::Text(_)) => V::Text(a),
            _ => stuck("two numbers or two strings are added"),
        },
        E::Subtract(a, b) => V::Num((number(of(a)?) - number(of(b)?)).to_bits()),
        E::Less(a, b) => V::Truth(number(of(a)?) < number(of(b)?)),
        E::And(a, b) => V::Truth(truth(of(a)?) && truth(of(b)?)),
        E::Not(a) => V::Truth(!truth(of(a)?)),
        E::Equal(a, b) => {
            of(a)?;
            of(b)?;
            V::Truth(bool())
        }
        E::Try(a) => match of(a)? {
            e @ V::Error(_) => return Err(e),
            v => v,
        },
        E::Make(t, fs) => match t.single(&w.al) {
            Some(Record(n)) => {
                V::Record(n, fs.iter().map(|(n, e)| Ok((*n, of(e)?))).collect::<Result<_, V>>()?)
            }
            _ => stuck("a record is made"),
        },
        E::Get(a, n) => match of(a)? {
            V::Record(_, f) => match f.into_iter().rev().find(|f| f.0 == *n) {
                Some(f) => f.1,
                Option::None => stuck("a record has the field"),
            },
            _ => stuck("a field is that of a record"),
        },
        E::Update(_, a, fs) => match of(a)? {
            V::Record(n, mut f) => {
                for (n, e) in fs {
                    f.push((*n, of(e)?));
                }
                V::Record(n, f)
            }
            _ => stuck("what is updated is a record"),
        },
    })
}

/// The function with any arguments; calls of itself may give any value of its type.
pub fn run(w: &World, p: &Env, r: &T, e: &E) {
    let types: Vec<T> = p.iter().map(|p| p.1.clone()).collect();
    let args: Vec<V> = types.iter().map(|t| any(t, w)).collect();
    let f = V::Closure(p.clone(), r.clone(), e.clone().into(), vec![("f", V::Other(types, r.clone()))]);
    call(w, f, args);
}
