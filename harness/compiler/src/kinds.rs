//! Types as the language means them: a union is the set of its members, an alias what it stands for.
use fnv::FnvHashMap;
use hir::types::{self, Type};
use position::Position;
use sym::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Any,
    Boolean,
    Error,
    None,
    Number,
    String,
    /// By its name, of one letter.
    Record(u8),
    Alias(&'static str),
    Function(Vec<T>, Box<T>),
    List(Box<T>),
    Map(Box<T>, Box<T>),
    Union(Box<T>, Box<T>),
}

pub use T::*;

pub const RECORDS: [u8; 3] = *b"rst";
pub const ALIASES: [&str; 6] = ["A", "B", "C", "r", "s", "Z"];

pub type Aliases = Vec<(&'static str, T)>;

pub fn list(t: T) -> T {
    List(t.into())
}
pub fn map(k: T, v: T) -> T {
    Map(k.into(), v.into())
}
pub fn union(a: T, b: T) -> T {
    Union(a.into(), b.into())
}
pub fn function(a: Vec<T>, r: T) -> T {
    Function(a, r.into())
}

/// Each type of the code under test gets a place of its own, which must make no difference.
pub fn place() -> Position {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    Position::new(if n % 2 == 0 { "m" } else { "n" }, n, 1 + n % 3, "")
}

pub fn letter(n: u8) -> std::string::String {
    std::string::String::from_utf8(vec![n]).unwrap()
}

impl T {
    pub fn real(&self) -> Type {
        let p = place();
        match self {
            Any => types::Any::new(p).into(),
            Boolean => types::Boolean::new(p).into(),
            Error => types::Error::new(p).into(),
            T::None => types::None::new(p).into(),
            Number => types::Number::new(p).into(),
            String => types::ByteString::new(p).into(),
            Record(n) => types::Record::new(letter(*n), letter(*n), p).into(),
            Alias(n) => types::Reference::new(*n, p).into(),
            Function(a, r) => types::Function::new(a.iter().map(T::real).collect(), r.real(), p).into(),
            List(e) => types::List::new(e.real(), p).into(),
            Map(k, v) => types::Map::new(k.real(), v.real(), p).into(),
            Union(a, b) => types::Union::new(a.real(), b.real(), p).into(),
        }
    }

    pub fn of(t: &Type) -> T {
        let name = |n: &str, l: &[&'static str]| *l.iter().find(|x| **x == n).expect("a known name");
        match t {
            Type::Any(_) => Any,
            Type::Boolean(_) => Boolean,
            Type::Error(_) => Error,
            Type::None(_) => T::None,
            Type::Number(_) => Number,
            Type::String(_) => String,
            Type::Record(r) => Record(r.name().as_bytes()[0]),
            Type::Reference(r) => Alias(name(r.name(), &ALIASES)),
            Type::Function(f) => function(f.arguments().iter().map(T::of).collect(), T::of(f.result())),
            Type::List(l) => list(T::of(l.element())),
            Type::Map(m) => map(T::of(m.key()), T::of(m.value())),
            Type::Union(u) => union(T::of(u.lhs()), T::of(u.rhs())),
        }
    }

    /// The type without aliases at the top and its unions flat; any holds every value, so no other member counts.
    pub fn members(&self, al: &Aliases) -> Vec<T> {
        fn go(t: &T, al: &Aliases, v: &mut Vec<T>) {
            match t {
                Union(a, b) => {
                    go(a, al, v);
                    go(b, al, v);
                }
                Alias(n) => go(&al.iter().find(|x| x.0 == *n).expect("an alias").1, al, v),
                _ => v.push(t.clone()),
            }
        }
        let mut v = vec![];
        go(self, al, &mut v);
        if v.contains(&Any) {
            return vec![Any];
        }
        let mut w: Vec<T> = vec![];
        for t in v {
            if !w.iter().any(|u| same(u, &t, al)) {
                w.push(t);
            }
        }
        w
    }

    pub fn is_any(&self, al: &Aliases) -> bool {
        self.members(al) == [Any]
    }

    /// The one member, if it is one.
    pub fn single(&self, al: &Aliases) -> Option<T> {
        let mut m = self.members(al);
        if m.len() == 1 { m.pop() } else { Option::None }
    }
}

/// Two members of one kind.
fn same(a: &T, b: &T, al: &Aliases) -> bool {
    match (a, b) {
        (Function(a, r), Function(b, s)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b, al)) && equal(r, s, al)
        }
        (List(a), List(b)) => equal(a, b, al),
        (Map(k, v), Map(l, w)) => equal(k, l, al) && equal(v, w, al),
        _ => a == b,
    }
}

fn within(a: &[T], b: &[T], al: &Aliases) -> bool {
    a.iter().all(|x| b.iter().any(|y| same(x, y, al)))
}

pub fn equal(a: &T, b: &T, al: &Aliases) -> bool {
    let (a, b) = (a.members(al), b.members(al));
    within(&a, &b, al) && within(&b, &a, al)
}

/// Every value of the one is a value of the other.
pub fn below(a: &T, b: &T, al: &Aliases) -> bool {
    let b = b.members(al);
    b == [Any] || within(&a.members(al), &b, al)
}

/// What of the one is not of the other.
pub fn without(a: &T, b: &T, al: &Aliases) -> Option<T> {
    if b.is_any(al) {
        return Option::None;
    }
    if a.is_any(al) {
        return Some(Any);
    }
    let b = b.members(al);
    a.members(al).into_iter().filter(|x| !b.iter().any(|y| same(x, y, al))).reduce(union)
}

pub fn table(al: &Aliases) -> FnvHashMap<std::string::String, Type> {
    al.iter().map(|(n, t)| (n.to_string(), t.real())).chain(RECORDS.iter().map(|&n| (letter(n), Record(n).real()))).collect()
}

/// A record of any of the names.
pub fn record() -> T {
    let n = u8();
    assume((b'r'..=b't').contains(&n));
    Record(n)
}

pub fn choose(pool: &[T]) -> T {
    match &pool[pick(pool.len())] {
        Record(0) => record(),
        t => t.clone(),
    }
}
