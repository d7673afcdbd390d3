//! T01 and T02: the relations between types.
use crate::kinds::*;
use hir::analysis::*;
use std::collections::HashSet;
use sym::*;

fn aliases() -> Aliases {
    vec![("A", union(Number, T::None)), ("B", union(Alias("A"), Any)), ("C", list(Alias("A")))]
}

fn related(a: &T, b: &T, al: &Aliases) {
    let types = table(al);
    let (x, y) = (a.real(), b.real());
    let same = equal(a, b, al);
    let equality = |x, y| type_equality_checker::check(x, y, &types).unwrap();
    check(equality(&x, &y) == same, "types are equal if they have the same members");
    check(equality(&y, &x) == same, "equality goes both ways");
    let subsumption = |x, y| type_subsumption_checker::check(x, y, &types).unwrap();
    check(subsumption(&x, &y) == below(a, b, al), "a type is within another if all its members are");
    check(subsumption(&y, &x) == below(b, a, al), "a type is within another if all its members are");
    cover(if same { 1 } else if below(a, b, al) || below(b, a, al) { 2 } else { 3 });
    observe(same as u64);
}

fn canonical(a: &T, al: &Aliases) {
    let types = table(al);
    let c = type_canonicalizer::canonicalize(&a.real(), &types).unwrap();
    check(equal(&T::of(&c), a, al), "the canonical form is the same type");
    check(type_canonicalizer::canonicalize(&c, &types).unwrap() == c, "the canonical form is its own");
    fn flat(t: &T) -> bool {
        match t {
            Alias(_) => false,
            Function(a, r) => a.iter().all(flat) && flat(r),
            List(e) => flat(e),
            Map(k, v) => flat(k) && flat(v),
            Union(a, b) => *a.as_ref() != Any && *b.as_ref() != Any && flat(a) && flat(b),
            _ => true,
        }
    }
    check(flat(&T::of(&c)), "no alias is left, and no union with any");
    let m = a.members(al);
    let n: Vec<T> = union_type_member_calculator::calculate(&a.real(), &types).unwrap().iter().map(T::of).collect();
    check(m.len() == n.len() && m.iter().all(|x| n.iter().any(|y| equal(x, y, al))), "each member is given once");
    let is = |x: bool, k: &dyn Fn(&T) -> bool| check(x == (m.len() == 1 && k(&m[0])), "a type is of a kind if its only member is");
    let t = a.real();
    is(type_canonicalizer::canonicalize_function(&t, &types).unwrap().is_some(), &|t| matches!(t, Function(..)));
    is(type_canonicalizer::canonicalize_list(&t, &types).unwrap().is_some(), &|t| matches!(t, List(_)));
    is(type_canonicalizer::canonicalize_map(&t, &types).unwrap().is_some(), &|t| matches!(t, Map(..)));
    is(type_canonicalizer::canonicalize_record(&t, &types).unwrap().is_some(), &|t| matches!(t, Record(_)));
}

fn difference(a: &T, b: &T, al: &Aliases) {
    let d = type_difference_calculator::calculate(&a.real(), &b.real(), &table(al)).unwrap();
    match (&d, without(a, b, al)) {
        (Some(d), Some(e)) => {
            check(equal(&T::of(d), &e, al), "the difference is the members of the one that are not in the other");
            cover(1)
        }
        (Option::None, Option::None) => cover(2),
        _ => fail("there is a difference exactly if a member is not in the other"),
    }
}

fn identity(a: &T, b: &T, al: &Aliases) {
    let types = table(al);
    let id = |t: &T| type_id_calculator::calculate(&t.real(), &types).unwrap();
    check((id(a) == id(b)) == equal(a, b, al), "types have one id exactly if they are equal");
    cover(1 + equal(a, b, al) as u32);
}

pub fn leaves() -> Vec<T> {
    vec![Any, Boolean, Error, T::None, Number, String, Record(0), Alias("A"), Alias("B"), Alias("C")]
}

fn three(pool: &[T]) -> T {
    let (a, b, c) = (choose(pool), choose(pool), choose(pool));
    if bool() { union(union(a, b), c) } else { union(a, union(b, c)) }
}

fn wrapped(t: T, u: T) -> T {
    match pick(6) {
        0 => list(t),
        1 => map(t, u),
        2 => function(vec![t], u),
        3 => function(vec![u, t.clone()], t),
        4 => union(list(t), u),
        _ => list(list(t)),
    }
}

fn pair(way: usize, deep: bool) -> (T, T) {
    let small = [Any, T::None, Number, Record(0), Alias("A")];
    match way {
        0 => {
            let l = leaves();
            (choose(&l), choose(&l))
        }
        1 => {
            let small = if deep { &small[..] } else { &small[1..] };
            (three(small), union(choose(small), choose(small)))
        }
        _ => {
            let small = if deep { &small[..] } else { &[Any, Number, Record(0), Alias("A")] };
            (
                wrapped(choose(small), Number),
                match pick(3) {
                    0 => wrapped(choose(small), Number),
                    1 => wrapped(union(choose(small), Number), Number),
                    _ => wrapped(T::None, choose(small)),
                },
            )
        }
    }
}

/// Names that are hashed have to be of one value each.
fn fixed(t: T) -> T {
    let f = |t: Box<T>| Box::new(fixed(*t));
    match t {
        Record(n) => Record(concrete(n as u64) as u8),
        Function(a, r) => Function(a.into_iter().map(fixed).collect(), f(r)),
        List(e) => List(f(e)),
        Map(k, v) => Map(f(k), f(v)),
        Union(a, b) => Union(f(a), f(b)),
        t => t,
    }
}

pub fn relations(way: usize, deep: bool) {
    let (a, b) = pair(way, deep);
    related(&a, &b, &aliases());
}

pub fn forms(way: usize, deep: bool) {
    let (a, b) = pair(way, deep);
    let (a, b) = (fixed(a), fixed(b));
    canonical(&union(a, b), &aliases());
    cover(1);
}

pub fn differences(way: usize, deep: bool) {
    let (a, b) = pair(way, deep);
    let (a, b) = (fixed(a), fixed(b));
    difference(&a, &b, &aliases());
}

pub fn identities(way: usize, deep: bool) {
    let (a, b) = pair(way, deep);
    let (a, b) = (fixed(a), fixed(b));
    identity(&a, &b, &aliases());
}

/// Which values can be compared: no any, error or function is within reach.
pub fn comparable(deep: bool) {
    let al = vec![("A", union(Number, T::None)), ("B", union(Record(b'r'), T::None)), ("C", list(function(vec![], Number)))];
    let pool = [Number, Record(b'r'), Record(b's'), list(Record(b't')), Alias("B"), map(Number, Error), map(Any, String), Alias("C")];
    let pool = if deep { &pool[..] } else { &pool[..6] };
    let fields: Vec<Vec<T>> = vec![vec![choose(pool), choose(&pool[1..])], vec![choose(pool)], vec![choose(pool)]];
    fn reach(t: &T, al: &Aliases, f: &[Vec<T>], seen: &mut HashSet<u8>) -> bool {
        match t {
            Any | Error | Function(..) => false,
            Boolean | T::None | Number | String => true,
            List(e) => reach(e, al, f, seen),
            Map(k, v) => reach(k, al, f, seen) && reach(v, al, f, seen),
            Union(a, b) => reach(a, al, f, seen) && reach(b, al, f, seen),
            Alias(n) => reach(&al.iter().find(|x| x.0 == *n).unwrap().1.clone(), al, f, seen),
            Record(n) => {
                if !seen.insert(*n) {
                    return true;
                }
                f[RECORDS.iter().position(|r| r == n).unwrap()].iter().all(|t| reach(t, al, f, seen))
            }
        }
    }
    let types = table(&al);
    let records = RECORDS
        .iter()
        .zip(&fields)
        .map(|(n, f)| {
            (letter(*n), f.iter().enumerate().map(|(i, t)| hir::types::RecordField::new(format!("f{i}"), t.real())).collect())
        })
        .collect();
    for t in [Record(b'r'), list(Record(b's')), union(Record(b't'), T::None)] {
        let c = type_comparability_checker::check(&t.real(), &types, &records).unwrap();
        check(c == reach(&t, &al, &fields, &mut HashSet::new()), "values are comparable if nothing in them is not");
        cover(1 + c as u32);
    }
}
