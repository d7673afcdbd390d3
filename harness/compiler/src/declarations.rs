//! T03: which declarations a module may have.
use crate::kinds::*;
use hir::{
    analysis::{analyze, type_collector, AnalysisContext},
    ir::{self, *},
    types,
};
use sym::*;

struct Record_ {
    name: &'static str,
    fields: Vec<T>,
    public: bool,
    external: bool,
}

struct Alias_ {
    name: &'static str,
    to: T,
    public: bool,
    external: bool,
}

fn record_(name: &'static str, fields: Vec<T>) -> Record_ {
    Record_ { name, fields, public: true, external: false }
}

fn alias_(name: &'static str, to: T) -> Alias_ {
    Alias_ { name, to, public: true, external: false }
}

fn accepted(records: &[Record_], aliases: &[Alias_], functions: &[(&str, T)]) -> bool {
    let module = Module::new(
        records
            .iter()
            .map(|r| {
                let f = r.fields.iter().enumerate().map(|(i, t)| types::RecordField::new(format!("f{i}"), t.real())).collect();
                TypeDefinition::new(r.name, r.name, f, true, r.public, r.external, place())
            })
            .collect(),
        aliases.iter().map(|a| TypeAlias::new(a.name, a.name, a.to.real(), a.public, a.external, place())).collect(),
        vec![],
        vec![],
        functions
            .iter()
            .map(|(n, t)| {
                let l = ir::Lambda::new(vec![Argument::new("x", t.real())], t.real(), Variable::new("x", place()), place());
                FunctionDefinition::new(*n, *n, l, Option::None, true, place())
            })
            .collect(),
        place(),
    );
    let context = AnalysisContext::new(type_collector::collect(&module), type_collector::collect_record_fields(&module));
    analyze(&context, &module).is_ok()
}

fn names(t: &T, v: &mut Vec<&'static str>) {
    match t {
        Alias(n) => v.push(n),
        Function(a, r) => {
            a.iter().for_each(|t| names(t, v));
            names(r, v)
        }
        List(e) => names(e, v),
        Map(a, b) | Union(a, b) => {
            names(a, v);
            names(b, v)
        }
        _ => (),
    }
}

fn named_in(t: &T) -> Vec<&'static str> {
    let mut v = vec![];
    names(t, &mut v);
    v
}

/// No alias stands, through others, for something with itself in it.
fn finite(aliases: &[Alias_]) -> bool {
    let mut done: Vec<&str> = vec![];
    for _ in aliases {
        for a in aliases {
            if named_in(&a.to).iter().all(|n| done.contains(n) || !aliases.iter().any(|b| b.name == *n)) {
                done.push(a.name);
            }
        }
    }
    aliases.iter().all(|a| done.contains(&a.name))
}

/// Records of which there are values: those whose fields can all be given before.
fn inhabited(records: &[Record_], aliases: &[Alias_]) -> bool {
    fn some(t: &T, done: &[&str], aliases: &[Alias_]) -> bool {
        match t {
            Alias(n) => match aliases.iter().find(|a| a.name == *n) {
                Some(a) => some(&a.to, done, aliases),
                Option::None => done.contains(n),
            },
            Union(a, b) => some(a, done, aliases) || some(b, done, aliases),
            _ => true,
        }
    }
    let mut done = vec![];
    for _ in records {
        for r in records {
            if !done.contains(&r.name) && r.fields.iter().all(|f| some(f, &done, aliases)) {
                done.push(r.name);
            }
        }
    }
    records.iter().all(|r| done.contains(&r.name))
}

/// Aliases and records that name each other and things that there are not.
pub fn declared(deep: bool) {
    let (a, b, c) = (|| Alias("A"), || Alias("B"), || Alias("C"));
    let pool = [
        Number,
        a(),
        b(),
        list(a()),
        function(vec![b()], c()),
        union(c(), T::None),
        Alias("r"),
        map(Alias("Z"), c()),
        function(vec![], a()),
        map(Number, b()),
    ];
    let pool = if deep { &pool[..] } else { &pool[..8] };
    let aliases = [alias_("A", choose(pool)), alias_("B", choose(pool)), alias_("C", choose(pool))];
    let records = [record_("r", vec![list(choose(pool))])];
    let used = records.iter().flat_map(|r| &r.fields).chain(aliases.iter().map(|a| &a.to)).flat_map(named_in);
    let right = used.into_iter().all(|n| n != "Z") && finite(&aliases);
    check(
        accepted(&records, &aliases, &[]) == right,
        "a module is accepted if all types that it names are there and no alias has itself in it",
    );
    cover(1 + right as u32);
}

/// Records that need values of each other.
pub fn infinite(deep: bool) {
    let pool = [Number, Alias("r"), Alias("s"), Alias("A"), list(Alias("s")), function(vec![], Alias("r")), union(Alias("r"), T::None)];
    let pool = if deep { &pool[..] } else { &pool[..6] };
    let aliases = [alias_("A", choose(&[Number, Alias("s"), list(Alias("r")), Alias("r")]))];
    let records = [record_("r", vec![choose(pool), choose(pool)]), record_("s", vec![choose(pool), choose(&pool[..3])])];
    let right = inhabited(&records, &aliases);
    check(accepted(&records, &aliases, &[]) == right, "a module is accepted if there are values of all its records");
    cover(1 + right as u32);
}

/// Of a union there is a value if there is one of a member.
pub fn possible() {
    let (r, s) = (|| Alias("r"), || Alias("s"));
    let pool = [Number, r(), s(), union(r(), T::None), union(s(), list(r())), union(Number, Alias("A")), union(Alias("A"), s())];
    let aliases = [alias_("A", choose(&[r(), union(s(), T::None), union(r(), list(s()))]))];
    let records = [record_("r", vec![choose(&pool)]), record_("s", vec![choose(&pool)])];
    let right = inhabited(&records, &aliases);
    if right {
        check(accepted(&records, &aliases, &[]), "records of which there are values are accepted");
    }
    cover(1 + right as u32);
}

/// Names are given once, to types and to functions.
pub fn named() {
    let t = ["r", "s", "A", "B"];
    let n: Vec<_> = (0..3).map(|_| t[pick(4)]).collect();
    let f = ["f", "g"];
    let g: Vec<_> = (0..2).map(|_| (f[pick(2)], Number)).collect();
    let right = n[0] != n[1] && n[1] != n[2] && n[0] != n[2] && g[0].0 != g[1].0;
    let aliases = [alias_(n[0], Number), alias_(n[1], list(Number))];
    check(accepted(&[record_(n[2], vec![])], &aliases, &g) == right, "names are those of one thing each");
    cover(1 + right as u32);
}

/// Types of other modules can be named if they are public.
pub fn visible() {
    let mut r = record_("r", vec![Number]);
    let mut a = alias_("A", Number);
    (r.public, r.external, a.public, a.external) = (bool(), bool(), bool(), bool());
    let t = choose(&[Alias("r"), Record(b'r'), list(Alias("A")), union(Alias("A"), Alias("r")), function(vec![Record(b'r')], Number), Alias("Z")]);
    let uses_r = named_in(&t).contains(&"r") || matches!(t, Record(_) | Function(..));
    let right = (!uses_r || r.public || !r.external) && (!named_in(&t).contains(&"A") || a.public || !a.external) && t != Alias("Z");
    check(accepted(&[r], &[a], &[("f", t)]) == right, "types are there if they are of this module or public");
    cover(1 + right as u32);
}
