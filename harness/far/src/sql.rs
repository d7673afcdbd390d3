//! W03: databases.
use crate::builtin::{boolean, elements, list, none, number, pen_ffi_list_create, pen_ffi_list_prepend, string};
use crate::common::{same, Text};
use crate::values::{of_list, of_number, result};
use core::mem::{forget, transmute_copy, ManuallyDrop};
use ffi::extra::Result;
use ffi::{Any, Arc, Boolean, ByteString, List, Number, TypeInformation};
use sqlx::any::{AnyColumn, AnyRow, AnyTypeInfo, AnyTypeInfoKind, AnyValue, AnyValueKind};
use sqlx::pool::state;
use sym::{check, cover, live, pick};

#[repr(C)]
#[derive(Clone)]
pub struct Pool(Arc<Any>);

#[repr(C)]
struct Options {
    min: Number,
    max: Number,
    timeout: Number,
}

builtin!(pool_, Pool, _pen_sql_pool_to_any, far_any_is_pool, far_any_to_pool);

mod calls {
    use super::*;
    pub async fn create(uri: ByteString, options: Arc<Options>) -> Result {
        ffi::import!(_pen_sql_pool_create, async fn(uri: ByteString, options: Arc<Options>) -> Result);
        _pen_sql_pool_create(uri, options).await
    }
    pub async fn query(pool: Pool, query: ByteString, arguments: List) -> Result {
        ffi::import!(_pen_sql_pool_query, async fn(pool: Pool, query: ByteString, arguments: List) -> Result);
        _pen_sql_pool_query(pool, query, arguments).await
    }
    pub async fn execute(pool: Pool, query: ByteString, arguments: List) -> Result {
        ffi::import!(_pen_sql_pool_execute, async fn(pool: Pool, query: ByteString, arguments: List) -> Result);
        _pen_sql_pool_execute(pool, query, arguments).await
    }
}

fn run<T>(f: impl std::future::Future<Output = T>, waits: usize) -> T {
    unsafe { tokio::WAITS = waits };
    let r = tokio::task::run(f);
    check(unsafe { tokio::runtime::ENTERED } == 0, "a run time is left as often as it is entered");
    r
}

fn connect() -> Pool {
    let options = Arc::new(Options { min: Number::new(0.0), max: Number::new(1.0), timeout: Number::new(1.0) });
    let r = run(calls::create("u".into(), options), 0);
    result(r, &pool_::INFORMATION, pool_::far_any_to_pool).unwrap()
}

fn end(before: u64) {
    let s = state();
    check(s.pools == 0, "connections are closed");
    s.uri = None;
    s.sql = None;
    s.arguments = None;
    s.rows = vec![];
    check(live() == before, "what was allocated is freed");
}

/// What is in statics is not freed.
fn start() -> u64 {
    drop(connect());
    state().uri = None;
    state().options = None;
    live()
}

fn valid(b: &[u8]) -> bool {
    core::str::from_utf8(b).is_ok()
}

pub fn create<const N: usize>() {
    let before = start();
    {
        let s = state();
        let t = Text::<N>::new();
        let (mut min, mut max, mut timeout) = (1, 2, 3);
        match pick(3) {
            0 => min = sym::u32(),
            1 => max = sym::u32(),
            _ => timeout = sym::u32(),
        }
        s.failure = if pick(2) == 1 { Some(0) } else { None };
        let failing = s.failure.is_some();
        let options = Arc::new(Options {
            min: Number::new(min as f64),
            max: Number::new(max as f64),
            timeout: Number::new(timeout as f64),
        });
        let r = run(calls::create(t.string(), options), 2);
        let r = result(r, &pool_::INFORMATION, pool_::far_any_to_pool);
        if valid(t.bytes()) {
            cover(1);
            check(s.uri.as_ref().is_some_and(|x| same(x.as_bytes(), t.bytes())), "the address is the one given");
            let o = s.options.as_ref().unwrap();
            check(o.min == min && o.max == max, "the numbers of connections are those given");
            check(
                o.timeout == std::time::Duration::from_millis(timeout as u64),
                "the time limit is the one given",
            );
            check(r.is_some() != failing, "a failure is an error, and nothing else is");
        } else {
            cover(2);
            check(r.is_none() && s.uri.is_none(), "what is no text is an error");
        }
    }
    end(before);
}

/// An argument.
enum Argument {
    None,
    Boolean(bool),
    Number(u64),
    Text(Vec<u8>),
    Other,
}

fn argument<const N: usize>() -> (Argument, Any) {
    match pick(5) {
        0 => (Argument::None, ffi::None::new().into()),
        1 => {
            let x = sym::bool();
            (Argument::Boolean(x), boolean::pen_ffi_boolean_to_any(x.into()))
        }
        2 => {
            let x = sym::u64();
            (Argument::Number(x), number::pen_ffi_number_to_any(Number::new(f64::from_bits(x))))
        }
        3 => {
            let t = Text::<N>::new();
            (Argument::Text(t.bytes().to_vec()), string::pen_ffi_string_to_any(t.string()))
        }
        _ => (Argument::Other, list::pen_ffi_list_to_any(pen_ffi_list_create())),
    }
}

fn bound(a: &Argument, x: &AnyValueKind) -> bool {
    match (a, x) {
        (Argument::None, AnyValueKind::Null(_)) => true,
        (Argument::Boolean(a), AnyValueKind::Bool(b)) => a == b,
        (Argument::Number(a), AnyValueKind::Double(b)) => *a == b.to_bits(),
        (Argument::Text(a), AnyValueKind::Text(b)) => same(a, b.as_bytes()),
        _ => false,
    }
}

/// Any text and arguments.
pub fn arguments<const Q: usize, const N: usize>(way: usize, most: usize) {
    let before = start();
    {
        let pool = connect();
        let s = state();
        let mut q = b"q".to_vec();
        let mut v = vec![];
        let mut l = pen_ffi_list_create();
        if way == 0 {
            q = Text::<Q>::new().bytes().to_vec();
        } else {
            for _ in 0..pick(most + 1) {
                let (a, x) = argument::<N>();
                l = pen_ffi_list_prepend(x, l);
                v.insert(0, a);
            }
            unsafe { crate::builtin::WAITS = pick(2) };
        }
        s.affected = sym::u32() as u64;
        let fails = pick(2) == 1;
        s.failure = if fails { Some(0) } else { None };
        let executes = pick(2) == 1;
        let r = if executes {
            of_number(run(calls::execute(pool.clone(), q.as_slice().into(), l), 1)).map(|n| {
                check(n == s.affected as f64, "the number is of the rows affected");
            })
        } else {
            of_list(run(calls::query(pool.clone(), q.as_slice().into(), l), 1)).map(|l| {
                check(elements(&l).is_empty(), "there are no rows");
            })
        };
        let good = valid(&q)
            && v.iter().all(|a| match a {
                Argument::Text(b) => valid(b),
                Argument::Other => false,
                _ => true,
            });
        if good {
            cover(1);
            check(s.requests == 1, "the database is asked once");
            check(same(s.sql.as_ref().unwrap().as_bytes(), &q), "the text is the one given");
            let x = &s.arguments.as_ref().unwrap().values.0;
            check(x.len() == v.len(), "all arguments are bound");
            check(v.iter().zip(x).all(|(a, b)| bound(a, b)), "the arguments are bound in order");
            check(r.is_some() != fails, "a failure is an error, and nothing else is");
        } else {
            cover(2);
            check(r.is_none() && s.requests == 0, "what is no text or value is an error and not asked for");
        }
    }
    end(before);
}

enum Expected {
    None,
    Boolean(bool),
    Number(u64),
    Text(Vec<u8>),
}

fn column() -> (Option<Expected>, AnyTypeInfoKind, AnyValueKind<'static>) {
    use AnyTypeInfoKind as K;
    use AnyValueKind as V;
    let n = |x: f64| Some(Expected::Number(x.to_bits()));
    match pick(9) {
        0 => (Some(Expected::None), K::Text, V::Null(K::Text)),
        1 => {
            let x = sym::bool();
            (Some(Expected::Boolean(x)), K::Bool, V::Bool(x))
        }
        2 => {
            let x = sym::u16() as i16;
            (n(x as f64), K::SmallInt, V::SmallInt(x))
        }
        3 => {
            let x = sym::u32() as i32;
            (n(x as f64), K::Integer, V::Integer(x))
        }
        4 => {
            let x = sym::u64() as i64;
            (n(x as f64), K::BigInt, V::BigInt(x))
        }
        5 => {
            let x = f32::from_bits(sym::u32());
            sym::assume(!x.is_nan());
            (n(x as f64), K::Real, V::Real(x))
        }
        6 => {
            let x = f64::from_bits(sym::u64());
            (n(x), K::Double, V::Double(x))
        }
        7 => {
            let b: [u8; 2] = sym::bytes();
            sym::assume(b[0] < 128 && b[1] < 128);
            let x = core::str::from_utf8(&b).unwrap().to_owned();
            (Some(Expected::Text(b.to_vec())), K::Text, V::Text(x.into()))
        }
        _ => (None, K::Blob, V::Blob(vec![sym::u8()].into())),
    }
}

fn expected(e: &Expected, x: Any) -> bool {
    let is = |i: &'static TypeInformation| core::ptr::eq(x.type_information(), i);
    match e {
        Expected::None => is(&none::INFORMATION),
        Expected::Boolean(b) => is(&boolean::INFORMATION) && bool::from(boolean::pen_ffi_any_to_boolean(x)) == *b,
        Expected::Number(n) => {
            is(&number::INFORMATION) && f64::from(number::pen_ffi_any_to_number(x)).to_bits() == *n
        }
        Expected::Text(t) => is(&string::INFORMATION) && same(string::pen_ffi_any_to_string(x).as_slice(), t),
    }
}

/// Any rows.
pub fn rows(most: usize, columns: usize) {
    let before = start();
    {
        let pool = connect();
        let s = state();
        let n = pick(most + 1);
        let m = pick(columns + 1);
        let mut rows = vec![];
        for _ in 0..n {
            let mut v = vec![];
            let mut r = AnyRow { column_names: Default::default(), columns: vec![], values: vec![] };
            for k in 0..m {
                let (e, kind, value) = column();
                v.push(e);
                r.columns.push(AnyColumn {
                    ordinal: k,
                    name: sqlx::name("c"),
                    type_info: AnyTypeInfo { kind },
                });
                r.values.push(AnyValue { kind: value });
            }
            rows.push(v);
            s.rows.push(r);
        }
        let i = pick(n + 2);
        s.failure = if i <= n { Some(i) } else { None };
        let fails = s.failure.is_some();
        let r = of_list(run(calls::query(pool.clone(), "q".into(), pen_ffi_list_create()), 2));
        let good = !fails && rows.iter().flatten().all(|x| x.is_some());
        check(r.is_some() == good, "a failure is an error, and nothing else is");
        if let Some(l) = r {
            cover(1);
            let v = elements(&l);
            check(v.len() == n, "all rows are given");
            for (x, e) in v.into_iter().zip(&rows) {
                check(core::ptr::eq(x.type_information(), &list::INFORMATION), "a row is a list");
                let v = elements(&list::pen_ffi_any_to_list(x));
                check(v.len() == m, "all columns are given");
                check(
                    v.into_iter().zip(e).all(|(x, e)| expected(e.as_ref().unwrap(), x)),
                    "values are those of the database",
                );
            }
        } else {
            cover(2);
        }
    }
    end(before);
}

/// A future that waits and ends, always in the run time.
struct Waiting(usize, u64);

impl std::future::Future for Waiting {
    type Output = u64;
    fn poll(mut self: std::pin::Pin<&mut Self>, context: &mut std::task::Context) -> std::task::Poll<u64> {
        check(tokio::runtime::Handle::try_current().is_ok(), "a future is polled in the run time");
        if self.0 == 0 {
            return self.1.into();
        }
        self.0 -= 1;
        context.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

pub fn context(most: usize, switches: usize) {
    let x: [u64; 2] = [sym::u64(), sym::u64()];
    let n = [pick(most + 1), pick(most + 1)];
    let library = pick(2) == 1;
    unsafe { tokio::task::SWITCHES = switches };
    let one = |k: usize| async move {
        if library {
            crate::library_runtime::run(Waiting(n[k], x[k])).await
        } else {
            crate::runtime::run(Waiting(n[k], x[k])).await
        }
    };
    let other = async {
        for _ in 0..2 {
            check(tokio::runtime::Handle::try_current().is_err(), "others are not polled in the run time");
            tokio::task::yield_now().await
        }
    };
    tokio::spawn(other);
    let r = tokio::task::run(async {
        let t = tokio::spawn(one(0));
        (t.await.ok().unwrap(), one(1).await)
    });
    check(r == (x[0], x[1]), "a result is the future's");
    tokio::task::rest();
    check(tokio::runtime::Handle::try_current().is_err(), "a run time is left as often as it is entered");
    cover(1);
}
