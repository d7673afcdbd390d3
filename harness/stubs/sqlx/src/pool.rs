//! A pool of connections to the database.
use crate::any::{Any, AnyArguments, AnyQueryResult, AnyRow, AnyStatement, AnyTypeInfo, DRIVERS};
use crate::{Database, Either, Error, Execute, Executor};
use futures::future::BoxFuture;
use futures::stream::{self, BoxStream};
use futures::StreamExt;
use std::marker::PhantomData;
use std::sync::Arc;
use std::task::ready;
use std::time::Duration;
use sym::check;

/// The database: what it was asked for and what it answers.
pub struct State {
    pub uri: Option<String>,
    pub options: Option<PoolOptions<Any>>,
    pub pools: usize,
    pub sql: Option<String>,
    pub arguments: Option<AnyArguments<'static>>,
    pub requests: usize,
    pub rows: Vec<AnyRow>,
    pub affected: u64,
    /// after how many answers it fails
    pub failure: Option<usize>,
    pub failed: bool,
}

pub static mut STATE: State = State {
    uri: None,
    options: None,
    pools: 0,
    sql: None,
    arguments: None,
    requests: 0,
    rows: vec![],
    affected: 0,
    failure: None,
    failed: false,
};

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

fn running() {
    check(tokio::runtime::Handle::try_current().is_ok(), "the database is used in its run time");
}

/// Whether something goes on, as it may not.
fn goes() -> Result<(), Error> {
    let s = state();
    match &mut s.failure {
        Some(0) => {
            s.failed = true;
            s.failure = None;
            Err(Error::PoolTimedOut)
        }
        Some(n) => {
            *n -= 1;
            Ok(())
        }
        None => Ok(()),
    }
}

#[derive(Debug)]
struct Connections;

impl Drop for Connections {
    fn drop(&mut self) {
        state().pools -= 1;
    }
}

#[derive(Debug)]
pub struct Pool<D: Database>(Arc<Connections>, PhantomData<D>);

impl<D: Database> Clone for Pool<D> {
    fn clone(&self) -> Self {
        Self(self.0.clone(), PhantomData)
    }
}

#[derive(Clone, Debug)]
pub struct PoolOptions<D: Database> {
    pub min: u32,
    pub max: u32,
    pub timeout: Duration,
    database: PhantomData<D>,
}

impl PoolOptions<Any> {
    pub fn new() -> Self {
        Self { min: 0, max: 10, timeout: Duration::from_secs(30), database: PhantomData }
    }

    pub fn min_connections(mut self, n: u32) -> Self {
        self.min = n;
        self
    }

    pub fn max_connections(mut self, n: u32) -> Self {
        self.max = n;
        self
    }

    pub fn acquire_timeout(mut self, t: Duration) -> Self {
        self.timeout = t;
        self
    }

    pub async fn connect(self, uri: &str) -> Result<Pool<Any>, Error> {
        check(unsafe { DRIVERS }, "there are drivers before there is a connection");
        running();
        tokio::pause().await;
        running();
        let s = state();
        check(s.uri.is_none(), "a connection is made once");
        s.uri = Some(uri.into());
        s.options = Some(self);
        goes()?;
        s.pools += 1;
        Ok(Pool(Arc::new(Connections), PhantomData))
    }
}

type Step = Either<AnyQueryResult, AnyRow>;

/// An argument that owns what it is of.
fn own(a: Option<AnyArguments<'_>>) -> Option<AnyArguments<'static>> {
    use crate::any::AnyValueKind::*;
    let mut r = AnyArguments::default();
    for x in a?.values.0 {
        r.values.0.push(match x {
            Null(x) => Null(x),
            Bool(x) => Bool(x),
            SmallInt(x) => SmallInt(x),
            Integer(x) => Integer(x),
            BigInt(x) => BigInt(x),
            Real(x) => Real(x),
            Double(x) => Double(x),
            Text(x) => Text(x.into_owned().into()),
            Blob(x) => Blob(x.into_owned().into()),
            _ => sym::fail("an argument is of a known type"),
        });
    }
    Some(r)
}

impl<'p> Executor<'p> for &'p Pool<Any> {
    type Database = Any;

    fn fetch_many<'e, 'q: 'e, E>(self, mut query: E) -> BoxStream<'e, Result<Step, Error>>
    where
        'p: 'e,
        E: 'q + Execute<'q, Any>,
    {
        let sql = query.sql();
        let arguments = query.take_arguments().map_err(Error::Encode);
        let mut request = Some(arguments);
        let mut rows = vec![].into_iter();
        let mut done = false;
        stream::poll_fn(move |context| {
            running();
            if done {
                return None.into();
            }
            ready!(tokio::wait(context));
            let s = state();
            if let Some(arguments) = request.take() {
                s.requests += 1;
                match arguments {
                    Ok(x) => {
                        s.sql = Some(sql.into());
                        s.arguments = own(x);
                        rows = std::mem::take(&mut s.rows).into_iter();
                    }
                    Err(e) => {
                        done = true;
                        return Some(Err(e)).into();
                    }
                }
            }
            if let Err(e) = goes() {
                done = true;
                return Some(Err(e)).into();
            }
            match rows.next() {
                Some(r) => Some(Ok(Either::Right(r))).into(),
                None => {
                    done = true;
                    let mut r = AnyQueryResult::default();
                    r.rows_affected = s.affected;
                    Some(Ok(Either::Left(r))).into()
                }
            }
        })
        .boxed()
    }

    fn fetch_optional<'e, 'q: 'e, E>(self, query: E) -> BoxFuture<'e, Result<Option<AnyRow>, Error>>
    where
        'p: 'e,
        E: 'q + Execute<'q, Any>,
    {
        let mut s = self.fetch_many(query);
        Box::pin(async move {
            while let Some(x) = s.next().await {
                if let Either::Right(r) = x? {
                    return Ok(Some(r));
                }
            }
            Ok(None)
        })
    }

    fn prepare_with<'e, 'q: 'e>(
        self,
        _: &'q str,
        _: &'e [AnyTypeInfo],
    ) -> BoxFuture<'e, Result<AnyStatement<'q>, Error>>
    where
        'p: 'e,
    {
        sym::fail("statements are not prepared")
    }

    fn describe<'e, 'q: 'e>(
        self,
        _: &'q str,
    ) -> BoxFuture<'e, Result<sqlx_core::describe::Describe<Any>, Error>>
    where
        'p: 'e,
    {
        sym::fail("statements are not described")
    }
}
