//! Services.
use crate::server::Conn;
use crate::{Body, Request, Response};
use std::error::Error;
use std::future::Future;

type BoxError = Box<dyn Error + Send + Sync>;

pub struct MakeServiceFn<F>(pub(crate) F);
pub struct ServiceFn<F>(pub(crate) F);

pub fn make_service_fn<F, R>(f: F) -> MakeServiceFn<F>
where
    F: FnMut(&Conn) -> R,
    R: Future,
{
    MakeServiceFn(f)
}

pub fn service_fn<F, R, E>(f: F) -> ServiceFn<F>
where
    F: FnMut(Request<Body>) -> R,
    R: Future<Output = Result<Response<Body>, E>>,
    E: Into<BoxError>,
{
    ServiceFn(f)
}

/// What answers requests.
pub trait Service {
    type Answer: Future<Output = Result<Response<Body>, Self::Error>> + Send + 'static;
    type Error: Into<BoxError>;
    fn answer(&mut self, request: Request<Body>) -> Self::Answer;
}

impl<F, R, E> Service for ServiceFn<F>
where
    F: FnMut(Request<Body>) -> R,
    R: Future<Output = Result<Response<Body>, E>> + Send + 'static,
    E: Into<BoxError>,
{
    type Answer = R;
    type Error = E;
    fn answer(&mut self, request: Request<Body>) -> R {
        (self.0)(request)
    }
}
