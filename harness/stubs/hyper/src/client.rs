//! A client.
use crate::{Body, Error, Request, Response, Result, Uri};

/// What was sent.
pub static mut SENT: Vec<Request<Body>> = vec![];
/// What is received.
pub static mut RESPONSE: Option<Response<Body>> = None;

#[derive(Clone, Debug, Default)]
pub struct Client(());

impl Client {
    pub fn new() -> Self {
        Self(())
    }

    pub async fn get(&self, uri: Uri) -> Result<Response<Body>> {
        let mut r = Request::new(Body::empty());
        *r.uri_mut() = uri;
        self.request(r).await
    }

    #[allow(static_mut_refs)]
    pub fn request(&self, request: Request<Body>) -> impl std::future::Future<Output = Result<Response<Body>>> {
        async move {
            tokio::pause().await;
            // an address is of a scheme and a host
            if request.uri().scheme().is_none() || request.uri().authority().is_none() {
                return Err(Error("client requires absolute-form URIs"));
            }
            unsafe { SENT.push(request) };
            tokio::pause().await;
            unsafe { RESPONSE.take() }.ok_or(Error("connection error"))
        }
    }
}
