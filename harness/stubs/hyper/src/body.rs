//! Bodies that come in parts.
use crate::{Error, Result};
pub use bytes::{Buf, Bytes};
pub use http_body::Body as HttpBody;
use std::collections::VecDeque;
use std::pin::Pin;
use std::task::{ready, Context, Poll};

#[derive(Debug, Default)]
pub struct Body {
    parts: VecDeque<Bytes>,
    /// whether it ends with a failure
    broken: bool,
}

impl Body {
    pub fn empty() -> Self {
        Self::default()
    }

    pub fn of(parts: impl IntoIterator<Item = Vec<u8>>, broken: bool) -> Self {
        Self { parts: parts.into_iter().map(Bytes::from).collect(), broken }
    }

    /// What was given to be sent.
    pub fn bytes(&self) -> Vec<u8> {
        self.parts.iter().flat_map(|x| x.iter().copied()).collect()
    }
}

impl HttpBody for Body {
    type Data = Bytes;
    type Error = Error;

    /// The next part.
    fn poll_data(mut self: Pin<&mut Self>, context: &mut Context) -> Poll<Option<Result<Bytes>>> {
        ready!(tokio::wait(context));
        Poll::Ready(match self.parts.pop_front() {
            Some(x) => Some(Ok(x)),
            None if self.broken => {
                // a failure is told once
                self.broken = false;
                Some(Err(Error("broken")))
            }
            None => None,
        })
    }

    fn poll_trailers(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Option<http::HeaderMap>>> {
        Poll::Ready(Ok(None))
    }

    fn is_end_stream(&self) -> bool {
        self.parts.is_empty() && !self.broken
    }
}

impl futures_core::Stream for Body {
    type Item = Result<Bytes>;
    fn poll_next(self: Pin<&mut Self>, context: &mut Context) -> Poll<Option<Self::Item>> {
        self.poll_data(context)
    }
}

macro_rules! from {
    ($($t:ty)*) => {
        $(impl From<$t> for Body {
            fn from(x: $t) -> Self {
                Self { parts: [Bytes::from(x)].into(), broken: false }
            }
        })*
    };
}

from!(Vec<u8> Bytes String &'static str &'static [u8]);

pub async fn to_bytes<T: HttpBody>(body: T) -> std::result::Result<Bytes, T::Error> {
    let mut v = vec![];
    let mut body = std::pin::pin!(body);
    while let Some(x) = body.data().await {
        let mut x = x?;
        while x.has_remaining() {
            v.extend_from_slice(x.chunk());
            x.advance(x.chunk().len());
        }
    }
    Ok(v.into())
}

pub async fn aggregate<T: HttpBody>(body: T) -> std::result::Result<impl Buf, T::Error> {
    to_bytes(body).await
}
