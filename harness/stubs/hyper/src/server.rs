//! A server.
use crate::service::{MakeServiceFn, Service};
use crate::{Body, Error, Request, Response, Result};
use std::error::Error as StdError;
use std::future::Future;
use std::net::SocketAddr;

/// A connection.
#[derive(Debug)]
pub struct Conn {
    address: SocketAddr,
}

impl Conn {
    pub fn remote_addr(&self) -> SocketAddr {
        self.address
    }
}

pub mod conn {
    pub use super::Conn as AddrStream;
}

pub struct State {
    /// where it is bound to
    pub address: Option<SocketAddr>,
    pub unbound: bool,
    /// the requests of each connection
    pub requests: Vec<Vec<Request<Body>>>,
    /// their responses, or none if one failed
    pub responses: Vec<(usize, usize, Option<Response<Body>>)>,
    /// whether it ends with a failure
    pub broken: bool,
}

pub static mut STATE: State =
    State { address: None, unbound: false, requests: vec![], responses: vec![], broken: false };

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

pub struct Server(());

pub struct Builder(());

impl Server {
    pub fn try_bind(address: &SocketAddr) -> Result<Builder> {
        let s = state();
        sym::check(s.address.is_none(), "an address is bound to once");
        s.address = Some(*address);
        if s.unbound {
            Err(Error("error creating server listener"))
        } else {
            Ok(Builder(()))
        }
    }

    pub fn bind(address: &SocketAddr) -> Builder {
        Self::try_bind(address).unwrap()
    }
}

impl Builder {
    pub fn serve<F, R, S, E>(self, make: MakeServiceFn<F>) -> impl Future<Output = Result<()>>
    where
        F: FnMut(&Conn) -> R,
        R: Future<Output = std::result::Result<S, E>> + Send + 'static,
        S: Service + Send + 'static,
        E: Into<Box<dyn StdError + Send + Sync>>,
    {
        let mut make = make.0;
        async move {
            let mut connections = vec![];
            for (i, requests) in std::mem::take(&mut state().requests).into_iter().enumerate() {
                tokio::pause().await;
                let service = make(&Conn { address: ([1, 2, 3, 4], 5).into() });
                // connections are served at the same time, and each of their requests in turn
                connections.push(tokio::spawn(async move {
                    let mut service = match service.await {
                        Ok(x) => x,
                        Err(_) => return,
                    };
                    for (j, r) in requests.into_iter().enumerate() {
                        let r = service.answer(r).await.ok();
                        let end = r.is_none();
                        state().responses.push((i, j, r));
                        if end {
                            break;
                        }
                    }
                }));
            }
            for c in connections {
                let _ = c.await;
            }
            if state().broken {
                Err(Error("error accepting connection"))
            } else {
                Ok(())
            }
        }
    }
}
