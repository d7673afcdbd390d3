//! A stand-in for hyper: its requests, responses and addresses are the real ones, and the network answers anything.
pub use http;
pub use http::{header, HeaderMap, Method, Request, Response, StatusCode, Uri, Version};

pub mod body;
pub mod client;
pub mod server;
pub mod service;
pub use body::Body;
pub use client::Client;
pub use server::Server;

/// What fails.
#[derive(Debug)]
pub struct Error(pub(crate) &'static str);

pub type Result<T> = std::result::Result<T, Error>;

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl std::error::Error for Error {}
