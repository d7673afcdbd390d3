//! Packages of the network, databases, regular expressions and random numbers.
extern crate ffi as pen_ffi;

// the packages' own modules, at the root as there
#[path = "/repo/packages/http/ffi/src/client.rs"]
mod client;
#[path = "/repo/packages/http/ffi/src/header_map.rs"]
mod header_map;
#[path = "/repo/packages/http/ffi/src/response.rs"]
mod response;
#[path = "/repo/packages/http/ffi/src/server.rs"]
mod server;

#[path = "/repo/packages/sql/ffi/src/error.rs"]
mod error;
#[path = "/repo/packages/sql/ffi/src/pool.rs"]
mod pool;
#[path = "/repo/packages/sql/ffi/src/runtime.rs"]
mod runtime;

#[path = "/repo/lib/ffi/src/runtime.rs"]
mod library_runtime;

#[path = "/repo/packages/random/ffi/src/lib.rs"]
mod random;
#[path = "/repo/packages/regex/ffi/src/lib.rs"]
mod regular;

#[path = "../../ffi/src/builtin.rs"]
#[macro_use]
mod builtin;
#[path = "../../pack/src/common.rs"]
mod common;
mod entries;
mod http;
mod patterns;
mod sql;
#[path = "../../os/src/values.rs"]
mod values;
