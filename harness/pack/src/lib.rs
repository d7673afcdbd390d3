//! packages/{core,html,json,prelude,test}: the foreign functions behind the packages' modules.
extern crate alloc;
extern crate ffi as pen_ffi;

#[path = "/repo/packages/core/ffi/src/lib.rs"]
mod package_core;
#[path = "/repo/packages/html/ffi/src/lib.rs"]
mod package_html;
#[path = "/repo/packages/json/ffi/src/lib.rs"]
mod package_json;
#[path = "/repo/packages/prelude/ffi/src/lib.rs"]
mod package_prelude;
#[path = "/repo/packages/test/ffi/src/lib.rs"]
mod package_test;

#[path = "../../ffi/src/builtin.rs"]
mod builtin;
mod byte;
mod common;
mod builder;
mod html;
mod json;
mod number;
mod prelude_;
mod state;
mod utf8;
