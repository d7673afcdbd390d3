//! A stand-in for sqlx: its values, rows, arguments and queries are the real ones, and the database answers anything.
pub use sqlx_core::any::Any;
pub use sqlx_core::arguments::{Arguments, IntoArguments};
pub use sqlx_core::column::{Column, ColumnIndex};
pub use sqlx_core::database::{self, Database};
pub use sqlx_core::decode::{self, Decode};
pub use sqlx_core::encode::{self, Encode};
pub use sqlx_core::error::{self, Error, Result};
pub use sqlx_core::executor::{Execute, Executor};
pub use sqlx_core::query::{query, query_with};
pub use sqlx_core::row::Row;
pub use sqlx_core::type_info::TypeInfo;
pub use sqlx_core::types::{self, Type};
pub use sqlx_core::value::{Value, ValueRef};
pub use sqlx_core::Either;

pub mod query {
    pub use sqlx_core::query::{query, query_with, Map, Query};
}

pub mod any;
pub mod pool;
pub use any::AnyPool;
pub use pool::Pool;

/// A name of a column.
pub fn name(x: &'static str) -> sqlx_core::ext::ustr::UStr {
    sqlx_core::ext::ustr::UStr::Static(x)
}
