pub use sqlx_core::any::*;

pub type AnyPool = crate::pool::Pool<Any>;
pub type AnyPoolOptions = crate::pool::PoolOptions<Any>;

/// Whether there are drivers.
pub static mut DRIVERS: bool = false;

pub fn install_default_drivers() {
    unsafe { DRIVERS = true }
}
