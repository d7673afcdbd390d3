//! The library as packages use it: its published version calls closures whatever their payload is typed.
pub use real;
pub use real::*;

#[macro_export]
macro_rules! call {
    (fn($($t:ty),* $(,)?) -> $r:ty, $closure:expr $(, $x:expr)* $(,)?) => {
        $crate::real::call!(
            fn($($t),*) -> $r,
            unsafe { core::mem::transmute::<$crate::Closure, $crate::Closure<$r>>($closure) },
            $($x),*
        )
    };
}
