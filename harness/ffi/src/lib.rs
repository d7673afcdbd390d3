//! lib/ffi: reference-counted values, dynamic types, closures, continuation stacks and futures.
mod any;
mod builtin;
mod closure;
mod futures_;
mod probe;
mod reference_count;
mod stack;
mod string;
