//! Values that compiled code makes of the package's.
use crate::builtin::{error, none, number, source, string};
use core::mem::{forget, transmute, transmute_copy, ManuallyDrop};
use ffi::extra::Result;
use ffi::{Any, Arc, Boolean, ByteString, None, Number, TypeInformation};
use sym::check;

#[repr(C)]
#[derive(Clone)]
pub struct File(pub Arc<Any>);

#[repr(C)]
#[derive(Clone)]
pub struct Metadata(Arc<Number>);

impl Metadata {
    pub fn size(&self) -> f64 {
        f64::from(*self.0)
    }
}

builtin!(file, File, _pen_os_file_to_any, values_any_is_file, values_any_to_file);
builtin!(metadata, Metadata, _pen_os_file_metadata_to_any, values_any_is_metadata, values_any_to_metadata);

/// A result, good or an error.
pub fn result<T>(r: Result, of: &'static TypeInformation, to: extern "C" fn(Any) -> T) -> Option<T> {
    let any: Any = unsafe { transmute(r) };
    if core::ptr::eq(any.type_information(), of) {
        return Some(to(any));
    }
    check(core::ptr::eq(any.type_information(), &error::INFORMATION), "a result is its value or an error");
    let e = error::pen_ffi_any_to_error(any);
    check(
        core::ptr::eq(source(&e).type_information(), &string::INFORMATION),
        "the source of an error is a string",
    );
    Option::None
}

pub fn of_file(r: Result) -> Option<File> {
    result(r, &file::INFORMATION, file::values_any_to_file)
}

pub fn of_metadata(r: Result) -> Option<Metadata> {
    result(r, &metadata::INFORMATION, metadata::values_any_to_metadata)
}

pub fn of_number(r: Result) -> Option<f64> {
    result(r, &number::INFORMATION, number::pen_ffi_any_to_number).map(f64::from)
}

pub fn of_string(r: Result) -> Option<ByteString> {
    result(r, &string::INFORMATION, string::pen_ffi_any_to_string)
}

pub fn of_list(r: Result) -> Option<ffi::List> {
    result(r, &crate::builtin::list::INFORMATION, crate::builtin::list::pen_ffi_any_to_list)
}

pub fn of_none(r: Result) -> bool {
    result(r, &none::INFORMATION, none::pen_ffi_any_to_none).is_some()
}

#[allow(unused)]
fn unused(_: Boolean, _: None) {}
