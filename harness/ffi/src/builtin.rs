//! What compiled code provides to the library: the types of the language as dynamic values, and lists.
use ::pen_ffi::cps::{AsyncStack, ContinuationFunction};
use ::pen_ffi::{Any, Arc, Boolean, ByteString, Closure, Error, List, None, Number, TypeInformation};
use core::mem::{forget, transmute, transmute_copy, ManuallyDrop};

pub static mut CALLS: usize = 0;

macro_rules! builtin {
    ($m:ident, $t:ty, $into:ident, $is:ident, $to:ident) => {
        pub mod $m {
            use super::*;
            pub static INFORMATION: TypeInformation = TypeInformation::new(clone, drop_, synchronize);
            unsafe fn of(x: u64) -> ManuallyDrop<$t> {
                ManuallyDrop::new(transmute_copy::<u64, $t>(&x))
            }
            fn payload(x: $t) -> u64 {
                let mut p = 0u64;
                unsafe { core::ptr::write(&mut p as *mut u64 as *mut $t, x) };
                p
            }
            extern "C" fn clone(x: u64) -> u64 {
                payload(<$t>::clone(unsafe { &of(x) }))
            }
            extern "C" fn drop_(x: u64) {
                drop(ManuallyDrop::into_inner(unsafe { of(x) }))
            }
            extern "C" fn synchronize(_: u64) {}
            #[no_mangle]
            pub extern "C" fn $into(x: $t) -> Any {
                Any::new(&INFORMATION, payload(x))
            }
            #[no_mangle]
            pub extern "C" fn $is(any: Any) -> Boolean {
                core::ptr::eq(any.type_information(), &INFORMATION).into()
            }
            #[no_mangle]
            pub extern "C" fn $to(any: Any) -> $t {
                if !core::ptr::eq(any.type_information(), &INFORMATION) {
                    sym::fail("a value is converted to a type that it is not of");
                }
                let x = unsafe { transmute_copy::<u64, $t>(any.payload()) };
                forget(any);
                x
            }
        }
    };
}

builtin!(boolean, Boolean, pen_ffi_boolean_to_any, pen_ffi_any_is_boolean, pen_ffi_any_to_boolean);
builtin!(number, Number, pen_ffi_number_to_any, pen_ffi_any_is_number, pen_ffi_any_to_number);
builtin!(string, ByteString, pen_ffi_string_to_any, pen_ffi_any_is_string, pen_ffi_any_to_string);
builtin!(list, List, pen_ffi_list_to_any, pen_ffi_any_is_list, pen_ffi_any_to_list);
builtin!(error, Error, pen_ffi_error_to_any, pen_ffi_any_is_error, pen_ffi_any_to_error);
builtin!(none, None, pen_ffi_none_to_any, pen_ffi_any_is_none, pen_ffi_any_to_none);

pub fn source(error: &Error) -> &Any {
    // an error is a reference to its source
    unsafe { &**(error as *const Error as *const *const Any) }
}

/// A list is a reference to the closure of its nodes.
#[repr(C)]
struct Inner {
    node: Closure,
}

pub enum Node {
    Nil,
    Cons(Any, List),
    Lazy(Closure),
}

fn list(node: Node) -> List {
    let node = Closure::new(core::ptr::null(), node).into_opaque();
    unsafe { transmute::<Arc<Inner>, List>(Arc::new(Inner { node })) }
}

pub fn node(list: &List) -> &Node {
    unsafe {
        let inner = &**(list as *const List as *const *const Inner);
        &*(inner.node.payload() as *const Node)
    }
}

#[no_mangle]
pub extern "C" fn pen_ffi_list_create() -> List {
    list(Node::Nil)
}

#[no_mangle]
pub extern "C" fn pen_ffi_list_lazy(xs: Closure) -> List {
    list(Node::Lazy(xs))
}

#[no_mangle]
pub extern "C" fn pen_ffi_list_prepend(x: Any, xs: List) -> List {
    list(Node::Cons(x, xs))
}

/// The elements of a list that is not lazy.
pub fn elements(list: &List) -> Vec<Any> {
    let mut v = vec![];
    let mut l = list;
    while let Node::Cons(x, xs) = node(l) {
        v.push(x.clone());
        l = xs;
    }
    v
}

#[repr(C)]
pub struct FirstRest {
    ok: Boolean,
    first: Closure,
    rest: List,
}

extern "C" fn first(stack: &mut AsyncStack<Any>, k: ContinuationFunction<Any, Any>, closure: Closure<Any>) {
    k(stack, unsafe { &*closure.payload() }.clone())
}

/// How many times reading a list waits before it goes on.
pub static mut WAITS: usize = 0;

/// Whether reading a list that is not known yet goes on forever.
pub static mut STUCK: bool = false;

fn never(
    stack: &mut AsyncStack<Arc<FirstRest>>,
    k: ContinuationFunction<Arc<FirstRest>, Arc<FirstRest>>,
) {
    stack.suspend(again, k, core::future::pending::<()>()).unwrap()
}

fn again(
    stack: &mut AsyncStack<Arc<FirstRest>>,
    k: ContinuationFunction<Arc<FirstRest>, Arc<FirstRest>>,
) {
    stack.restore::<core::future::Pending<()>>().unwrap();
    never(stack, k)
}

#[no_mangle]
pub extern "C" fn pen_ffi_list_first_rest(
    stack: &mut AsyncStack<Arc<FirstRest>>,
    k: ContinuationFunction<Arc<FirstRest>, Arc<FirstRest>>,
    l: List,
) {
    if let Node::Lazy(_) = node(&l) {
        if unsafe { STUCK } {
            return never(stack, k);
        }
    }
    let answer = Arc::new(match node(&l) {
        Node::Cons(x, xs) => FirstRest {
            ok: true.into(),
            first: Closure::new(first as *const u8, x.clone()).into_opaque(),
            rest: xs.clone(),
        },
        _ => FirstRest {
            ok: false.into(),
            first: Closure::new(core::ptr::null(), ()).into_opaque(),
            rest: pen_ffi_list_create(),
        },
    });
    drop(l);
    unsafe {
        if WAITS > 0 {
            WAITS -= 1;
            stack.trampoline(k, answer).unwrap();
            return;
        }
    }
    k(stack, answer)
}
