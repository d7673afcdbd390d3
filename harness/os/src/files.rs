//! O01: files that are opened, read and written; O03: standard streams, times and exiting.
use crate::calls::*;
use crate::common::{same, Text};
use crate::system::{w, Call, NOW};
use crate::values::{of_file, of_number, of_string, File};
use ffi::{Arc, None as PenNone};
use sym::{check, cover, live, pick};

#[repr(C)]
pub struct Options(Arc<[bool; 6]>);

/// Fields are in alphabetical order: append, create, create new, read, truncate, write.
pub fn options(x: [bool; 6]) -> Options {
    Options(Arc::new(x))
}

pub const READ: [bool; 6] = [false, false, false, true, false, false];
pub const WRITE: [bool; 6] = [false, false, false, false, false, true];

fn content<const N: usize>() {
    let data: [u8; N] = sym::bytes();
    w!().content[..N].copy_from_slice(&data);
    w!().length = pick(N + 1);
}

pub fn opened(x: [bool; 6]) -> File {
    let f = of_file(unsafe { _pen_os_open_file("f".into(), options(x)) });
    check(f.is_some(), "a file is opened");
    f.unwrap()
}

pub fn read<const N: usize>() {
    let before = live();
    {
        content::<N>();
        let f = opened(READ);
        w!().hints = pick(2) == 1;
        w!().failing = pick(2) == 1;
        w!().interruptions = 1;
        let r = of_string(unsafe { _pen_os_read_file(f.clone()) });
        if let Some(r) = r {
            cover(1);
            check(!w!().failed, "a failure is an error");
            check(same(r.as_slice(), &w!().content[..w!().length]), "all of a file is read");
            w!().failing = false;
            let r = of_string(unsafe { _pen_os_read_file(f) });
            check(r.is_some_and(|r| r.as_slice().is_empty()), "at its end nothing more is read");
        } else {
            cover(2);
            check(w!().failed, "an error is of a failure");
        }
    }
    check(w!().calls[..w!().count] == [Some(Call::Open), Some(Call::Close)], "a file is closed once");
    check(live() == before, "what was allocated is freed");
}

/// Limits are also far larger than what there is.
pub fn wide(limit: usize, last: usize) -> usize {
    if limit == last {
        1 << 16
    } else {
        limit
    }
}

pub fn read_limit<const N: usize>() {
    content::<N>();
    let f = opened(READ);
    w!().failing = pick(2) == 1;
    w!().interruptions = 1;
    for _ in 0..2 {
        let (limit, start, left) = (wide(pick(N + 2), N + 1), w!().position, w!().interruptions);
        w!().failed = false;
        match of_string(unsafe { _pen_os_read_limit_file(f.clone(), (limit as f64).into()) }) {
            Some(r) => {
                check(r.as_slice().len() <= limit, "no more than the limit is read");
                check(!w!().failed, "a failure is an error");
                check(same(r.as_slice(), &w!().content[start..w!().position]), "what was read is the next of a file");
                if !r.as_slice().is_empty() {
                    cover(1);
                } else {
                    check(limit == 0 || start == w!().length, "something is read until the end");
                }
            }
            None => {
                cover(2);
                check(w!().failed || w!().interruptions < left, "an error is of a failure");
                check(w!().position == start, "nothing is lost with an error");
            }
        }
    }
}

pub fn write<const N: usize>(stream: usize) {
    let f = if stream == 0 { Some(opened(WRITE)) } else { None };
    w!().failing = pick(2) == 1;
    w!().interruptions = 1;
    for _ in 0..2 {
        let t = Text::<N>::new();
        let (start, left) = (w!().taken, w!().interruptions);
        w!().failed = false;
        let r = unsafe {
            match stream {
                0 => _pen_os_write_file(f.clone().unwrap(), t.string()),
                _ => _pen_os_write_stderr(t.string()),
            }
        };
        match of_number(r) {
            Some(n) => {
                check(!w!().failed, "a failure is an error");
                check(n == (w!().taken - start) as f64, "the number is of the bytes written");
                check(same(&w!().written[start..w!().taken], &t.bytes()[..w!().taken - start]), "what was given is written");
                if n > 0.0 {
                    cover(1);
                } else {
                    check(t.bytes().is_empty(), "something is written");
                }
            }
            None => {
                cover(2);
                check(w!().failed || w!().interruptions < left, "an error is of a failure");
                check(crate::BUFFERED || w!().taken == start, "nothing is written with an error");
            }
        }
    }
}

pub fn open() {
    let b = [sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool()];
    w!().failing = pick(2) == 1;
    let r = of_file(unsafe { _pen_os_open_file("ab".into(), options(b)) });
    let [append, create, create_new, read, truncate, write] = b;
    if w!().count > 0 {
        check(same(w!().paths[0].bytes(), b"ab"), "the file of the path is opened");
        let f = w!().flags[0];
        let (wronly, rdwr, creat, excl, trunc, app) = (1, 2, 0o100, 0o200, 0o1000, 0o2000);
        let writes = write || append;
        let access = if read && writes {
            rdwr
        } else if writes {
            wronly
        } else {
            0
        };
        check(read || writes, "a file is read or written");
        check(f & 3 == access, "a file is opened for what was asked for");
        check((f & app != 0) == append, "a file is appended to as asked for");
        check((f & excl != 0) == create_new, "a file is a new one as asked for");
        check((f & creat != 0) == (create || create_new), "a file is created as asked for");
        check((f & trunc != 0) == (truncate && !create_new), "a file is truncated as asked for");
        check(f & !(3 | app | excl | creat | trunc | 0o2000000 | 0o100000) == 0, "nothing else is asked for");
        check(r.is_some() != w!().failed, "a failure is an error");
        cover(1);
        drop(r);
        let closed = w!().calls[..w!().count] == [Some(Call::Open), Some(Call::Close)];
        check(closed != w!().failed, "a file is closed once");
    } else {
        cover(2);
        check(r.is_none(), "what cannot be opened is an error");
        let writes = write || append;
        check(
            !(read || writes) || !writes && (truncate || create || create_new) || append && truncate && !create_new,
            "what makes sense is opened",
        );
    }
}

pub fn stdin<const N: usize>() {
    content::<N>();
    w!().interruptions = 1;
    w!().failing = pick(2) == 1;
    let mut got = vec![];
    for _ in 0..2 {
        let limit = wide(pick(N + 1), N);
        w!().failed = false;
        let left = w!().interruptions;
        match of_string(unsafe { _pen_os_read_limit_stdin((limit as f64).into()) }) {
            Some(r) => {
                check(r.as_slice().len() <= limit, "no more than the limit is read");
                got.extend(r.as_slice());
            }
            None => check(w!().failed || w!().interruptions < left, "an error is of a failure"),
        }
    }
    w!().failing = false;
    match of_string(unsafe { _pen_os_read_stdin() }) {
        Some(r) => {
            got.extend(r.as_slice());
            check(same(&got, &w!().content[..w!().length]), "all of the input is read in order");
            cover(1);
        }
        None => check(false, "reading all goes on after interruptions"),
    }
}

struct Shared {
    file: File,
    got: [core::sync::atomic::AtomicUsize; 2],
}

fn part(p: *mut u8, k: usize) {
    let s = unsafe { &*(p as *const Shared) };
    let r = of_string(unsafe { _pen_os_read_file(s.file.clone()) });
    check(r.is_some(), "a file is read");
    let r = r.unwrap();
    let r = r.as_slice();
    check(r.is_empty() || same(r, b"xy"), "a file is read as a whole");
    s.got[k].store(r.len(), core::sync::atomic::Ordering::Relaxed);
}

extern "C" fn first(p: *mut u8) {
    part(p, 0)
}

extern "C" fn second(p: *mut u8) {
    part(p, 1)
}

pub fn shared() {
    w!().content[..2].copy_from_slice(b"xy");
    w!().length = 2;
    let file = opened(READ);
    file.0.clone().synchronize();
    let s = Shared { file, got: [const { core::sync::atomic::AtomicUsize::new(9) }; 2] };
    let p = &s as *const Shared as *mut u8;
    sym::spawn(first, p);
    sym::spawn(second, p);
    sym::join();
    let [a, b] = [0, 1].map(|k| s.got[k].load(core::sync::atomic::Ordering::Relaxed));
    check(a + b == 2, "a file is read once");
    cover(if a == 2 { 1 } else { 2 });
}

static mut EXIT: (bool, i32, usize) = (false, 0, 0);

#[no_mangle]
extern "C" fn exit(code: i32) -> ! {
    let (armed, expected, taken) = unsafe { EXIT };
    check(armed, "nothing exits by itself");
    check(code == expected, "the status is the one given");
    check(w!().taken == taken, "all that was written has arrived");
    check(same(&w!().written[..taken], &w!().content[..taken]), "what was written is in order");
    cover(1);
    sym::end()
}

pub fn stdout<const N: usize>() {
    w!().interruptions = 1;
    let mut given = 0;
    for _ in 0..2 {
        let t = Text::<N>::new();
        match of_number(unsafe { _pen_os_write_stdout(t.string()) }) {
            Some(n) => {
                let n = n as usize;
                check(n <= t.bytes().len() && (n > 0 || t.bytes().is_empty()), "some of what was given is taken");
                w!().content[given..given + n].copy_from_slice(&t.bytes()[..n]);
                given += n;
            }
            None => check(w!().interruptions == 0, "an error is of a failure"),
        }
    }
    let code = sym::u8();
    unsafe { EXIT = (true, code as i32, given) };
    unsafe { _pen_os_exit((code as f64).into()) };
    sym::fail("an exit ends the program");
}

pub fn time() {
    let s = sym::u32() as i64;
    let m = [0, 1, 7, 499, 500, 998, 999][pick(7)];
    // any part of a millisecond
    let rest = sym::u32() as i64;
    sym::assume(rest < 1_000_000);
    unsafe { NOW = (s, m * 1_000_000 + rest) };
    let t = f64::from(unsafe { _pen_os_get_time() });
    check(t as i64 == s * 1000 + m, "a time is the milliseconds of the clock");
    check((t as i64) as f64 == t, "a time is of whole milliseconds");
    cover(1);
}

pub fn sleep() {
    let n = [0, 1, 2, 500, 999, 1000, 1001, 1999, 2000, 65535, 86_400_000, 5_000_000_000][pick(12)];
    w!().interruptions = 1;
    let _: PenNone = unsafe { _pen_os_sleep((n as f64).into()) };
    check(w!().slept == n * 1_000_000, "as long as asked for");
    cover(1);
    if w!().interruptions == 0 {
        cover(2);
    }
}

static mut VARIABLE: ([u8; 8], usize, [u8; 8], bool, usize) = ([0; 8], 0, [0; 8], false, 0);

#[no_mangle]
unsafe extern "C" fn getenv(name: *const core::ffi::c_char) -> *mut core::ffi::c_char {
    let (expected, length, value, found, calls) = &mut *(&raw mut VARIABLE);
    *calls += 1;
    for i in 0..=*length {
        let c = if i < *length { expected[i] } else { 0 };
        check(*name.add(i) as u8 == c, "the name is the one given");
    }
    if *found {
        value.as_mut_ptr() as *mut _
    } else {
        core::ptr::null_mut()
    }
}

pub fn variable<const N: usize, const M: usize>() {
    let (name, value) = (Text::<N>::new(), Text::<M>::new());
    sym::assume(!value.bytes().contains(&0));
    let v = unsafe { &mut *(&raw mut VARIABLE) };
    v.0[..N].copy_from_slice(&[name.bytes(), &[0; N]].concat()[..N]);
    v.1 = name.bytes().len();
    v.2[..value.bytes().len()].copy_from_slice(value.bytes());
    v.3 = sym::bool();
    let r = of_string(unsafe { _pen_os_get_environment_variable(name.string()) });
    let asked = core::str::from_utf8(name.bytes()).is_ok() && !name.bytes().contains(&0);
    check(v.4 == asked as usize, "the system is asked for a name");
    match r {
        Some(r) => {
            cover(1);
            check(asked && v.3, "a variable that is not there is an error");
            check(same(r.as_slice(), value.bytes()), "a variable is what the system says");
        }
        None => {
            cover(2);
            check(!asked || !v.3 || core::str::from_utf8(value.bytes()).is_err(), "a variable that is there is found");
        }
    }
}
