//! Stand-ins for the functions of the C library behind files: what a system may answer, arbitrarily.
use core::ffi::{c_char, c_int, c_long, c_uint, c_void};
use sym::{check, cover, pick};

pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const ENOENT: c_int = 2;
pub const EEXIST: c_int = 17;
pub const EFAULT: c_int = 14;
pub const EINVAL: c_int = 22;

pub const FD: c_int = 100;
pub const OTHER: c_int = 101;

/// A call that was made.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Open,
    Close,
    Rename,
    Unlink,
    Mkdir,
    Rmdir,
    Stat,
    OpenDirectory,
    CloseDirectory,
}

pub struct Path {
    pub data: [u8; 16],
    pub length: usize,
}

impl Path {
    const fn new() -> Self {
        Self { data: [0; 16], length: 0 }
    }

    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.length]
    }

    unsafe fn set(&mut self, p: *const c_char) {
        self.length = 0;
        while *p.add(self.length) != 0 {
            check(self.length < 16, "a path is as long as the one given");
            self.data[self.length] = *p.add(self.length) as u8;
            self.length += 1;
        }
    }
}

pub struct World {
    pub calls: [Option<Call>; 8],
    pub count: usize,
    pub paths: [Path; 2],
    pub flags: [c_int; 2],
    pub opens: usize,
    /// whether calls may fail
    pub failing: bool,
    pub failed: bool,
    /// how many times reading and writing may be interrupted
    pub interruptions: usize,
    pub content: [u8; 16],
    pub length: usize,
    pub position: usize,
    pub written: [u8; 32],
    pub taken: usize,
    pub last: usize,
    pub size: u64,
    /// what a file says about its size and position may be anything
    pub hints: bool,
    pub names: [[u8; 4]; 3],
    pub entries: usize,
    pub entry: usize,
    pub slept: u64,
}

pub static mut WORLD: World = World {
    calls: [None; 8],
    count: 0,
    paths: [Path::new(), Path::new()],
    flags: [0; 2],
    opens: 0,
    failing: false,
    failed: false,
    interruptions: 0,
    content: [0; 16],
    length: 0,
    position: 0,
    written: [0; 32],
    taken: 0,
    last: 0,
    size: 0,
    hints: false,
    names: [[0; 4]; 3],
    entries: 0,
    entry: 0,
    slept: 0,
};

/// The world, as it is at the moment.
macro_rules! w {
    () => {
        (*unsafe { &mut *(&raw mut crate::system::WORLD) })
    };
}
pub(crate) use w;

static mut ERRNO: c_int = 0;

#[no_mangle]
extern "C" fn __errno_location() -> *mut c_int {
    &raw mut ERRNO
}

pub fn fail(e: c_int) -> c_int {
    unsafe { ERRNO = e };
    -1
}

#[no_mangle]
unsafe extern "C" fn __xpg_strerror_r(_: c_int, p: *mut c_char, n: usize) -> c_int {
    check(n > 3, "there is room for a message");
    for (i, c) in b"bad\0".iter().enumerate() {
        *p.add(i) = *c as c_char;
    }
    0
}

fn call(c: Call) -> bool {
    check(w!().count < w!().calls.len(), "a few calls are made");
    w!().calls[w!().count] = Some(c);
    w!().count += 1;
    if w!().failing && pick(2) == 1 {
        w!().failed = true;
        // it is not there, or it is there already
        fail([ENOENT, EEXIST][pick(2)]);
        false
    } else {
        true
    }
}

#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _: c_int) -> c_int {
    if b"/proc/self".iter().enumerate().all(|(k, c)| *path.add(k) == *c as c_char) {
        // what the system says about itself
        return fail(ENOENT);
    }
    check(w!().opens < 2, "at most two files are opened");
    w!().paths[w!().opens].set(path);
    w!().flags[w!().opens] = flags;
    if !call(Call::Open) {
        return -1;
    }
    w!().opens += 1;
    FD + w!().opens as c_int - 1
}

#[no_mangle]
extern "C" fn close(fd: c_int) -> c_int {
    if crate::net::closed(fd) {
        return 0;
    }
    check(fd == FD || fd == OTHER, "a file that was opened is closed");
    check(w!().count < w!().calls.len(), "a few calls are made");
    w!().calls[w!().count] = Some(Call::Close);
    w!().count += 1;
    0
}

#[no_mangle]
extern "C" fn fcntl(_: c_int, _: c_int) -> c_int {
    0
}

/// One or more of at most `n`.
pub fn some(n: usize) -> usize {
    if n <= 1 {
        n
    } else {
        1 + pick(n)
    }
}

#[no_mangle]
unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    check(fd == FD || fd == 0, "the file that was opened is read");
    if w!().interruptions > 0 && pick(2) == 1 {
        w!().interruptions -= 1;
        return fail(EINTR) as isize;
    }
    if w!().failing && pick(2) == 1 {
        w!().failed = true;
        return fail(EIO) as isize;
    }
    let k = some(n.min(w!().length - w!().position));
    for i in 0..k {
        *(p as *mut u8).add(i) = w!().content[w!().position + i];
    }
    w!().position += k;
    k as isize
}

unsafe fn take(p: *const u8, n: usize) -> isize {
    if w!().interruptions > 0 && pick(2) == 1 {
        w!().interruptions -= 1;
        return fail(EINTR) as isize;
    }
    if w!().failing && pick(2) == 1 {
        w!().failed = true;
        return fail(EIO) as isize;
    }
    let k = some(n);
    check(w!().taken + k <= w!().written.len(), "no more is written than was given");
    for i in 0..k {
        w!().written[w!().taken + i] = *p.add(i);
    }
    w!().taken += k;
    w!().last = k;
    k as isize
}

#[no_mangle]
unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    check(fd == FD || fd == OTHER || fd == 1 || fd == 2, "the file that was opened is written");
    take(p as *const u8, n)
}

#[no_mangle]
unsafe extern "C" fn copy_file_range(
    from: c_int,
    _: *mut i64,
    to: c_int,
    _: *mut i64,
    n: usize,
    _: c_uint,
) -> isize {
    check(from == FD && to == OTHER, "the first file is copied to the second");
    let k = some(n.min(w!().length - w!().position));
    for i in 0..k {
        w!().written[w!().taken + i] = w!().content[w!().position + i];
    }
    w!().position += k;
    w!().taken += k;
    k as isize
}

#[no_mangle]
extern "C" fn lseek64(_: c_int, _: i64, _: c_int) -> i64 {
    if w!().hints {
        [0, 1, 4, 100][pick(4)]
    } else {
        fail(EIO) as i64
    }
}

/// The layout of what statx answers.
#[repr(C)]
struct Statx {
    mask: u32,
    block: u32,
    attributes: u64,
    links: u32,
    user: u32,
    group: u32,
    mode: u16,
    spare: u16,
    inode: u64,
    size: u64,
    rest: [u64; 25],
}

#[no_mangle]
unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, _: c_uint, p: *mut c_void) -> c_int {
    if p.is_null() {
        return fail(EFAULT);
    }
    if fd == FD || fd == OTHER {
        if !w!().hints {
            return fail(EIO);
        }
    } else {
        check(flags & 0x100 == 0, "links are followed");
        w!().paths[0].set(path);
        if !call(Call::Stat) {
            return -1;
        }
    }
    let p = &mut *(p as *mut Statx);
    p.mode = 0o100644;
    p.size = if fd == FD { [0, 1, 3, 100][pick(4)] } else { w!().size };
    0
}

#[no_mangle]
extern "C" fn fchmod(_: c_int, _: c_uint) -> c_int {
    0
}

#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    w!().paths[0].set(a);
    w!().paths[1].set(b);
    call(Call::Rename) as c_int - 1
}

#[no_mangle]
unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    w!().paths[0].set(a);
    call(Call::Unlink) as c_int - 1
}

#[no_mangle]
unsafe extern "C" fn mkdir(a: *const c_char, _: c_uint) -> c_int {
    w!().paths[0].set(a);
    call(Call::Mkdir) as c_int - 1
}

#[no_mangle]
unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    w!().paths[0].set(a);
    call(Call::Rmdir) as c_int - 1
}

#[no_mangle]
extern "C" fn fstat64(_: c_int, _: *mut c_void) -> c_int {
    fail(EIO)
}

static mut DIRECTORY: u64 = 0;

#[no_mangle]
unsafe extern "C" fn opendir(a: *const c_char) -> *mut c_void {
    w!().paths[0].set(a);
    if call(Call::OpenDirectory) {
        &raw mut DIRECTORY as *mut c_void
    } else {
        core::ptr::null_mut()
    }
}

#[no_mangle]
extern "C" fn dirfd(_: *mut c_void) -> c_int {
    FD
}

#[repr(C)]
struct Entry {
    inode: u64,
    offset: i64,
    length: u16,
    kind: u8,
    name: [u8; 256],
}

static mut ENTRY: Entry = Entry { inode: 1, offset: 0, length: 280, kind: 8, name: [0; 256] };

#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn readdir64(_: *mut c_void) -> *mut c_void {
    if w!().entry == w!().entries {
        if w!().failing && pick(2) == 1 {
            w!().failed = true;
            fail(EIO);
        }
        return core::ptr::null_mut();
    }
    ENTRY.name[..4].copy_from_slice(&w!().names[w!().entry]);
    w!().entry += 1;
    &raw mut ENTRY as *mut c_void
}

#[no_mangle]
extern "C" fn closedir(_: *mut c_void) -> c_int {
    w!().calls[w!().count] = Some(Call::CloseDirectory);
    w!().count += 1;
    0
}

#[repr(C)]
struct Time {
    seconds: i64,
    nanoseconds: c_long,
}

pub static mut NOW: (i64, i64) = (0, 0);

#[no_mangle]
unsafe extern "C" fn clock_gettime(_: c_int, p: *mut c_void) -> c_int {
    let p = &mut *(p as *mut Time);
    (p.seconds, p.nanoseconds) = NOW;
    0
}

unsafe fn sleep(request: *const c_void, left: *mut c_void) -> c_int {
    let r = &*(request as *const Time);
    check(0 <= r.nanoseconds && r.nanoseconds < 1_000_000_000 && r.seconds >= 0, "a time is well formed");
    let n = r.seconds as u64 * 1_000_000_000 + r.nanoseconds as u64;
    if w!().interruptions > 0 && pick(2) == 1 {
        w!().interruptions -= 1;
        cover(3);
        // any part of the time is left
        let k = (sym::u8() as u64) << 20;
        sym::assume(k <= n);
        w!().slept += n - k;
        let l = &mut *(left as *mut Time);
        l.seconds = (k / 1_000_000_000) as i64;
        l.nanoseconds = (k % 1_000_000_000) as c_long;
        return EINTR;
    }
    w!().slept += n;
    0
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(_: c_int, _: c_int, request: *const c_void, left: *mut c_void) -> c_int {
    sleep(request, left)
}

#[no_mangle]
unsafe extern "C" fn nanosleep(request: *const c_void, left: *mut c_void) -> c_int {
    match sleep(request, left) {
        0 => 0,
        e => fail(e),
    }
}

// what other ways to do the same may ask for

#[no_mangle]
extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: usize) -> isize {
    fail(EINVAL) as isize
}

#[no_mangle]
extern "C" fn splice(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: usize, _: c_uint) -> isize {
    fail(EINVAL) as isize
}

#[no_mangle]
extern "C" fn ftruncate64(_: c_int, _: i64) -> c_int {
    0
}

#[no_mangle]
extern "C" fn sched_getaffinity(_: c_int, _: usize, _: *mut c_void) -> c_int {
    fail(EINVAL)
}

#[no_mangle]
extern "C" fn sysconf(_: c_int) -> c_long {
    1
}

#[no_mangle]
extern "C" fn fsync(_: c_int) -> c_int {
    0
}

#[repr(C)]
struct Part {
    data: *mut c_void,
    length: usize,
}

#[no_mangle]
unsafe extern "C" fn readv(fd: c_int, p: *const c_void, n: c_int) -> isize {
    check(n > 0, "there is room");
    let p = &*(p as *const Part);
    read(fd, p.data, p.length)
}

#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, p: *const c_void, n: c_int) -> isize {
    let p = core::slice::from_raw_parts(p as *const Part, n as usize);
    match p.iter().find(|x| x.length > 0) {
        Some(x) => write(fd, x.data, x.length),
        None => 0,
    }
}
