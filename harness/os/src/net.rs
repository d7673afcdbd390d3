//! O04: sockets, over stand-ins for the functions of the C library behind them.
use crate::builtin::string;
use crate::calls::*;
use crate::common::{same, Text};
use crate::system::{fail, some, EINTR, EIO};
use crate::values::{of_none, of_number, of_string, result};
use core::ffi::{c_char, c_int, c_void};
use core::mem::{forget, transmute_copy, ManuallyDrop};
use ffi::extra::Result;
use ffi::{Any, Arc, Boolean, ByteString, TypeInformation};
use sym::{check, cover, live, pick};

const STREAM: c_int = 1;
const DATAGRAM: c_int = 2;
const BASE: c_int = 200;

#[repr(C, align(8))]
#[derive(Clone, Copy)]
struct Address {
    family: u16,
    port: [u8; 2],
    ip: [u8; 4],
    rest: [u8; 8],
}

const NOWHERE: Address = Address { family: 2, port: [0; 2], ip: [0; 4], rest: [0; 8] };

#[repr(C)]
struct Information {
    flags: c_int,
    family: c_int,
    kind: c_int,
    protocol: c_int,
    length: u32,
    address: *mut Address,
    name: *mut c_char,
    next: *mut Information,
}

/// More than what a datagram is received in.
const LARGE: usize = 520;

struct Net {
    kind: c_int,
    open: [bool; 4],
    sockets: usize,
    tries: usize,
    failing: bool,
    failed: bool,
    interruptions: usize,
    /// addresses that were bound or connected to, and those that were sent to
    used: [Address; 4],
    count: usize,
    bound: usize,
    listening: bool,
    sent: [u8; LARGE],
    taken: usize,
    sends: usize,
    target: Address,
    incoming: [u8; 16],
    length: usize,
    position: usize,
    peer: Address,
    host: [u8; 16],
    host_length: usize,
    lookups: usize,
    freed: usize,
    resolved: usize,
}

static mut NET: Net = Net {
    kind: 0,
    open: [false; 4],
    sockets: 0,
    tries: 0,
    failing: false,
    failed: false,
    interruptions: 0,
    used: [NOWHERE; 4],
    count: 0,
    bound: 0,
    listening: false,
    sent: [0; LARGE],
    taken: 0,
    sends: 0,
    target: NOWHERE,
    incoming: [0; 16],
    length: 0,
    position: 0,
    peer: NOWHERE,
    host: [0; 16],
    host_length: 0,
    lookups: 0,
    freed: 0,
    resolved: 0,
};

macro_rules! n {
    () => {
        (*unsafe { &mut *(&raw mut NET) })
    };
}

fn given(fd: c_int) {
    let k = (fd - BASE) as usize;
    check(k < 4 && n!().open[k], "a socket that is open is used");
}

fn new() -> c_int {
    check(n!().sockets < 4, "a few sockets are opened");
    n!().open[n!().sockets] = true;
    n!().sockets += 1;
    BASE + n!().sockets as c_int - 1
}

/// Closes a socket, if it is one.
pub fn closed(fd: c_int) -> bool {
    if fd < BASE {
        return false;
    }
    given(fd);
    n!().open[(fd - BASE) as usize] = false;
    true
}

fn goes() -> bool {
    if n!().interruptions > 0 && pick(2) == 1 {
        n!().interruptions -= 1;
        fail(EINTR);
        return false;
    }
    works()
}

fn works() -> bool {
    if n!().failing && pick(2) == 1 {
        n!().failed = true;
        fail(EIO);
        return false;
    }
    true
}

#[no_mangle]
extern "C" fn socket(family: c_int, kind: c_int, _: c_int) -> c_int {
    check(family == 2 && kind & 15 == n!().kind, "a socket is of the kind asked for");
    n!().tries += 1;
    if works() {
        new()
    } else {
        -1
    }
}

#[no_mangle]
extern "C" fn setsockopt(fd: c_int, _: c_int, _: c_int, _: *const c_void, _: u32) -> c_int {
    given(fd);
    0
}

unsafe fn to(p: *const c_void, length: u32) -> Address {
    check(length == 16, "an address is one");
    let a = (p as *const Address).read_unaligned();
    check(a.family == 2, "an address is of the family");
    a
}

unsafe fn used(p: *const c_void, length: u32) {
    check(n!().count < 4, "a few addresses are used");
    n!().used[n!().count] = to(p, length);
    n!().count += 1;
}

#[no_mangle]
unsafe extern "C" fn bind(fd: c_int, p: *const c_void, length: u32) -> c_int {
    given(fd);
    used(p, length);
    n!().bound += 1;
    works() as c_int - 1
}

#[no_mangle]
extern "C" fn listen(fd: c_int, _: c_int) -> c_int {
    given(fd);
    n!().listening = true;
    works() as c_int - 1
}

#[no_mangle]
unsafe extern "C" fn connect(fd: c_int, p: *const c_void, length: u32) -> c_int {
    given(fd);
    if n!().interruptions > 0 && pick(2) == 1 {
        n!().interruptions -= 1;
        return fail(EINTR);
    }
    used(p, length);
    works() as c_int - 1
}

#[no_mangle]
unsafe extern "C" fn accept4(fd: c_int, p: *mut c_void, length: *mut u32, _: c_int) -> c_int {
    given(fd);
    check(n!().listening, "a socket that listens accepts");
    if !goes() {
        return -1;
    }
    (p as *mut Address).write_unaligned(n!().peer);
    *length = 16;
    new()
}

#[no_mangle]
unsafe extern "C" fn getpeername(fd: c_int, p: *mut c_void, length: *mut u32) -> c_int {
    given(fd);
    (p as *mut Address).write_unaligned(n!().peer);
    *length = 16;
    0
}

unsafe fn deliver(fd: c_int, p: *mut c_void, n: usize, datagram: bool) -> isize {
    given(fd);
    check(!datagram || n >= 512, "there is room for a datagram");
    if !goes() {
        return -1;
    }
    let left = n!().length - n!().position;
    let k = if datagram { n.min(left) } else { some(n.min(left)) };
    for i in 0..k {
        *(p as *mut u8).add(i) = n!().incoming[n!().position + i];
    }
    n!().position += k;
    k as isize
}

#[no_mangle]
unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: usize, flags: c_int) -> isize {
    check(flags == 0, "what is received is taken");
    deliver(fd, p, n, n!().kind == DATAGRAM)
}

#[no_mangle]
unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: usize, flags: c_int, a: *mut c_void, length: *mut u32) -> isize {
    check(flags == 0, "what is received is taken");
    (a as *mut Address).write_unaligned(n!().peer);
    *length = 16;
    deliver(fd, p, n, true)
}

unsafe fn take(fd: c_int, p: *const c_void, n: usize) -> isize {
    given(fd);
    if !goes() {
        return -1;
    }
    let k = if n!().kind == DATAGRAM { n } else { some(n) };
    check(n!().taken + k <= LARGE, "no more is sent than was given");
    for i in 0..k {
        n!().sent[n!().taken + i] = *(p as *const u8).add(i);
    }
    n!().sends += 1;
    n!().taken += k;
    k as isize
}

#[no_mangle]
unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: usize, _: c_int) -> isize {
    take(fd, p, n)
}

#[no_mangle]
unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: usize, _: c_int, a: *const c_void, length: u32) -> isize {
    n!().target = to(a, length);
    take(fd, p, n)
}

static mut ANSWERS: [Address; 2] = [NOWHERE; 2];
static mut INFORMATION: [Information; 2] = [const {
    Information {
        flags: 0,
        family: 2,
        kind: 1,
        protocol: 0,
        length: 16,
        address: core::ptr::null_mut(),
        name: core::ptr::null_mut(),
        next: core::ptr::null_mut(),
    }
}; 2];

#[no_mangle]
unsafe extern "C" fn getaddrinfo(host: *const c_char, service: *const c_char, _: *const c_void, p: *mut *mut Information) -> c_int {
    check(service.is_null(), "hosts are looked up");
    n!().lookups += 1;
    n!().host_length = 0;
    while *host.add(n!().host_length) != 0 {
        check(n!().host_length < 16, "a host is as long as the one given");
        n!().host[n!().host_length] = *host.add(n!().host_length) as u8;
        n!().host_length += 1;
    }
    if !works() {
        return -2;
    }
    // one or two addresses
    n!().resolved = 1 + pick(2);
    for k in 0..n!().resolved {
        ANSWERS[k] = Address { ip: [10, 0, 0, k as u8 + 1], ..NOWHERE };
        INFORMATION[k].address = (&raw mut ANSWERS as *mut Address).add(k);
        INFORMATION[k].next = if k + 1 < n!().resolved {
            (&raw mut INFORMATION as *mut Information).add(k + 1)
        } else {
            core::ptr::null_mut()
        };
    }
    *p = &raw mut INFORMATION as *mut Information;
    0
}

#[no_mangle]
extern "C" fn gnu_get_libc_version() -> *const c_char {
    c"2.39".as_ptr()
}

#[no_mangle]
extern "C" fn freeaddrinfo(_: *mut c_void) {
    n!().freed += 1;
}

#[no_mangle]
extern "C" fn gai_strerror(_: c_int) -> *const c_char {
    c"unknown".as_ptr()
}

#[repr(C)]
#[derive(Clone)]
pub struct Listener(Arc<Any>);
#[repr(C)]
#[derive(Clone)]
pub struct Stream(Arc<Any>);
#[repr(C)]
#[derive(Clone)]
pub struct Socket(Arc<Any>);

#[repr(C)]
struct AcceptedInner {
    stream: Stream,
    address: ByteString,
}
#[repr(C)]
#[derive(Clone)]
pub struct Accepted(Arc<AcceptedInner>);

#[repr(C)]
struct DatagramInner {
    data: ByteString,
    address: ByteString,
}
#[repr(C)]
#[derive(Clone)]
pub struct Datagram(Arc<DatagramInner>);

builtin!(listener, Listener, _pen_os_tcp_listener_to_any, net_any_is_listener, net_any_to_listener);
builtin!(stream, Stream, _pen_os_tcp_stream_to_any, net_any_is_stream, net_any_to_stream);
builtin!(accepted, Accepted, _pen_os_tcp_accepted_stream_to_any, net_any_is_accepted, net_any_to_accepted);
builtin!(socket_, Socket, _pen_os_udp_socket_to_any, net_any_is_socket, net_any_to_socket);
builtin!(datagram, Datagram, _pen_os_udp_datagram_to_any, net_any_is_datagram, net_any_to_datagram);

fn of_listener(r: Result) -> Option<Listener> {
    result(r, &listener::INFORMATION, listener::net_any_to_listener)
}

fn of_stream(r: Result) -> Option<Stream> {
    result(r, &stream::INFORMATION, stream::net_any_to_stream)
}

fn of_socket(r: Result) -> Option<Socket> {
    result(r, &socket_::INFORMATION, socket_::net_any_to_socket)
}

/// Makes a socket: a listener, a stream, or one for datagrams.
fn make(way: usize, address: ByteString) -> bool {
    n!().kind = if way == 2 { DATAGRAM } else { STREAM };
    unsafe {
        match way {
            0 => of_listener(_pen_os_tcp_bind(address)).is_some(),
            1 => of_stream(_pen_os_tcp_connect(address)).is_some(),
            _ => of_socket(_pen_os_udp_bind(address)).is_some(),
        }
    }
}

fn all_closed() {
    check(n!().open == [false; 4], "what is opened is closed");
    check(n!().resolved == 0 || n!().lookups == n!().freed, "what is looked up is given back");
}

/// What an address says, if it is one of four numbers and a port.
fn literal(b: &[u8]) -> Option<([u8; 4], u16)> {
    let mut ip = [0; 4];
    let mut i = 0;
    for (k, x) in ip.iter_mut().enumerate() {
        let start = i;
        let mut n = 0u32;
        while i < b.len() && b[i].is_ascii_digit() && i < start + 3 {
            n = n * 10 + (b[i] - b'0') as u32;
            i += 1;
        }
        if i == start || i > start + 1 && b[start] == b'0' || n > 255 {
            return None;
        }
        *x = n as u8;
        if b.get(i) != Some(if k < 3 { &b'.' } else { &b':' }) {
            return None;
        }
        i += 1;
    }
    Some((ip, port(&b[i..])?))
}

fn port(b: &[u8]) -> Option<u16> {
    if b.is_empty() {
        return None;
    }
    let mut n = 0u32;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (*c - b'0') as u32;
        if n > 65535 {
            return None;
        }
    }
    Some(n as u16)
}

/// Addresses that are written as numbers are those used.
pub fn numbers(way: usize) {
    let before = live();
    let mut text = *b"1.20.3.4:567";
    for i in [0, 2, 3, 9, 10] {
        text[i] = sym::u8();
        sym::assume(text[i].is_ascii_digit());
    }
    n!().failing = pick(2) == 1;
    let good = make(way, (&text[..]).into());
    match literal(&text) {
        Some((ip, port)) => {
            check(n!().lookups == 0, "an address of numbers is not looked up");
            check(good != n!().failed, "a failure is an error, and nothing else is");
            if n!().count > 0 {
                cover(1);
                let a = &n!().used[0];
                check(same(&a.ip, &ip), "the address is the one given");
                check(u16::from_be_bytes(a.port) == port, "the port is the one given");
                check(n!().count == 1, "one address is used");
            }
            check(!good || n!().count == 1, "an address is used");
        }
        None => {
            cover(2);
            check(n!().lookups == 1, "a name is looked up");
            check(same(&n!().host[..n!().host_length], &text[..8]), "the host is the one given");
        }
    }
    check(!good || (n!().bound > 0) == (way != 1), "a socket is bound as asked for");
    check(!good || n!().listening == (way == 0), "a socket listens as asked for");
    all_closed();
    check(live() == before, "what was allocated is freed");
}

/// Names are looked up, and their addresses are tried in order.
pub fn names<const N: usize>() {
    let before = live();
    {
        let t = Text::<N>::new();
        let way = pick(4);
        // a socket whose peer is named
        let socket = (way == 3).then(|| {
            n!().kind = DATAGRAM;
            let s = of_socket(unsafe { _pen_os_udp_bind("1.2.3.4:5".into()) }).unwrap();
            n!().count = 0;
            n!().tries = 0;
            s
        });
        n!().failing = pick(2) == 1;
        n!().interruptions = 1;
        let good = match socket {
            Some(s) => {
                let good = of_none(unsafe { _pen_os_udp_connect(s, t.string()) });
                check(n!().tries == 0, "no other socket is opened");
                n!().tries = n!().count;
                good
            }
            None => make(way, t.string()),
        };
        let b = t.bytes();
        let named = core::str::from_utf8(b).is_ok()
            && !b.contains(&0)
            && match b.iter().rposition(|c| *c == b':') {
                Some(i) => {
                    let p = &b[i + 1..];
                    let digits = p.strip_prefix(b"+").unwrap_or(p);
                    port(digits).is_some()
                }
                None => false,
            };
        if named {
            let i = b.iter().rposition(|c| *c == b':').unwrap();
            let p = &b[i + 1..];
            let p = port(p.strip_prefix(b"+").unwrap_or(p)).unwrap();
            cover(1);
            check(n!().lookups == 1, "a name is looked up");
            check(same(&n!().host[..n!().host_length], &b[..i]), "the host is the one given");
            for k in 0..n!().count {
                let a = n!().used[k].ip;
                check(a[..3] == [10, 0, 0] && a[3] as usize <= n!().resolved, "the addresses are those found");
                check(k == 0 || n!().used[k - 1].ip[3] < a[3], "addresses are tried in order");
                check(u16::from_be_bytes(n!().used[k].port) == p, "the port is the one given");
            }
            check(n!().tries <= n!().resolved, "no address is tried twice");
            check(good || n!().failed, "an error is of a failure");
            check(!good || n!().count > 0, "an address is used");
            check(good || n!().tries == n!().resolved, "all addresses are tried");
            if good && n!().count == 2 {
                cover(3);
            }
        } else {
            cover(2);
            check(!good && n!().sockets == (way == 3) as usize && n!().lookups == 0, "what is no address is an error");
        }
    }
    all_closed();
    check(live() == before, "what was allocated is freed");
}

fn peer() {
    n!().peer = Address { family: 2, port: [0, sym::u8()], ip: [127, sym::u8(), 0, 9], rest: [0; 8] };
}

fn names_peer(s: &ByteString) {
    let a = literal(s.as_slice());
    check(a.is_some(), "an address is of numbers");
    let (ip, port) = a.unwrap();
    check(same(&ip, &n!().peer.ip), "the address is the peer's");
    check(port == u16::from_be_bytes(n!().peer.port), "the port is the peer's");
}

fn incoming<const N: usize>() {
    let data: [u8; N] = sym::bytes();
    n!().incoming[..N].copy_from_slice(&data);
    n!().length = pick(N + 1);
}

pub fn stream<const N: usize>() {
    let before = live();
    {
        n!().kind = STREAM;
        incoming::<N>();
        let s = if pick(2) == 1 {
            peer();
            let l = of_listener(unsafe { _pen_os_tcp_bind("0.0.0.0:1".into()) }).unwrap();
            n!().interruptions = 1;
            n!().failing = pick(2) == 1;
            let a = result(
                unsafe { _pen_os_tcp_accept(l) },
                &accepted::INFORMATION,
                accepted::net_any_to_accepted,
            );
            check(a.is_some() != n!().failed, "a failure is an error, and nothing else is");
            check(!n!().open[0], "a socket is closed when it is not used any more");
            match a {
                Some(a) => {
                    names_peer(&a.0.address);
                    a.0.stream.clone()
                }
                None => {
                    cover(2);
                    check(live() == before, "what was allocated is freed");
                    return;
                }
            }
        } else {
            of_stream(unsafe { _pen_os_tcp_connect("1.2.3.4:5".into()) }).unwrap()
        };
        n!().failing = pick(2) == 1;
        n!().interruptions = 1;
        for _ in 0..2 {
            n!().failed = false;
            let left = n!().interruptions;
            if pick(2) == 1 {
                let (limit, start) = (crate::files::wide(pick(N + 2), N + 1), n!().position);
                match of_string(unsafe { _pen_os_tcp_receive(s.clone(), (limit as f64).into()) }) {
                    Some(r) => {
                        check(!n!().failed, "a failure is an error");
                        check(r.as_slice().len() <= limit, "no more than the limit is received");
                        check(same(r.as_slice(), &n!().incoming[start..n!().position]), "what was sent is received in order");
                        check(!r.as_slice().is_empty() || limit == 0 || start == n!().length, "something is received");
                    }
                    None => check(n!().failed || n!().interruptions < left, "an error is of a failure"),
                }
            } else {
                let (t, start) = (Text::<N>::new(), n!().taken);
                match of_number(unsafe { _pen_os_tcp_send(s.clone(), t.string()) }) {
                    Some(k) => {
                        check(!n!().failed, "a failure is an error");
                        check(k == (n!().taken - start) as f64, "the number is of the bytes sent");
                        check(same(&n!().sent[start..n!().taken], &t.bytes()[..n!().taken - start]), "what was given is sent");
                        check(k > 0.0 || t.bytes().is_empty(), "something is sent");
                    }
                    None => check(n!().failed || n!().interruptions < left, "an error is of a failure"),
                }
            }
        }
        cover(1);
    }
    all_closed();
    check(live() == before, "what was allocated is freed");
}

pub fn packet<const N: usize>() {
    let before = live();
    {
        n!().kind = DATAGRAM;
        incoming::<N>();
        peer();
        let s = of_socket(unsafe { _pen_os_udp_bind("0.0.0.0:1".into()) }).unwrap();
        n!().interruptions = 1;
        n!().failing = pick(2) == 1;
        match pick(5) {
            0 => {
                let good = of_none(unsafe { _pen_os_udp_connect(s.clone(), "1.2.3.4:5".into()) });
                check(good != n!().failed, "a failure is an error, and nothing else is");
                let a = &n!().used[1];
                check(n!().count == 2 && a.ip == [1, 2, 3, 4] && a.port == [0, 5], "the peer is the one given");
            }
            1 => match of_string(unsafe { _pen_os_udp_receive(s.clone()) }) {
                Some(r) => {
                    check(!n!().failed, "a failure is an error");
                    check(same(r.as_slice(), &n!().incoming[..n!().length]), "all of a datagram is received");
                    cover(1);
                }
                None => check(n!().failed || n!().interruptions == 0, "an error is of a failure"),
            },
            2 => {
                let r = unsafe { _pen_os_udp_receive_from(s.clone()) };
                match result(r, &datagram::INFORMATION, datagram::net_any_to_datagram) {
                    Some(r) => {
                        check(!n!().failed, "a failure is an error");
                        check(same(r.0.data.as_slice(), &n!().incoming[..n!().length]), "all of a datagram is received");
                        names_peer(&r.0.address);
                        cover(2);
                    }
                    None => check(n!().failed || n!().interruptions == 0, "an error is of a failure"),
                }
            }
            way => {
                let t = Text::<N>::new();
                // a large one ends with the text
                let mut b = if pick(2) == 1 { vec![b'.'; LARGE - N] } else { vec![] };
                b.extend_from_slice(t.bytes());
                let r = unsafe {
                    if way == 3 {
                        _pen_os_udp_send(s.clone(), b.as_slice().into())
                    } else {
                        _pen_os_udp_send_to(s.clone(), b.as_slice().into(), "1.2.3.4:5".into())
                    }
                };
                match of_number(r) {
                    Some(k) => {
                        check(!n!().failed, "a failure is an error");
                        check(k == b.len() as f64, "the number is of the bytes sent");
                        check(n!().sends == 1, "a datagram is sent as one");
                        check(same(&n!().sent[..n!().taken], &b), "all of a datagram is sent");
                        let a = &n!().target;
                        check(way == 3 || a.ip == [1, 2, 3, 4] && a.port == [0, 5], "the receiver is the one given");
                        cover(3);
                    }
                    None => check(n!().failed || n!().interruptions == 0, "an error is of a failure"),
                }
            }
        }
    }
    all_closed();
    check(live() == before, "what was allocated is freed");
}

#[allow(unused)]
fn unused() {
    let _ = &string::INFORMATION;
}
