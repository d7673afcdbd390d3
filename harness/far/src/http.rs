//! W01 and W02: HTTP.
use crate::builtin::{elements, list, node, pen_ffi_list_create, pen_ffi_list_lazy, pen_ffi_list_prepend, string, Node};
use crate::common::{same, Text};
use crate::values::{of_none, result};
use core::mem::{forget, transmute_copy, ManuallyDrop};
use ffi::cps::{AsyncStack, ContinuationFunction};
use ffi::extra::Result;
use ffi::{Any, Arc, Boolean, ByteString, Closure, List, Number, TypeInformation};
use hyper::{Body, Request, Uri};
use std::pin::Pin;
use sym::{check, cover, live, pick};

/// A map of headers is a list of names and values.
#[repr(C)]
#[derive(Clone)]
pub struct Headers(Arc<Any>);

#[repr(C)]
#[derive(Clone)]
pub struct Response(Arc<ResponseInner>);

#[repr(C)]
struct ResponseInner {
    status: Number,
    headers: Headers,
    body: ByteString,
}

builtin!(response, Response, _pen_http_response_to_any, far_any_is_response, far_any_to_response);

fn text(x: Any) -> ByteString {
    check(core::ptr::eq(x.type_information(), &string::INFORMATION), "a header is a string");
    string::pen_ffi_any_to_string(x)
}

impl Headers {
    fn new(v: Vec<(ByteString, ByteString)>) -> Self {
        let mut l = pen_ffi_list_create();
        for (a, b) in v.into_iter().rev() {
            l = pen_ffi_list_prepend(string::pen_ffi_string_to_any(b), l);
            l = pen_ffi_list_prepend(string::pen_ffi_string_to_any(a), l);
        }
        Self(Arc::new(list::pen_ffi_list_to_any(l)))
    }

    fn entries(&self) -> Vec<(ByteString, ByteString)> {
        let l = list::pen_ffi_any_to_list((*self.0).clone());
        let mut v = elements(&l).into_iter();
        let mut r = vec![];
        while let Some(a) = v.next() {
            r.push((text(a), text(v.next().unwrap())));
        }
        r
    }
}

#[no_mangle]
extern "C" fn _pen_http_header_map_create() -> Headers {
    Headers::new(vec![])
}

#[no_mangle]
extern "C" fn _pen_http_header_map_get(map: Headers, key: ByteString) -> ByteString {
    for (a, b) in map.entries() {
        if same(a.as_slice(), key.as_slice()) {
            return b;
        }
    }
    ByteString::default()
}

#[no_mangle]
extern "C" fn _pen_http_header_map_set(map: Headers, key: ByteString, value: ByteString) -> Headers {
    let mut v = map.entries();
    v.retain(|(a, _)| !same(a.as_slice(), key.as_slice()));
    v.push((key, value));
    Headers::new(v)
}

#[no_mangle]
extern "C" fn _pen_http_header_map_keys(map: Headers) -> List {
    let mut l = pen_ffi_list_create();
    for (a, _) in map.entries().into_iter().rev() {
        l = pen_ffi_list_prepend(string::pen_ffi_string_to_any(a), l);
    }
    l
}

/// Names of headers.
fn name(b: &[u8]) -> bool {
    hyper::header::HeaderName::from_bytes(b).is_ok()
}

/// Names of methods.
fn method(b: &[u8]) -> bool {
    hyper::Method::from_bytes(b).is_ok()
}

/// Values of headers.
fn value(b: &[u8]) -> bool {
    b.iter().all(|c| *c == b'\t' || *c >= 32 && *c != 127)
}

/// Headers of a message, in any order.
fn agree(map: &hyper::HeaderMap, given: &[(ByteString, ByteString)]) -> bool {
    map.len() == given.len()
        && given.iter().all(|(a, b)| {
            map.iter()
                .any(|(x, y)| x.as_str().as_bytes() == a.as_slice().to_ascii_lowercase() && y.as_bytes() == b.as_slice())
        })
}

fn send(method: ByteString, uri: ByteString, headers: Headers, body: ByteString, waits: usize) -> Option<Response> {
    ffi::import!(
        _pen_http_client_send,
        async fn(method: ByteString, uri: ByteString, headers: Headers, body: ByteString) -> Result
    );
    unsafe { tokio::WAITS = waits };
    let r = tokio::task::run(async { _pen_http_client_send(method, uri, headers, body).await });
    result(r, &response::INFORMATION, response::far_any_to_response)
}

#[allow(static_mut_refs)]
fn sent() -> &'static mut Vec<Request<Body>> {
    unsafe { &mut hyper::client::SENT }
}

fn answer(r: Option<hyper::Response<Body>>) {
    unsafe { hyper::client::RESPONSE = r }
}

fn end(before: u64) {
    *sent() = vec![];
    answer(None);
    let s = hyper::server::state();
    s.responses = vec![];
    s.requests = vec![];
    unsafe { GOT = vec![] };
    tokio::task::finish();
    check(live() == before, "what was allocated is freed");
}

/// Any method, address and body.
pub fn request<const M: usize, const U: usize, const B: usize>(way: usize) {
    let before = live();
    {
        let (mut m, mut u) = (b"GET".to_vec(), b"http://h/".to_vec());
        let b = Text::<B>::new();
        match way {
            0 => m = Text::<M>::new().bytes().to_vec(),
            1 => u = Text::<U>::new().bytes().to_vec(),
            _ => u.extend_from_slice(Text::<U>::new().bytes()),
        }
        answer(Some(hyper::Response::new(Body::empty())));
        let r = send(m.as_slice().into(), u.as_slice().into(), Headers::new(vec![]), b.string(), 1);
        let uri = Uri::try_from(u.as_slice());
        match (sent().as_slice(), uri) {
            ([], Err(_)) => {
                cover(1);
                check(r.is_none(), "what cannot be sent is an error");
            }
            ([], Ok(uri)) => {
                cover(1);
                check(r.is_none(), "what cannot be sent is an error");
                check(!method(&m) || uri.scheme().is_none() || uri.authority().is_none(), "what can be sent is sent");
            }
            ([x], Ok(uri)) => {
                cover(2);
                check(r.is_some(), "an answer is given");
                check(method(&m), "a method is one");
                check(same(x.method().as_str().as_bytes(), &m), "the method is the one given");
                check(*x.uri() == uri, "the address is the one given");
                let plain = u.iter().all(|c| c.is_ascii_alphanumeric() || b":/?=&%.".contains(c));
                check(way != 2 || !plain || same(x.uri().to_string().as_bytes(), &u), "the address is written as given");
                check(x.headers().is_empty(), "no headers are added");
                check(same(&x.body().bytes(), b.bytes()), "the body is the one given");
            }
            _ => sym::fail("a request is sent once"),
        }
    }
    end(before);
}

/// Any headers of requests.
pub fn headers<const K: usize, const V: usize>() {
    let before = live();
    {
        let mut v = vec![];
        let n = pick(3);
        if n > 0 {
            v.push((Text::<K>::new().string(), Text::<V>::new().string()));
        }
        if n > 1 {
            v.push(("Xy".into(), Text::<1>::new().string()));
            sym::assume(!v[0].0.as_slice().eq_ignore_ascii_case(b"Xy"));
        }
        answer(Some(hyper::Response::new(Body::empty())));
        unsafe { crate::builtin::WAITS = pick(2) };
        let r = send("PUT".into(), "http://h/p".into(), Headers::new(v.clone()), "b".into(), 0);
        let good = v.iter().all(|(a, b)| name(a.as_slice()) && value(b.as_slice()));
        check(r.is_some() == good, "headers that cannot be sent are errors, and no others");
        check(sent().len() == good as usize, "a request is sent once, or not at all");
        if good {
            cover(1);
            check(agree(sent()[0].headers(), &v), "the headers are those given");
            check(same(&sent()[0].body().bytes(), b"b"), "the body is the one given");
        } else {
            cover(2);
        }
    }
    end(before);
}

/// Any parts of a body.
fn parts<const N: usize>() -> (Vec<Vec<u8>>, Vec<u8>) {
    let t = Text::<N>::new();
    let k = pick(t.bytes().len() + 1);
    let mut v = vec![];
    if pick(2) == 1 {
        v.push(vec![]);
    }
    v.push(t.bytes()[..k].to_vec());
    v.push(t.bytes()[k..].to_vec());
    (v, t.bytes().to_vec())
}

/// Headers as they are received, with different names.
fn received(map: &mut hyper::HeaderMap) -> Vec<(ByteString, ByteString)> {
    let mut v: Vec<(ByteString, ByteString)> = vec![];
    for name in ["host", "x-y"] {
        let t = Text::<1>::new();
        if pick(2) == 1 {
            sym::assume(value(t.bytes()));
            map.insert(name, hyper::header::HeaderValue::from_bytes(t.bytes()).unwrap());
            let mut last = t.string();
            // of values of the same name, the last one counts
            if name == "x-y" && pick(2) == 1 {
                let t = Text::<1>::new();
                sym::assume(value(t.bytes()));
                map.append(name, hyper::header::HeaderValue::from_bytes(t.bytes()).unwrap());
                last = t.string();
            }
            v.push((name.into(), last));
        }
    }
    v
}

fn equal(headers: &Headers, given: &[(ByteString, ByteString)]) -> bool {
    let e = headers.entries();
    e.len() == given.len()
        && given
            .iter()
            .all(|(a, b)| e.iter().any(|(x, y)| x.as_slice() == a.as_slice() && same(y.as_slice(), b.as_slice())))
}

/// Any response.
pub fn response_<const N: usize>(waits: usize) {
    let before = live();
    {
        let status = sym::u16();
        sym::assume((100..1000).contains(&status));
        let broken = pick(2) == 1;
        let (p, body) = parts::<N>();
        let mut x = hyper::Response::new(Body::of(p, broken));
        *x.status_mut() = hyper::StatusCode::from_u16(status).unwrap();
        let v = received(x.headers_mut());
        let lost = pick(2) == 1;
        answer(if lost { None } else { Some(x) });
        let r = send("GET".into(), "http://h/".into(), Headers::new(vec![]), "".into(), waits);
        check(sent().len() == 1, "a request is sent once");
        match r {
            Some(r) => {
                cover(1);
                check(!lost && !broken, "a failure is an error");
                check(f64::from(r.0.status) == status as f64, "the status is the one received");
                check(equal(&r.0.headers, &v), "the headers are those received");
                check(same(r.0.body.as_slice(), &body), "the body is the one received");
            }
            None => {
                cover(2);
                check(lost || broken, "an error is of a failure");
            }
        }
    }
    end(before);
}

/// What callbacks were called with.
static mut GOT: Vec<(ByteString, ByteString, Headers, ByteString)> = vec![];

#[allow(static_mut_refs)]
fn got() -> &'static mut Vec<(ByteString, ByteString, Headers, ByteString)> {
    unsafe { &mut GOT }
}

/// A callback: what it answers, or what it was asked if nothing.
struct Callback {
    response: Option<Response>,
    waits: usize,
}

struct Left(usize, Response);

impl Future for Left {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<()> {
        sym::fail("not polled")
    }
}

use std::future::Future;

extern "C" fn callback(
    stack: &mut AsyncStack<Response>,
    k: ContinuationFunction<Response, Response>,
    closure: Closure<Callback>,
    method: ByteString,
    uri: ByteString,
    headers: Headers,
    body: ByteString,
) {
    let c = unsafe { &*closure.payload() };
    let r = c.response.clone().unwrap_or_else(|| {
        Response(Arc::new(ResponseInner {
            status: Number::new(200.0),
            headers: Headers::new(vec![]),
            body: body.clone(),
        }))
    });
    let waits = if c.waits > 0 { pick(c.waits + 1) } else { 0 };
    drop(closure);
    got().push((method, uri, headers, body));
    go(stack, k, waits, r)
}

fn go(stack: &mut AsyncStack<Response>, k: ContinuationFunction<Response, Response>, n: usize, r: Response) {
    if n > 0 {
        stack.context().unwrap().waker().wake_by_ref();
        stack.suspend(resume, k, Left(n - 1, r)).unwrap();
    } else {
        k(stack, r)
    }
}

fn resume(stack: &mut AsyncStack<Response>, k: ContinuationFunction<Response, Response>) {
    let Left(n, r) = stack.restore().unwrap();
    go(stack, k, n, r)
}

fn serve(address: ByteString, callback_: Callback, waits: usize) -> bool {
    ffi::import!(_pen_http_server_serve, async fn(address: ByteString, callback: Closure) -> Result);
    unsafe { tokio::WAITS = waits };
    let c = Closure::new(callback as *const u8, callback_).into_opaque();
    of_none(tokio::task::run(async { _pen_http_server_serve(address, c).await }))
}

/// Any address.
pub fn address<const N: usize>() {
    let before = live();
    {
        let s = hyper::server::state();
        s.unbound = pick(2) == 1;
        s.broken = pick(2) == 1;
        let t = Text::<N>::new();
        let d: [u8; 4] = sym::bytes();
        sym::assume(d.iter().all(|c| c.is_ascii_digit()) && d[1] != b'0' && d[2] != b'0');
        let number = |x: &[u8]| x.iter().fold(0, |n, c| n * 10 + (*c - b'0') as u16);
        let good = pick(2) == 1;
        let a = if good {
            let mut v = b"1.2.".to_vec();
            v.push(d[0]);
            v.push(b'.');
            v.push(d[1]);
            v.push(b':');
            v.extend_from_slice(&d[2..]);
            v
        } else {
            t.bytes().to_vec()
        };
        let r = serve(a.as_slice().into(), Callback { response: None, waits: 0 }, 0);
        if good {
            cover(1);
            let Some(std::net::SocketAddr::V4(x)) = s.address else { sym::fail("the address is bound to") };
            check(x.ip().octets() == [1, 2, d[0] - b'0', d[1] - b'0'], "the address is the one given");
            check(x.port() == number(&d[2..]), "the port is the one given");
            check(r != (s.unbound || s.broken), "a failure is an error, and nothing else is");
        } else {
            cover(2);
            check(!r && s.address.is_none(), "what is no address is an error");
        }
    }
    end(before);
}

/// One request, and any response.
pub fn exchange<const N: usize>(way: usize) {
    let before = live();
    {
        let mut x = Request::new(Body::default());
        let (mut broken, mut body, mut v) = (false, vec![], vec![]);
        let mut m = b"POST".to_vec();
        let mut u = b"/a?b".to_vec();
        let mut status = 200;
        let mut h: Vec<(ByteString, ByteString)> = vec![];
        let mut b: ByteString = "ok".into();
        match way {
            0 => {
                let (p, whole) = parts::<N>();
                body = whole;
                broken = pick(2) == 1;
                *x.body_mut() = Body::of(p, broken);
                v = received(x.headers_mut());
            }
            1 => {
                let t: [u8; 2] = sym::bytes();
                sym::assume(t.iter().all(|c| c.is_ascii_alphanumeric()));
                m = t.to_vec();
                u = match pick(3) {
                    0 => &b"/"[..],
                    1 => b"http://h/",
                    _ => b"h:1",
                }
                .to_vec();
                if u != b"h:1" {
                    u.extend_from_slice(&t);
                    if pick(2) == 1 {
                        u.extend_from_slice(b"?x=y");
                    }
                }
            }
            2 => {
                status = sym::u16();
                b = Text::<N>::new().string();
            }
            _ => {
                h.push((Text::<2>::new().string(), Text::<2>::new().string()));
                if pick(2) == 1 {
                    h.push(("Xy".into(), "z".into()));
                    sym::assume(!h[0].0.as_slice().eq_ignore_ascii_case(b"Xy"));
                }
                unsafe { crate::builtin::WAITS = pick(2) };
            }
        }
        *x.method_mut() = hyper::Method::from_bytes(&m).unwrap();
        *x.uri_mut() = Uri::try_from(u.as_slice()).unwrap();
        let s = hyper::server::state();
        s.requests = vec![vec![x]];
        let response = Response(Arc::new(ResponseInner {
            status: Number::new(status as f64),
            headers: Headers::new(h.clone()),
            body: b.clone(),
        }));
        check(
            serve("1.2.3.4:5".into(), Callback { response: Some(response), waits: 1 }, 1),
            "a server goes on after failures of requests",
        );
        check(s.responses.len() == 1, "a request is answered once");
        let (_, _, r) = s.responses.pop().unwrap();
        if broken {
            cover(2);
            check(got().is_empty() && r.is_none(), "a request that breaks is not answered");
        } else {
            check(got().len() == 1, "a request is handled once");
            let (gm, gu, gh, gb) = got().pop().unwrap();
            check(same(gm.as_slice(), &m), "the method is the one received");
            check(same(gu.as_slice(), &u), "the address is the one received");
            check(equal(&gh, &v), "the headers are those received");
            check(same(gb.as_slice(), &body), "the body is the one received");
            let good = (100..1000).contains(&status) && h.iter().all(|(a, b)| name(a.as_slice()) && value(b.as_slice()));
            check(r.is_some() == good, "a response that cannot be sent is not, and others are");
            if let Some(r) = r {
                cover(1);
                check(r.status().as_u16() == status, "the status is the one given");
                check(agree(r.headers(), &h), "the headers are those given");
                check(same(&r.body().bytes(), b.as_slice()), "the body is the one given");
            } else {
                cover(2);
            }
        }
    }
    end(before);
}

/// Requests at the same time.
pub fn many(connections: usize, requests: usize, waits: usize, switches: usize) {
    let before = live();
    {
        let s = hyper::server::state();
        let v: [u8; 6] = sym::bytes();
        s.requests = (0..connections)
            .map(|i| (0..requests).map(|j| Request::new(Body::of([vec![v[i * requests + j]]], false))).collect())
            .collect();
        unsafe { tokio::task::SWITCHES = switches };
        check(serve("1.2.3.4:5".into(), Callback { response: None, waits }, waits), "a server ends without an error");
        let n = connections * requests;
        check(s.responses.len() == n && got().len() == n, "each request is handled and answered once");
        for (i, j, r) in &s.responses {
            let Some(r) = r else { sym::fail("a request is answered") };
            check(same(&r.body().bytes(), &[v[i * requests + j]]), "a request is answered by its own response");
        }
        cover(1);
    }
    end(before);
}

#[allow(unused)]
fn unused(l: &List) {
    let _ = (node(l), pen_ffi_list_lazy as *const u8);
    let _ = |x: Node| x;
}
