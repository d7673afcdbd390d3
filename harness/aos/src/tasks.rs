//! What tasks do at the same time, and commands.
use crate::calls::*;
use crate::common::{same, Text};
use crate::files::{opened, READ};
use crate::system::w;
use crate::values::{of_none, of_number, of_string};
use ffi::{ByteString, List, None as PenNone};
use sym::{check, cover, pick};

fn sleep() {
    let n = [0, 1, 2, 500, 999, 1000, 1001, 1999, 2000, 65535, 86_400_000, 5_000_000_000][pick(12)];
    let _: PenNone = unsafe { _pen_os_sleep((n as f64).into()) };
    check(unsafe { tokio::time::SLEPT } == n * 1_000_000, "as long as asked for");
    cover(1);
}

/// Tasks that read a file or the input.
fn shared(input: bool) {
    w!().content[..2].copy_from_slice(b"xy");
    w!().length = 2;
    unsafe { tokio::WAITS = 2 };
    unsafe { tokio::task::SWITCHES = 2 };
    let file = if input { None } else { Some(opened(READ)) };
    unsafe { tokio::WAITS = 2 };
    let tasks = [0; 2].map(|_| {
        let file = file.clone();
        tokio::spawn(async move {
            let r = match file {
                Some(f) => later::_pen_os_read_file(f).await,
                None => later::_pen_os_read_stdin().await,
            };
            let r = of_string(r).unwrap();
            let r = r.as_slice();
            check(r.is_empty() || same(r, b"xy"), "all is read as a whole");
            r.len()
        })
    });
    let n = tokio::task::run(async {
        let [a, b] = tasks;
        [a.await.unwrap(), b.await.unwrap()]
    });
    check(n[0] + n[1] == 2, "all is read once");
    cover(if n[0] == 2 { 1 } else { 2 });
}

/// Tasks that write the output.
fn written() {
    unsafe { tokio::WAITS = 2 };
    unsafe { tokio::task::SWITCHES = 2 };
    let tasks = [b"ab", b"cd"].map(|t| {
        tokio::spawn(async move {
            let r = later::_pen_os_write_stdout(ByteString::from(&t[..])).await;
            check(of_number(r) == Some(2.0), "all is written");
            check(w!().written[..w!().taken].windows(2).any(|x| x == t), "what is written has arrived as a whole");
        })
    });
    tokio::task::run(async {
        let [a, b] = tasks;
        a.await.unwrap();
        b.await.unwrap();
    });
    check(w!().taken == 4, "all is written once");
    cover(if w!().written[0] == b'a' { 1 } else { 2 });
}

fn command<const N: usize>() {
    let c = Text::<N>::new();
    let n = pick(3);
    let a = [(); 2].map(|_| Text::<N>::new());
    unsafe { tokio::process::FAILING = pick(2) == 1 };
    unsafe { crate::builtin::WAITS = pick(2) };
    let list = List::from(a[..n].iter().map(|x| x.string()).collect::<Vec<_>>());
    let good = of_none(unsafe { _pen_os_run_command(c.string(), list) });
    let texts: Vec<&[u8]> = core::iter::once(c.bytes()).chain(a[..n].iter().map(|x| x.bytes())).collect();
    let valid = texts.iter().all(|x| core::str::from_utf8(x).is_ok() && !x.contains(&0));
    #[allow(static_mut_refs)]
    let run = unsafe { &tokio::process::RUN };
    check(good == (valid && unsafe { !tokio::process::FAILED }), "a failure is an error, and nothing else is");
    if good {
        cover(1);
        check(run.len() == 1, "a command is run once");
        check(run[0].len() == texts.len(), "a command gets all of its arguments");
        for (x, y) in run[0].iter().zip(texts) {
            check(same(x, y), "a command gets its arguments in order");
        }
    } else {
        cover(2);
        check(run.is_empty(), "nothing else is run");
    }
}

sym::entries! {
    fn t_o05_shared() { shared(false) }
    fn t_o07_shared() { shared(true) }
    fn t_o07_written() { written() }
    fn t_o07_sleep() { sleep() }
    fn t_o07_command() { command::<2>() }
}
