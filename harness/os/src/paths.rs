//! O02: paths of files and directories.
use crate::builtin::{elements, string};
use crate::common::{same, Text};
use crate::calls::*;
use crate::files::{options, READ};
use crate::system::{w, Call};
use crate::values::{of_file, of_list, of_metadata, of_none};
use sym::{check, cover, pick};

/// Whether a path can be given to the system.
fn valid(b: &[u8]) -> bool {
    core::str::from_utf8(b).is_ok() && !b.contains(&0)
}

pub fn one<const N: usize>() {
    let t = Text::<N>::new();
    w!().failing = pick(2) == 1;
    w!().size = sym::u64();
    let (call, good) = unsafe {
        match pick(6) {
            0 => (Call::Unlink, of_none(_pen_os_remove_file(t.string()))),
            1 => (Call::Mkdir, of_none(_pen_os_create_directory(t.string()))),
            2 => (Call::Rmdir, of_none(_pen_os_remove_directory(t.string()))),
            3 => {
                let m = of_metadata(_pen_os_read_metadata(t.string()));
                if let Some(m) = &m {
                    check(m.size() == w!().size as f64, "the size is the file's");
                }
                (Call::Stat, m.is_some())
            }
            4 => (Call::OpenDirectory, of_list(_pen_os_read_directory(t.string())).is_some()),
            _ => (Call::Open, of_file(_pen_os_open_file(t.string(), options(READ))).is_some()),
        }
    };
    if valid(t.bytes()) {
        cover(1);
        check(w!().count >= 1 && w!().calls[0] == Some(call), "the system is asked for what was asked for");
        check(same(w!().paths[0].bytes(), t.bytes()), "the path is the one given");
        check(good != w!().failed, "a failure is an error, and nothing else is");
        let end = match call {
            Call::OpenDirectory => Some(Call::CloseDirectory),
            Call::Open => Some(Call::Close),
            _ => None,
        };
        let opened = end.is_some() && w!().calls[1].is_some();
        check(w!().count == 1 + opened as usize, "nothing else is asked for");
        check(!opened || w!().calls[1] == end, "what is opened is closed");
        check(opened || end.is_none() || !good, "what is opened is closed");
    } else {
        cover(2);
        check(!good && w!().count == 0, "what is no path is an error and nothing is done");
    }
}

pub fn two<const N: usize>() {
    let (a, b) = (Text::<N>::new(), Text::<N>::new());
    w!().failing = pick(2) == 1;
    let copies = pick(2) == 1;
    w!().length = pick(3);
    w!().content[..2].copy_from_slice(&sym::bytes::<2>());
    w!().size = 2;
    w!().hints = true;
    let good = of_none(unsafe {
        if copies {
            _pen_os_copy_file(a.string(), b.string())
        } else {
            _pen_os_move_file(a.string(), b.string())
        }
    });
    if valid(a.bytes()) && valid(b.bytes()) {
        cover(1);
        check(w!().count > 0, "the system is asked for what was asked for");
        check(same(w!().paths[0].bytes(), a.bytes()), "the first path is the one given first");
        check(good != w!().failed, "a failure is an error, and nothing else is");
        if good {
            check(same(w!().paths[1].bytes(), b.bytes()), "the second path is the one given second");
            if copies {
                check(w!().opens == 2 && w!().flags[0] & 3 == 0 && w!().flags[1] & 3 == 1, "a file is read and another written");
                check(same(&w!().written[..w!().taken], &w!().content[..w!().length]), "all of a file is copied");
            } else {
                check(w!().calls[..w!().count] == [Some(Call::Rename)], "a file is moved");
            }
        }
    } else {
        cover(2);
        check(!good && w!().taken == 0 && !w!().calls.contains(&Some(Call::Rename)), "what is no path is an error");
    }
}

pub fn directory() {
    w!().entries = pick(3);
    for k in 0..w!().entries {
        let n: [u8; 2] = sym::bytes();
        sym::assume(n[0] != 0 && n[0] != b'/' && n[1] != b'/');
        w!().names[k] = [n[0], n[1], 0, 0];
    }
    w!().failing = false;
    let r = of_list(unsafe { _pen_os_read_directory("d".into()) });
    let names: Vec<&[u8]> = w!().names[..w!().entries]
        .iter()
        .map(|n| &n[..n.iter().position(|c| *c == 0).unwrap()])
        .filter(|n| *n != b"." && *n != b"..")
        .collect();
    if names.iter().all(|n| valid(n)) {
        cover(1);
        check(r.is_some(), "a directory is read");
        let v = elements(&r.unwrap());
        check(v.len() == names.len(), "all names are listed");
        for (x, n) in v.into_iter().zip(names) {
            check(core::ptr::eq(x.type_information(), &string::INFORMATION), "names are strings");
            check(same(string::pen_ffi_any_to_string(x).as_slice(), n), "names are those in the directory");
        }
    } else {
        cover(2);
        check(r.is_none(), "a name that is no string is an error");
    }
    check(
        w!().calls[..w!().count] == [Some(Call::OpenDirectory), Some(Call::CloseDirectory)],
        "a directory is closed once",
    );
}
