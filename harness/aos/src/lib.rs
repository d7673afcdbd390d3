//! packages/os: the same functions as those of os-sync, asynchronously, and concurrency.
extern crate ffi as pen_ffi;

// the package's own modules, at the root as there
#[path = "/repo/packages/os/ffi/library/src/argument.rs"]
mod argument;
#[path = "/repo/packages/os/ffi/library/src/directory.rs"]
mod directory;
#[path = "/repo/packages/os/ffi/library/src/environment_variable.rs"]
mod environment_variable;
#[path = "/repo/packages/os/ffi/library/src/error.rs"]
mod error;
#[path = "/repo/packages/os/ffi/library/src/file.rs"]
mod file;
#[path = "/repo/packages/os/ffi/library/src/open_file_options.rs"]
mod open_file_options;
#[path = "/repo/packages/os/ffi/library/src/process.rs"]
mod process;
#[path = "/repo/packages/os/ffi/library/src/stdio.rs"]
mod stdio;
#[path = "/repo/packages/os/ffi/library/src/time.rs"]
mod time;
#[path = "/repo/packages/os/ffi/library/src/tcp.rs"]
mod tcp;
#[path = "/repo/packages/os/ffi/library/src/udp.rs"]
mod udp;
#[path = "/repo/packages/os/ffi/library/src/utilities.rs"]
mod utilities;

#[path = "/repo/packages/os/ffi/application/src/concurrency.rs"]
mod concurrency;

#[path = "../../ffi/src/builtin.rs"]
#[macro_use]
mod builtin;
#[path = "../../pack/src/common.rs"]
mod common;
mod calls;
mod concurrent;
mod entries;
mod tasks;
#[path = "../../os/src/files.rs"]
mod files;
#[path = "../../os/src/net.rs"]
mod net;
#[path = "../../os/src/paths.rs"]
mod paths;
#[path = "../../os/src/system.rs"]
mod system;
#[path = "../../os/src/values.rs"]
mod values;

/// Whether what is written goes to the system later.
pub const BUFFERED: bool = true;
