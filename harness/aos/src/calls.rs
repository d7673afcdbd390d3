//! The package's functions, as compiled code calls them.
use crate::files::Options;
use crate::net::{Listener, Socket, Stream};
use crate::values::File;
use ffi::extra::Result;
use ffi::{ByteString, List, None as PenNone, Number};

macro_rules! calls {
    ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        /// As a task calls them.
        pub mod later {
            use super::*;
            $(pub async fn $n($($a: $t),*) -> $r {
                ffi::import!($n, async fn($($a: $t),*) -> $r);
                $n($($a),*).await
            })*
        }
        $(pub unsafe fn $n($($a: $t),*) -> $r {
            tokio::WAITS = WAITS;
            tokio::task::run(later::$n($($a),*))
        })*
    };
}

/// How often each of the calls may wait.
pub const WAITS: usize = 1;

calls! {
    _pen_os_open_file(path: ByteString, options: Options) -> Result;
    _pen_os_read_file(file: File) -> Result;
    _pen_os_read_limit_file(file: File, limit: Number) -> Result;
    _pen_os_write_file(file: File, bytes: ByteString) -> Result;
    _pen_os_read_stdin() -> Result;
    _pen_os_read_limit_stdin(limit: Number) -> Result;
    _pen_os_write_stdout(bytes: ByteString) -> Result;
    _pen_os_write_stderr(bytes: ByteString) -> Result;
    _pen_os_sleep(milliseconds: Number) -> PenNone;
    _pen_os_exit(code: Number) -> PenNone;
    _pen_os_copy_file(src: ByteString, dest: ByteString) -> Result;
    _pen_os_move_file(src: ByteString, dest: ByteString) -> Result;
    _pen_os_remove_file(path: ByteString) -> Result;
    _pen_os_read_metadata(path: ByteString) -> Result;
    _pen_os_read_directory(path: ByteString) -> Result;
    _pen_os_create_directory(path: ByteString) -> Result;
    _pen_os_remove_directory(path: ByteString) -> Result;
    _pen_os_tcp_bind(address: ByteString) -> Result;
    _pen_os_tcp_connect(address: ByteString) -> Result;
    _pen_os_tcp_accept(listener: Listener) -> Result;
    _pen_os_tcp_receive(socket: Stream, limit: Number) -> Result;
    _pen_os_tcp_send(socket: Stream, data: ByteString) -> Result;
    _pen_os_udp_bind(address: ByteString) -> Result;
    _pen_os_udp_connect(socket: Socket, address: ByteString) -> Result;
    _pen_os_udp_receive(socket: Socket) -> Result;
    _pen_os_udp_receive_from(socket: Socket) -> Result;
    _pen_os_udp_send(socket: Socket, data: ByteString) -> Result;
    _pen_os_udp_send_to(socket: Socket, data: ByteString, address: ByteString) -> Result;
    _pen_os_run_command(command: ByteString, arguments: List) -> Result;
}

extern "C" {
    pub fn _pen_os_get_time() -> Number;
    pub fn _pen_os_get_environment_variable(name: ByteString) -> Result;
}
