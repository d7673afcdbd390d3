//! The package's functions, as compiled code calls them.
use crate::files::Options;
use crate::net::{Listener, Socket, Stream};
use crate::values::File;
use ffi::extra::Result;
use ffi::{ByteString, None as PenNone, Number};

extern "C" {
    pub fn _pen_os_open_file(path: ByteString, options: Options) -> Result;
    pub fn _pen_os_read_file(file: File) -> Result;
    pub fn _pen_os_read_limit_file(file: File, limit: Number) -> Result;
    pub fn _pen_os_write_file(file: File, bytes: ByteString) -> Result;
    pub fn _pen_os_read_stdin() -> Result;
    pub fn _pen_os_read_limit_stdin(limit: Number) -> Result;
    pub fn _pen_os_write_stdout(bytes: ByteString) -> Result;
    pub fn _pen_os_write_stderr(bytes: ByteString) -> Result;
    pub fn _pen_os_get_time() -> Number;
    pub fn _pen_os_sleep(milliseconds: Number) -> PenNone;
    pub fn _pen_os_get_environment_variable(name: ByteString) -> Result;
    pub fn _pen_os_exit(code: Number) -> PenNone;
    pub fn _pen_os_copy_file(src: ByteString, dest: ByteString) -> Result;
    pub fn _pen_os_move_file(src: ByteString, dest: ByteString) -> Result;
    pub fn _pen_os_remove_file(path: ByteString) -> Result;
    pub fn _pen_os_read_metadata(path: ByteString) -> Result;
    pub fn _pen_os_read_directory(path: ByteString) -> Result;
    pub fn _pen_os_create_directory(path: ByteString) -> Result;
    pub fn _pen_os_remove_directory(path: ByteString) -> Result;
    pub fn _pen_os_tcp_bind(address: ByteString) -> Result;
    pub fn _pen_os_tcp_connect(address: ByteString) -> Result;
    pub fn _pen_os_tcp_accept(listener: Listener) -> Result;
    pub fn _pen_os_tcp_receive(socket: Stream, limit: Number) -> Result;
    pub fn _pen_os_tcp_send(socket: Stream, data: ByteString) -> Result;
    pub fn _pen_os_udp_bind(address: ByteString) -> Result;
    pub fn _pen_os_udp_connect(socket: Socket, address: ByteString) -> Result;
    pub fn _pen_os_udp_receive(socket: Socket) -> Result;
    pub fn _pen_os_udp_receive_from(socket: Socket) -> Result;
    pub fn _pen_os_udp_send(socket: Socket, data: ByteString) -> Result;
    pub fn _pen_os_udp_send_to(socket: Socket, data: ByteString, address: ByteString) -> Result;
}
