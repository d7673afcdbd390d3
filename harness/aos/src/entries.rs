use crate::{files::*, net::*, paths::*};

sym::entries! {
    fn t_o07_variable() { variable::<2, 2>() }
    fn d_o07_variable() { variable::<3, 1>() }
    fn t_o05_read() { read::<5>() }
    fn d_o05_read() { read::<8>() }
    fn t_o05_limit() { read_limit::<6>() }
    fn d_o05_limit() { read_limit::<14>() }
    fn t_o05_write() { write::<4>(0) }
    fn d_o05_write() { write::<6>(0) }
    fn t_o05_open() { open() }
    fn t_o07_stdin() { stdin::<4>() }
    fn d_o07_stdin() { stdin::<7>() }
    fn t_o07_stdout() { stdout::<4>() }
    fn d_o07_stdout() { stdout::<5>() }
    fn t_o07_stderr() { write::<4>(1) }
    fn t_o07_time() { time() }
    fn t_o06_one() { one::<4>() }
    fn d_o06_one() { one::<6>() }
    fn t_o06_two() { two::<3>() }
    fn d_o06_two() { two::<4>() }
    fn t_o06_directory() { directory() }
    fn t_o08_listener() { numbers(0) }
    fn t_o08_connection() { numbers(1) }
    fn t_o08_socket() { numbers(2) }
    fn t_o08_names() { names::<4>() }
    fn d_o08_names() { names::<5>() }
    fn t_o08_stream() { stream::<2>() }
    fn d_o08_stream() { stream::<3>() }
    fn t_o08_packet() { packet::<8>() }
}
