use crate::{files::*, net::*, paths::*};

sym::entries! {
    fn t_o03_variable() { variable::<2, 2>() }
    fn d_o03_variable() { variable::<3, 1>() }
    fn t_o01_read() { read::<5>() }
    fn d_o01_read() { read::<8>() }
    fn t_o01_limit() { read_limit::<6>() }
    fn d_o01_limit() { read_limit::<14>() }
    fn t_o01_write() { write::<6>(0) }
    fn d_o01_write() { write::<14>(0) }
    fn t_o01_shared() { shared() }
    fn d_o01_shared() { shared() }
    fn t_o01_open() { open() }
    fn t_o03_stdin() { stdin::<4>() }
    fn d_o03_stdin() { stdin::<7>() }
    fn t_o03_stdout() { stdout::<4>() }
    fn d_o03_stdout() { stdout::<6>() }
    fn t_o03_stderr() { write::<6>(1) }
    fn t_o03_time() { time() }
    fn t_o03_sleep() { sleep() }
    fn t_o02_one() { one::<4>() }
    fn d_o02_one() { one::<6>() }
    fn t_o02_two() { two::<3>() }
    fn d_o02_two() { two::<4>() }
    fn t_o02_directory() { directory() }
    fn t_o04_listener() { numbers(0) }
    fn t_o04_connection() { numbers(1) }
    fn t_o04_socket() { numbers(2) }
    fn t_o04_names() { names::<4>() }
    fn d_o04_names() { names::<5>() }
    fn t_o04_stream() { stream::<3>() }
    fn d_o04_stream() { stream::<6>() }
    fn t_o04_packet() { packet::<8>() }
}
