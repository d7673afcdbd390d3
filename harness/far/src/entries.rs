use crate::{http::*, patterns::*, sql::*};

sym::entries! {
    fn t_w01_method() { request::<3, 0, 1>(0) }
    fn d_w01_method() { request::<5, 0, 2>(0) }
    fn t_w01_address() { request::<0, 3, 0>(1) }
    fn d_w01_address() { request::<0, 5, 0>(1) }
    fn t_w01_path() { request::<0, 3, 2>(2) }
    fn d_w01_path() { request::<0, 5, 0>(2) }
    fn t_w01_headers() { headers::<2, 2>() }
    fn d_w01_headers() { headers::<3, 3>() }
    fn t_w01_response() { response_::<3>(1) }
    fn d_w01_response() { response_::<5>(2) }
    fn t_w02_address() { address::<4>() }
    fn d_w02_address() { address::<5>() }
    fn t_w02_request() { exchange::<3>(0) }
    fn d_w02_request() { exchange::<6>(0) }
    fn t_w02_name() { exchange::<0>(1) }
    fn t_w02_response() { exchange::<3>(2) }
    fn t_w02_headers() { exchange::<0>(3) }
    fn t_w02_many() { many(2, 2, 1, 3) }
    fn d_w02_many() { many(3, 2, 1, 4) }
    fn t_w03_create() { create::<4>() }
    fn d_w03_create() { create::<6>() }
    fn t_w03_text() { arguments::<4, 0>(0, 0) }
    fn d_w03_text() { arguments::<6, 0>(0, 0) }
    fn t_w03_arguments() { arguments::<0, 2>(1, 2) }
    fn d_w03_arguments() { arguments::<0, 3>(1, 3) }
    fn t_w03_row() { rows(1, 2) }
    fn t_w03_rows() { rows(2, 1) }
    fn d_w03_rows() { rows(2, 2) }
    fn t_w03_context() { context(2, 4) }
    fn t_w04_pattern() { pattern::<4>() }
    fn d_w04_pattern() { pattern::<6>() }
    fn t_w04_groups() { groups::<4>(2) }
    fn d_w04_groups() { groups::<5>(3) }
    fn t_w05_number() { random() }
}
