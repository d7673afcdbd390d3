mod literals;
mod names;

use literals::*;
use names::*;

sym::entries! {
    fn t_n01_string() { string(3) }
    fn d_n01_string() { string(4) }
    fn t_n01_binary() { whole(1, 5) }
    fn t_n01_hexadecimal() { whole(4, 3) }
    fn t_n01_long() { long() }
    fn t_n01_decimal() { decimal() }
    fn t_n02_call() { scope(0) }
    fn t_n02_let() { scope(1) }
    fn t_n02_list() { scope(2) }
    fn t_n02_map() { scope(3) }
    fn t_n02_kind() { scope(4) }
    fn t_n02_comprehension() { scope(5) }
    fn t_n02_branches() { scope(6) }
    fn t_n02_types() { kinds() }
    fn t_n02_imports() { imports() }
}
