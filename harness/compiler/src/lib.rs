mod declarations;
mod kinds;
mod program;
mod programs;
mod relations;
mod run;

use declarations::*;
use programs::*;
use relations::*;

sym::entries! {
    fn t_t01_plain() { relations(0, false) }
    fn t_t01_union() { relations(1, false) }
    fn d_t01_union() { relations(1, true) }
    fn t_t01_nested() { relations(2, false) }
    fn d_t01_nested() { relations(2, true) }
    fn t_t01_form_plain() { forms(0, false) }
    fn t_t01_form_union() { forms(1, false) }
    fn t_t01_form_nested() { forms(2, false) }
    fn t_t01_difference_plain() { differences(0, false) }
    fn t_t01_difference_union() { differences(1, false) }
    fn t_t01_difference_nested() { differences(2, false) }
    fn t_t02_id_plain() { identities(0, false) }
    fn t_t02_id_union() { identities(1, false) }
    fn t_t02_id_nested() { identities(2, false) }
    fn t_t02_comparable() { comparable(false) }
    fn d_t02_comparable() { comparable(true) }
    fn t_t04_branches() { branch() }
    fn t_t04_kinds() { kinds(false) }
    fn d_t04_kinds() { kinds(true) }
    fn t_t04_if_list() { lists() }
    fn t_t04_if_map() { maps() }
    fn t_t04_calls() { calls() }
    fn t_t04_closures() { closures() }
    fn t_t04_lets() { lets() }
    fn t_t04_lists() { elements() }
    fn t_t04_comprehension() { comprehensions(0) }
    fn t_t04_side_by_side() { comprehensions(1) }
    fn t_t04_one_after_another() { comprehensions(2) }
    fn t_t04_maps() { entries() }
    fn t_t04_operations() { operations() }
    fn t_t04_errors() { tries() }
    fn t_t04_records() { records() }
    fn t_t04_built_in() { built_in() }
    fn t_t03_types() { declared(false) }
    fn d_t03_types() { declared(true) }
    fn t_t03_records() { infinite(false) }
    fn d_t03_records() { infinite(true) }
    fn t_t03_unions() { possible() }
    fn t_t03_names() { named() }
    fn t_t03_visible() { visible() }
    fn t_t05_branches() { running(|| branch()) }
    fn t_t05_kinds() { running(|| kinds(false)) }
    fn t_t05_if_list() { running(|| lists()) }
    fn t_t05_if_map() { running(|| maps()) }
    fn t_t05_calls() { running(|| calls()) }
    fn t_t05_closures() { running(|| closures()) }
    fn t_t05_lets() { running(|| lets()) }
    fn t_t05_lists() { running(|| elements()) }
    fn t_t05_comprehension() { running(|| comprehensions(0)) }
    fn t_t05_side_by_side() { running(|| comprehensions(1)) }
    fn t_t05_one_after_another() { running(|| comprehensions(2)) }
    fn t_t05_maps() { running(|| entries()) }
    fn t_t05_operations() { running(|| operations()) }
    fn t_t05_errors() { running(|| tries()) }
    fn t_t05_records() { running(|| records()) }
    fn t_t05_built_in() { running(|| built_in()) }
}
