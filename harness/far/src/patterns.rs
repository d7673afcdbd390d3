//! W04 and W05: regular expressions and random numbers.
use crate::builtin::{elements, none, string};
use crate::common::{same, Text};
use crate::values::result;
use core::mem::{forget, transmute_copy, ManuallyDrop};
use ffi::extra::Result;
use ffi::{Any, Arc, Boolean, ByteString, List, Number, TypeInformation};
use regex::state;
use sym::{check, cover, live, pick};

#[repr(C)]
#[derive(Clone)]
pub struct Expression(Arc<Any>);

builtin!(expression, Expression, _pen_regex_expression_to_any, far_any_is_expression, far_any_to_expression);

extern "C" {
    fn _pen_regex_expression_new(string: ByteString) -> Result;
    fn _pen_regex_expression_matches(expression: Expression, string: ByteString) -> Boolean;
    fn _pen_regex_expression_match(expression: Expression, string: ByteString) -> List;
    fn _pen_random_number() -> Number;
}

fn new(s: ByteString) -> Option<Expression> {
    let r = unsafe { _pen_regex_expression_new(s) };
    result(r, &expression::INFORMATION, expression::far_any_to_expression)
}

fn valid(b: &[u8]) -> bool {
    core::str::from_utf8(b).is_ok()
}

fn end(before: u64) {
    let s = state();
    check(s.expressions == 0, "expressions are freed");
    s.pattern = None;
    s.string = None;
    s.groups = None;
    check(live() == before, "what was allocated is freed");
}

pub fn pattern<const N: usize>() {
    let before = live();
    {
        let s = state();
        let t = Text::<N>::new();
        s.wrong = pick(2) == 1;
        let r = new(t.string());
        if valid(t.bytes()) {
            cover(1);
            check(s.pattern.as_ref().is_some_and(|x| same(x.as_bytes(), t.bytes())), "the pattern is the one given");
            check(r.is_some() != s.wrong, "a wrong pattern is an error, and no other is");
        } else {
            cover(2);
            check(r.is_none() && s.pattern.is_none(), "what is no text is an error");
        }
        if let Some(r) = r {
            // a copy lives on
            let x = r.clone();
            drop(r);
            check(s.expressions == 1, "an expression is shared");
            drop(x);
        }
    }
    end(before);
}

pub fn groups<const N: usize>(most: usize) {
    let before = live();
    {
        let s = state();
        let x = new("p".into()).unwrap();
        let t = Text::<N>::new();
        let text = core::str::from_utf8(t.bytes());
        if pick(2) == 1 {
            let mut v = vec![];
            for k in 0..1 + pick(most) {
                let (i, j) = (pick(N + 1), pick(N + 1));
                let Ok(text) = text else { break };
                sym::assume(i <= j && text.is_char_boundary(i) && text.is_char_boundary(j));
                // the whole always is
                v.push(if k > 0 && pick(2) == 1 { None } else { Some(i..j) });
            }
            s.groups = Some(v);
        }
        let good = text.is_ok() && s.groups.is_some();
        if pick(2) == 1 {
            let r = bool::from(unsafe { _pen_regex_expression_matches(x.clone(), t.string()) });
            check(r == good, "a string matches if the expression is found in it");
        } else {
            let l = unsafe { _pen_regex_expression_match(x.clone(), t.string()) };
            let v = elements(&l);
            if good {
                cover(1);
                let g = s.groups.as_ref().unwrap();
                check(v.len() == g.len(), "all groups are given");
                for (x, r) in v.into_iter().zip(g) {
                    match r {
                        Some(r) => {
                            check(core::ptr::eq(x.type_information(), &string::INFORMATION), "a group is a string");
                            let x = string::pen_ffi_any_to_string(x);
                            check(same(x.as_slice(), &t.bytes()[r.clone()]), "a group is what it matched");
                        }
                        None => check(
                            core::ptr::eq(x.type_information(), &none::INFORMATION),
                            "a group that did not take part is none",
                        ),
                    }
                }
            } else {
                check(v.is_empty(), "there are no groups without a match");
            }
        }
        check(s.searches == text.is_ok() as usize, "a text is searched once");
        if text.is_ok() {
            check(same(s.string.as_ref().unwrap().as_bytes(), t.bytes()), "what is searched is what was given");
            cover(2);
        }
    }
    end(before);
}

pub fn random() {
    let x = f64::from(unsafe { _pen_random_number() });
    let (n, word) = unsafe { (rand::DRAWN, rand::LAST) };
    check(0.0 <= x && x < 1.0, "a number is at least 0 and less than 1");
    check(n == 1, "a number is drawn anew");
    // the numbers between two stand for as many of the words as between any two as far apart
    check((x * (1u64 << 50) as f64) as u64 == word >> 14, "a number is as likely as any other");
    if x == 0.0 {
        cover(1);
    }
    if x > 0.999 {
        cover(2);
    }
    let _ = unsafe { _pen_random_number() };
    check(unsafe { rand::DRAWN } == 2, "each number is drawn anew");
}
