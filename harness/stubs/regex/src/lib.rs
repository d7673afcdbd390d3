//! A stand-in for regex: an expression is anything, and finds anything in a string.
use std::fmt;
use std::ops::Range;

/// What was given and what is answered.
pub struct State {
    pub pattern: Option<String>,
    pub wrong: bool,
    pub string: Option<String>,
    pub searches: usize,
    /// what the groups are, or none if there is no match
    pub groups: Option<Vec<Option<Range<usize>>>>,
    pub expressions: usize,
}

pub static mut STATE: State =
    State { pattern: None, wrong: false, string: None, searches: 0, groups: None, expressions: 0 };

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

#[derive(Clone, Debug)]
pub enum Error {
    Syntax(String),
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("regex parse error")
    }
}

impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Regex(());

impl Clone for Regex {
    fn clone(&self) -> Self {
        state().expressions += 1;
        Self(())
    }
}

impl Drop for Regex {
    fn drop(&mut self) {
        state().expressions -= 1;
    }
}

fn search(string: &str) {
    let s = state();
    s.searches += 1;
    s.string = Some(string.into());
}

impl Regex {
    pub fn new(pattern: &str) -> Result<Self, Error> {
        let s = state();
        sym::check(s.pattern.is_none(), "an expression is made once");
        s.pattern = Some(pattern.into());
        if s.wrong {
            return Err(Error::Syntax("wrong".into()));
        }
        s.expressions += 1;
        Ok(Self(()))
    }

    pub fn is_match(&self, string: &str) -> bool {
        search(string);
        state().groups.is_some()
    }

    pub fn find<'a>(&self, string: &'a str) -> Option<Match<'a>> {
        self.captures(string)?.get(0)
    }

    pub fn captures<'a>(&self, string: &'a str) -> Option<Captures<'a>> {
        search(string);
        Some(Captures { string, groups: state().groups.clone()? })
    }

    pub fn captures_len(&self) -> usize {
        state().groups.as_ref().map_or(1, |x| x.len())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Match<'a> {
    string: &'a str,
    start: usize,
    end: usize,
}

impl<'a> Match<'a> {
    pub fn as_str(&self) -> &'a str {
        &self.string[self.start..self.end]
    }
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn range(&self) -> Range<usize> {
        self.start..self.end
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn is_empty(&self) -> bool {
        self.end == self.start
    }
}

#[derive(Clone, Debug)]
pub struct Captures<'a> {
    string: &'a str,
    groups: Vec<Option<Range<usize>>>,
}

impl<'a> Captures<'a> {
    pub fn get(&self, k: usize) -> Option<Match<'a>> {
        let r = self.groups.get(k)?.clone()?;
        Some(Match { string: self.string, start: r.start, end: r.end })
    }
    pub fn len(&self) -> usize {
        self.groups.len()
    }
    pub fn iter(&self) -> SubCaptureMatches<'_, 'a> {
        SubCaptureMatches { captures: self, index: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct SubCaptureMatches<'c, 'a> {
    captures: &'c Captures<'a>,
    index: usize,
}

impl<'a> Iterator for SubCaptureMatches<'_, 'a> {
    type Item = Option<Match<'a>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.index == self.captures.len() {
            return None;
        }
        self.index += 1;
        Some(self.captures.get(self.index - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.captures.len() - self.index;
        (n, Some(n))
    }
}

impl ExactSizeIterator for SubCaptureMatches<'_, '_> {}
