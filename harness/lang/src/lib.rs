//! Entries over the language front end: parser, formatter, documentation generator, positions.
mod reference;
mod source;
mod tree;
mod formatting;
mod parsing;
mod documentation;
mod positions;

use sym::*;

/// Parses with both parsers; the trees when the source is accepted.
pub fn both(s: &str) -> (Option<ast::Module>, Option<tree::N>) {
    (parse::parse(s, "path").ok(), reference::Reader::new(s.as_bytes()).module().ok())
}

pub fn str_of(b: &[u8]) -> &str {
    match core::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            ""
        }
    }
}
