//! K06: texts in documents of HTML.
use crate::common::{same, Text};
use crate::utf8::characters;
use ffi::ByteString;
use sym::{check, cover, pick};

extern "C" {
    fn _pen_html_encode_text(string: ByteString) -> ByteString;
    fn _pen_html_encode_attribute(string: ByteString) -> ByteString;
}

const ENTITIES: [(&[u8], u8); 8] = [
    (b"&lt;", b'<'),
    (b"&gt;", b'>'),
    (b"&amp;", b'&'),
    (b"&quot;", b'"'),
    (b"&#x27;", b'\''),
    (b"&#39;", b'\''),
    (b"&apos;", b'\''),
    (b"&#34;", b'"'),
];

/// What a reader of the document sees.
fn decode(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'&' {
            match ENTITIES.iter().find(|(e, _)| b[i..].starts_with(e)) {
                Some((e, c)) => {
                    v.push(*c);
                    i += e.len();
                }
                None => {
                    check(false, "every ampersand begins an entity");
                    return v;
                }
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn encode<const N: usize>() {
    let s = Text::<N>::new();
    let attribute = pick(2) == 1;
    let r = if attribute {
        unsafe { _pen_html_encode_attribute(s.string()) }
    } else {
        unsafe { _pen_html_encode_text(s.string()) }
    };
    let b = r.as_slice();
    if characters(s.bytes()).is_none() {
        cover(2);
        check(b.is_empty(), "what is not a text is nothing");
        return;
    }
    for &x in b {
        check(x != b'<' && x != b'>', "no tag begins or ends");
        if attribute {
            check(x != b'"' && x != b'\'', "no attribute ends");
        }
    }
    check(same(&decode(b), s.bytes()), "what is read is what was written");
    cover(1);
}

sym::entries! {
    fn t_k06_encode() { encode::<4>() }
    fn d_k06_encode() { encode::<7>() }
}
