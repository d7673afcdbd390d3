//! What the entries share.
use ffi::ByteString;
use sym::pick;

/// At most `N` arbitrary bytes.
pub struct Text<const N: usize> {
    data: [u8; N],
    length: usize,
}

impl<const N: usize> Text<N> {
    pub fn new() -> Self {
        Self { data: sym::bytes(), length: pick(N + 1) }
    }

    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.length]
    }

    pub fn string(&self) -> ByteString {
        self.bytes().into()
    }
}

/// Compares without branches on the bytes.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    if d == 0 {
        for i in 0..a.len() {
            d |= (a[i] ^ b[i]) as u64;
        }
    }
    d == 0
}
