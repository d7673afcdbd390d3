pub use real::io::*;
use crate::{again, wait};
use std::io::{Read, Write};
use std::pin::Pin;
use std::task::{ready, Context, Poll};

#[derive(Debug)]
pub struct Stdin(std::io::Stdin);

pub fn stdin() -> Stdin {
    Stdin(std::io::stdin())
}

impl AsyncRead for Stdin {
    fn poll_read(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        ready!(wait(context));
        read(b, |p| self.0.read(p)).into()
    }
}

pub(crate) fn read(b: &mut ReadBuf<'_>, mut f: impl FnMut(&mut [u8]) -> Result<usize>) -> Result<()> {
    let p = b.initialize_unfilled();
    let n = again(|| f(p))?;
    b.advance(n);
    Ok(())
}

/// What is written goes to the system later, and its failures are known when it has.
#[derive(Debug, Default)]
pub(crate) struct Later(Vec<u8>);

impl Later {
    pub(crate) fn put(&mut self, b: &[u8], f: impl FnMut(&[u8]) -> Result<usize>) -> Result<usize> {
        self.flush(f)?;
        self.0.extend_from_slice(b);
        Ok(b.len())
    }

    pub(crate) fn flush(&mut self, mut f: impl FnMut(&[u8]) -> Result<usize>) -> Result<()> {
        let b = std::mem::take(&mut self.0);
        let mut i = 0;
        while i < b.len() {
            i += again(|| f(&b[i..]))?;
        }
        Ok(())
    }
}

macro_rules! output {
    ($t:ident, $f:ident) => {
        #[derive(Debug)]
        pub struct $t(std::io::$t, Later);

        pub fn $f() -> $t {
            $t(std::io::$f(), Later::default())
        }

        impl AsyncWrite for $t {
            fn poll_write(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
                ready!(wait(context));
                let Self(s, l) = &mut *self;
                l.put(b, |b| s.write(b)).into()
            }
            fn poll_flush(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Result<()>> {
                ready!(wait(context));
                let Self(s, l) = &mut *self;
                l.flush(|b| s.write(b))?;
                again(|| s.flush()).into()
            }
            fn poll_shutdown(self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Result<()>> {
                self.poll_flush(context)
            }
        }
    };
}

output!(Stdout, stdout);
output!(Stderr, stderr);
