//! A stand-in for rand: its distributions are the real ones, and what they are drawn from is anything.
pub use real::*;
use real::distr::uniform::{SampleRange, SampleUniform};
use real::distr::{Distribution, StandardUniform};
use std::convert::Infallible;

/// How many words were drawn, and the last of them.
pub static mut DRAWN: usize = 0;
pub static mut LAST: u64 = 0;

#[derive(Clone, Debug, Default)]
pub struct Anything(());

impl real::rand_core::TryRng for Anything {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        self.try_next_u64().map(|x| x as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        let x = sym::u64();
        unsafe {
            DRAWN += 1;
            LAST = x;
        }
        Ok(x)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Infallible> {
        for x in b.chunks_mut(8) {
            x.copy_from_slice(&self.try_next_u64()?.to_le_bytes()[..x.len()]);
        }
        Ok(())
    }
}

pub fn rng() -> Anything {
    Anything(())
}

pub fn random<T>() -> T
where
    StandardUniform: Distribution<T>,
{
    rng().random()
}

pub fn random_range<T: SampleUniform, R: SampleRange<T>>(range: R) -> T {
    rng().random_range(range)
}
