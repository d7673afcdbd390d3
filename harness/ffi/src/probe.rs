//! Payloads that count how often they were made and dropped.
// Plain words on purpose: what drops a value must own it, and the executor reports a race if two threads do.
static mut MADE: usize = 0;
static mut DROPPED: usize = 0;

pub fn made() -> usize {
    unsafe { MADE }
}

pub fn dropped() -> usize {
    unsafe { DROPPED }
}

/// Owns heap memory, so that a second drop or a lost one shows in the heap as well.
pub struct Probe {
    value: Box<u64>,
}

impl Probe {
    pub fn new(value: u64) -> Self {
        unsafe { MADE += 1 };
        Self { value: Box::new(value) }
    }

    pub fn get(&self) -> u64 {
        *self.value
    }

    pub fn set(&mut self, value: u64) {
        *self.value = value;
    }
}

impl Clone for Probe {
    fn clone(&self) -> Self {
        Self::new(self.get())
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        unsafe { DROPPED += 1 };
    }
}
