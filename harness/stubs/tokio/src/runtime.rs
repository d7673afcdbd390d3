//! A run time that may be entered.
use std::io::Result;
use std::marker::PhantomData;

/// How often the run time is entered now, and the most.
pub static mut ENTERED: usize = 0;

#[derive(Debug)]
pub struct Builder(());

impl Builder {
    pub fn new_multi_thread() -> Self {
        Self(())
    }

    pub fn new_current_thread() -> Self {
        Self(())
    }

    pub fn worker_threads(&mut self, n: usize) -> &mut Self {
        sym::check(n > 0, "a run time has threads");
        self
    }

    pub fn enable_all(&mut self) -> &mut Self {
        self
    }

    pub fn build(&mut self) -> Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
}

#[derive(Debug)]
pub struct Runtime(Handle);

impl Runtime {
    pub fn new() -> Result<Self> {
        Ok(Self(Handle(())))
    }

    pub fn enter(&self) -> EnterGuard<'_> {
        self.0.enter()
    }

    pub fn handle(&self) -> &Handle {
        &self.0
    }
}

#[derive(Clone, Debug)]
pub struct Handle(());

#[derive(Debug)]
pub struct TryCurrentError(());

impl Handle {
    pub fn enter(&self) -> EnterGuard<'_> {
        unsafe { ENTERED += 1 };
        EnterGuard(PhantomData)
    }

    pub fn try_current() -> std::result::Result<Self, TryCurrentError> {
        if unsafe { ENTERED } > 0 {
            Ok(Self(()))
        } else {
            Err(TryCurrentError(()))
        }
    }

    pub fn current() -> Self {
        Self::try_current().expect("there must be a run time")
    }
}

#[derive(Debug)]
pub struct EnterGuard<'a>(PhantomData<&'a Handle>);

impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        unsafe { ENTERED -= 1 };
    }
}
