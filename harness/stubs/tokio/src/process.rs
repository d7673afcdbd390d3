//! Commands are noted down.
use std::ffi::{OsStr, OsString};
use std::io::{Error, Result};
use std::os::unix::ffi::OsStrExt;
pub use std::process::{ExitStatus, Output, Stdio};

/// What was run, with its arguments.
pub static mut RUN: Vec<Vec<Vec<u8>>> = Vec::new();
pub static mut FAILING: bool = false;
pub static mut FAILED: bool = false;

pub struct Command(Vec<OsString>);

impl Command {
    pub fn new(program: impl AsRef<OsStr>) -> Self {
        Self(vec![program.as_ref().into()])
    }

    pub fn arg(&mut self, x: impl AsRef<OsStr>) -> &mut Self {
        self.0.push(x.as_ref().into());
        self
    }

    pub fn args<S: AsRef<OsStr>>(&mut self, xs: impl IntoIterator<Item = S>) -> &mut Self {
        for x in xs {
            self.arg(x);
        }
        self
    }

    pub fn stdin(&mut self, _: impl Into<Stdio>) -> &mut Self {
        self
    }

    pub fn stdout(&mut self, _: impl Into<Stdio>) -> &mut Self {
        self
    }

    pub fn stderr(&mut self, _: impl Into<Stdio>) -> &mut Self {
        self
    }

    pub fn kill_on_drop(&mut self, _: bool) -> &mut Self {
        self
    }

    #[allow(static_mut_refs)]
    pub async fn status(&mut self) -> Result<ExitStatus> {
        crate::pause().await;
        if self.0.iter().any(|x| x.as_bytes().contains(&0)) {
            return Err(Error::from_raw_os_error(22));
        }
        unsafe {
            if FAILING && sym::pick(2) == 1 {
                FAILED = true;
                return Err(Error::from_raw_os_error(2));
            }
            RUN.push(self.0.iter().map(|x| x.as_bytes().to_vec()).collect());
        }
        crate::pause().await;
        Ok(std::os::unix::process::ExitStatusExt::from_raw(if sym::bool() { 256 } else { 0 }))
    }

    pub async fn output(&mut self) -> Result<Output> {
        Ok(Output { status: self.status().await?, stdout: vec![], stderr: vec![] })
    }
}
