use crate::io::{read as fill, AsyncRead, AsyncSeek, AsyncWrite, Later, ReadBuf};
use crate::{pause, wait};
use std::io::{Read, Result, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::task::{ready, Context, Poll};

#[derive(Debug)]
pub struct File(std::fs::File, Later, u64);

impl File {
    pub async fn open(path: impl AsRef<Path>) -> Result<Self> {
        OpenOptions::new().read(true).open(path).await
    }

    pub async fn create(path: impl AsRef<Path>) -> Result<Self> {
        OpenOptions::new().write(true).create(true).truncate(true).open(path).await
    }

    pub fn from_std(file: std::fs::File) -> Self {
        Self(file, Later::default(), 0)
    }

    pub async fn metadata(&self) -> Result<std::fs::Metadata> {
        pause().await;
        self.0.metadata()
    }

    pub async fn sync_all(&self) -> Result<()> {
        pause().await;
        self.0.sync_all()
    }

    pub async fn sync_data(&self) -> Result<()> {
        self.sync_all().await
    }

    pub async fn set_len(&self, n: u64) -> Result<()> {
        pause().await;
        self.0.set_len(n)
    }
}

impl Drop for File {
    fn drop(&mut self) {
        let Self(f, l, _) = self;
        let _ = l.flush(|b| f.write(b));
    }
}

impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        ready!(wait(context));
        let Self(f, l, _) = &mut *self;
        let _ = l.flush(|b| f.write(b));
        fill(b, |p| f.read(p)).into()
    }
}

impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        ready!(wait(context));
        let Self(f, l, _) = &mut *self;
        l.put(b, |b| f.write(b)).into()
    }
    fn poll_flush(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Result<()>> {
        ready!(wait(context));
        let Self(f, l, _) = &mut *self;
        l.flush(|b| f.write(b)).into()
    }
    fn poll_shutdown(self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Result<()>> {
        self.poll_flush(context)
    }
}

impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> Result<()> {
        let Self(f, l, n) = &mut *self;
        l.flush(|b| f.write(b))?;
        *n = f.seek(to)?;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Result<u64>> {
        ready!(wait(context));
        Ok(self.2).into()
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);

impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(std::fs::OpenOptions::new())
    }
    pub async fn open(&self, path: impl AsRef<Path>) -> Result<File> {
        pause().await;
        self.0.open(path).map(File::from_std)
    }
}

macro_rules! options {
    ($($n:ident)*) => {
        impl OpenOptions {
            $(pub fn $n(&mut self, x: bool) -> &mut Self {
                self.0.$n(x);
                self
            })*
        }
    };
}

options!(append create create_new read truncate write);

impl From<std::fs::OpenOptions> for OpenOptions {
    fn from(x: std::fs::OpenOptions) -> Self {
        Self(x)
    }
}

macro_rules! one {
    ($($n:ident: $t:ty)*) => {
        $(pub async fn $n(path: impl AsRef<Path>) -> Result<$t> {
            pause().await;
            std::fs::$n(path)
        })*
    };
}

one!(remove_file: () create_dir: () remove_dir: () create_dir_all: () remove_dir_all: () read: Vec<u8>
    metadata: std::fs::Metadata symlink_metadata: std::fs::Metadata canonicalize: PathBuf read_to_string: String);

macro_rules! two {
    ($($n:ident: $t:ty)*) => {
        $(pub async fn $n(from: impl AsRef<Path>, to: impl AsRef<Path>) -> Result<$t> {
            pause().await;
            std::fs::$n(from, to)
        })*
    };
}

two!(copy: u64 rename: () hard_link: ());

pub async fn try_exists(path: impl AsRef<Path>) -> Result<bool> {
    pause().await;
    path.as_ref().try_exists()
}

#[derive(Debug)]
pub struct ReadDir(std::fs::ReadDir);

pub type DirEntry = std::fs::DirEntry;

pub async fn read_dir(path: impl AsRef<Path>) -> Result<ReadDir> {
    pause().await;
    std::fs::read_dir(path).map(ReadDir)
}

impl ReadDir {
    pub async fn next_entry(&mut self) -> Result<Option<DirEntry>> {
        pause().await;
        self.0.next().transpose()
    }
}
