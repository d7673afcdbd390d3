use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use crate::{pause, wait};
use std::io::{Read, Result, Write};
use std::net::SocketAddr;
pub use std::net::ToSocketAddrs;
use std::pin::Pin;
use std::task::{ready, Context, Poll};

pub async fn lookup_host(host: impl ToSocketAddrs) -> Result<impl Iterator<Item = SocketAddr>> {
    pause().await;
    host.to_socket_addrs()
}

#[derive(Debug)]
pub struct TcpListener(std::net::TcpListener);

impl TcpListener {
    pub async fn bind(address: impl ToSocketAddrs) -> Result<Self> {
        pause().await;
        std::net::TcpListener::bind(address).map(Self)
    }

    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        pause().await;
        // listening goes on after interruptions
        self.0.accept().map(|(s, a)| (TcpStream(s), a))
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        self.0.local_addr()
    }
}

#[derive(Debug)]
pub struct TcpStream(std::net::TcpStream);

impl TcpStream {
    pub async fn connect(address: impl ToSocketAddrs) -> Result<Self> {
        pause().await;
        std::net::TcpStream::connect(address).map(Self)
    }

    pub fn peer_addr(&self) -> Result<SocketAddr> {
        self.0.peer_addr()
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        self.0.local_addr()
    }

    pub fn set_nodelay(&self, x: bool) -> Result<()> {
        self.0.set_nodelay(x)
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        ready!(wait(context));
        let n = self.0.read(b.initialize_unfilled())?;
        b.advance(n);
        Ok(()).into()
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(mut self: Pin<&mut Self>, context: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        ready!(wait(context));
        self.0.write(b).into()
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Ok(()).into()
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.shutdown(std::net::Shutdown::Write).into()
    }
}

#[derive(Debug)]
pub struct UdpSocket(std::net::UdpSocket);

impl UdpSocket {
    pub async fn bind(address: impl ToSocketAddrs) -> Result<Self> {
        pause().await;
        std::net::UdpSocket::bind(address).map(Self)
    }

    pub async fn connect(&self, address: impl ToSocketAddrs) -> Result<()> {
        pause().await;
        self.0.connect(address)
    }

    pub async fn send(&self, b: &[u8]) -> Result<usize> {
        pause().await;
        self.0.send(b)
    }

    pub async fn recv(&self, b: &mut [u8]) -> Result<usize> {
        pause().await;
        self.0.recv(b)
    }

    pub async fn peek(&self, b: &mut [u8]) -> Result<usize> {
        pause().await;
        self.0.peek(b)
    }

    pub async fn send_to(&self, b: &[u8], address: impl ToSocketAddrs) -> Result<usize> {
        pause().await;
        self.0.send_to(b, address)
    }

    pub async fn recv_from(&self, b: &mut [u8]) -> Result<(usize, SocketAddr)> {
        pause().await;
        self.0.recv_from(b)
    }

    pub async fn peek_from(&self, b: &mut [u8]) -> Result<(usize, SocketAddr)> {
        pause().await;
        self.0.peek_from(b)
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        self.0.local_addr()
    }

    pub fn peer_addr(&self) -> Result<SocketAddr> {
        self.0.peer_addr()
    }
}
