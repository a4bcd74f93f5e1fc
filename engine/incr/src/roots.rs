//! Entry points of the analysis of incremental input.
use crate::env::*;
use crate::opq;
use combine::stream::buf_reader::{BufReader, Bufferless, Buffer};
use combine::stream::decoder::{self, Decoder};
use combine::stream::MaybePartialStream;
use std::future::Future;
use std::io;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

type Db = Decoder<St, Pos, Buffer>;
type Dl = Decoder<St, Pos, Bufferless>;

/// polls the future until it is done; nothing may be lost by a pending poll
fn run<F: Future>(mut f: F) -> F::Output {
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        match unsafe { Pin::new_unchecked(&mut f) }.poll(&mut cx) {
            Poll::Ready(x) => return x,
            Poll::Pending => opq::inc::pending(),
        }
    }
}

// ------------------------------------------------------------------------ readers
impl tokio_02_dep::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { opq::inc::aread(unsafe { self.get_unchecked_mut() }, b) }
    fn poll_read_buf<B: bytes_05::BufMut>(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut B) -> Poll<io::Result<usize>> {
        if buf.remaining_mut() == 0 { return Poll::Ready(Ok(0)); }
        let b = unsafe { &mut *(buf.bytes_mut() as *mut [MaybeUninit<u8>] as *mut [u8]) };
        match opq::inc::aread_u(unsafe { self.get_unchecked_mut() }, b) {
            Poll::Ready(Ok(n)) => { unsafe { buf.advance_mut(n) }; Poll::Ready(Ok(n)) }
            x => x,
        }
    }
}
impl tokio_03_dep::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio_03_dep::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let b = unsafe { &mut *(buf.unfilled_mut() as *mut [MaybeUninit<u8>] as *mut [u8]) };
        match opq::inc::aread_u(unsafe { self.get_unchecked_mut() }, b) {
            Poll::Ready(Ok(n)) => { unsafe { buf.assume_init(n) }; buf.advance(n); Poll::Ready(Ok(())) }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl tokio_dep::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio_dep::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let b = unsafe { &mut *(buf.unfilled_mut() as *mut [MaybeUninit<u8>] as *mut [u8]) };
        match opq::inc::aread_u(unsafe { self.get_unchecked_mut() }, b) {
            Poll::Ready(Ok(n)) => { unsafe { buf.assume_init(n) }; buf.advance(n); Poll::Ready(Ok(())) }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl futures_io_03::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { opq::inc::aread(unsafe { self.get_unchecked_mut() }, b) }
}

/// decode functions
pub mod fun {
    use super::*;
    pub fn decode() { let mut z: Z = opq::new(0); let mut s: St = opq::new(1); let r = combine::stream::decode(opq::new::<Ps>(2), &mut z, &mut s); opq::done(r, (z, s)) }
    pub fn decode_tokio() { let mut z: Z = opq::new(0); let mut s: St = opq::new(1); let r = combine::stream::decode_tokio(opq::new::<Ps>(2), &mut z, &mut s); opq::done(r, (z, s)) }
}

macro_rules! decoders {
    ($m: ident, $run: ident, $mac: ident) => {
        pub mod $m {
            use super::*;
            pub fn buffer() {
                let mut d: Db = opq::new(0);
                let mut rd: Rd = opq::new(1);
                let r = $run!(combine::$mac!(d, rd, opq::new::<Ps>(2), |i, p| opq::inc::mkz(i, p), |z| opq::inc::post(z)));
                opq::done(r, d)
            }
            pub fn bufferless() {
                let mut d: Dl = opq::new(0);
                let mut rd: BufReader<Rd> = opq::new(1);
                let r = $run!(combine::$mac!(d, rd, opq::new::<Ps>(2), |i, p| opq::inc::mkz(i, p), |z| opq::inc::post(z)));
                opq::done(r, d)
            }
            /// without the step after parsing
            pub fn form4() {
                let mut d: Db = opq::new(0);
                let mut rd: Rd = opq::new(1);
                let r = $run!(combine::$mac!(d, rd, opq::new::<Ps>(2), |i, p| opq::inc::mkz(i, p)));
                opq::done(r, d)
            }
            /// without a stream adapter
            pub fn form3() {
                let mut d: Decoder<St, combine::stream::PointerOffset<[u8]>, Buffer> = opq::new(0);
                let mut rd: Rd = opq::new(1);
                let r = $run!(combine::$mac!(d, rd, crate::roots::pm(),));
                opq::done(r, d)
            }
        }
    };
}
macro_rules! sync { ($e: expr) => { $e } }
macro_rules! wait { ($e: expr) => { run(async { $e }) } }
decoders!(sync, sync, decode);
decoders!(tokio02, wait, decode_tokio_02);
decoders!(tokio03, wait, decode_tokio_03);
decoders!(tokio1, wait, decode_tokio);
decoders!(fut, wait, decode_futures_03);

/// a parser of the stream the macros build themselves
pub struct Pm(usize);
pub fn pm() -> Pm { opq::new(2) }
impl<'a> combine::Parser<MaybePartialStream<&'a [u8]>> for Pm {
    type Output = U;
    type PartialState = St;
    fn parse_with_state(&mut self, z: &mut MaybePartialStream<&'a [u8]>, s: &mut St) -> Result<U, combine::error::UnexpectedParse> { opq::inc::prm(self, z, s) }
}

// ------------------------------------------------------------------------ the buffered reader on its own
type Br = BufReader<Rd>;
fn br() -> Br { opq::new(1) }
fn once<T>(f: impl FnOnce(&mut Context<'_>) -> T) -> T { f(&mut Context::from_waker(Waker::noop())) }

pub mod br {
    use super::*;
    use std::io::{BufRead, Read};
    pub fn fill_buf() { let mut r = br(); let x = r.fill_buf(); opq::done(x, ()) }
    pub fn consume() { let mut r = br(); r.consume(opq::inc::num()); opq::done((), ()) }
    pub fn read() { let mut r = br(); let x = r.read(opq::inc::dst()); opq::done(x, ()) }
    pub fn buffer() { let r = br(); opq::done(r.buffer(), ()) }
    pub fn new() { opq::done(BufReader::new(opq::new::<Rd>(1)), ()) }
    pub fn with_capacity() { opq::done(BufReader::with_capacity(opq::inc::num(), opq::new::<Rd>(1)), ()) }
    pub fn into_inner() { opq::done(br().into_inner(), ()) }
    pub fn get_ref() { let r = br(); opq::done(r.get_ref(), ()) }
    pub fn get_mut() { let mut r = br(); opq::done(r.get_mut(), ()) }
}
macro_rules! abr {
    ($m: ident, $t: ident, $buf: ty, $mk: expr) => {
        pub mod $m {
            use super::*;
            use super::$t::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
            pub fn fill_buf() { let mut r = br(); let x = once(|cx| Pin::new(&mut r).poll_fill_buf(cx)); opq::done(x, ()) }
            pub fn consume() { let mut r = br(); Pin::new(&mut r).consume(opq::inc::num()); opq::done((), ()) }
            pub fn read() { let mut r = br(); let mut b = $mk(opq::inc::dst()); let x = once(|cx| Pin::new(&mut r).poll_read(cx, &mut b)); opq::done(x, b) }
            pub fn write() { let mut r = br(); let x = once(|cx| Pin::new(&mut r).poll_write(cx, opq::inc::dst())); opq::done(x, ()) }
            pub fn flush() { let mut r = br(); let x = once(|cx| Pin::new(&mut r).poll_flush(cx)); opq::done(x, ()) }
            pub fn shutdown() { let mut r = br(); let x = once(|cx| Pin::new(&mut r).poll_shutdown(cx)); opq::done(x, ()) }
        }
        impl self::$t::io::AsyncWrite for Rd {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { opq::inc::awrite(unsafe { self.get_unchecked_mut() }, b) }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { opq::inc::aflush(unsafe { self.get_unchecked_mut() }) }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { opq::inc::ashut(unsafe { self.get_unchecked_mut() }) }
        }
    };
}
/// one read into the buffer
pub mod fpoll {
    use super::*;
    use combine::stream::buf_reader::{Bufferless, CombineAsyncRead};
    pub fn bufferless() { let mut r = br(); let x = once(|cx| Bufferless.poll_extend_buf(cx, Pin::new(&mut r))); opq::done(x, ()) }
}
mod b02 { pub mod io { pub use tokio_02_dep::io::{AsyncBufRead, AsyncRead, AsyncWrite}; pub struct ReadBuf; } }
mod b03 { pub mod io { pub use tokio_03_dep::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf}; } }
mod b1 { pub mod io { pub use tokio_dep::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf}; } }
use self::{b02 as t02, b03 as t03, b1 as t1};
abr!(br02, t02, &mut [u8], |b: &'static mut [u8]| b);
abr!(br03, t03, ReadBuf, |b: &'static mut [u8]| ReadBuf::new(b));
abr!(br1, t1, ReadBuf, |b: &'static mut [u8]| ReadBuf::new(b));
