use combine::error::{ParseResult, UnexpectedParse, StringStreamError};
use combine::Parser;
use core::marker::PhantomData;
pub type I = &'static str;
/// Send and Sync, Clone and Copy
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G(u8);
/// neither Send nor Sync
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct L(PhantomData<*const u8>);
/// Send but not Sync
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct S(core::cell::Cell<u8>);
/// a parser with output O and partial state P
pub struct C<O, P>(PhantomData<fn() -> (O, P)>);
impl<O, P> Clone for C<O, P> { fn clone(&self) -> Self { *self } }
impl<O, P> Copy for C<O, P> {}
impl<O, P> C<O, P> { pub fn new() -> Self { C(PhantomData) } }
impl<O, P: Default> Parser<I> for C<O, P> {
    type Output = O;
    type PartialState = P;
    fn parse_first(&mut self, _: &mut I, _: &mut P) -> ParseResult<O, StringStreamError> { loop {} }
    fn parse_partial(&mut self, _: &mut I, _: &mut P) -> ParseResult<O, StringStreamError> { loop {} }
}
/// one of any stream
#[derive(Clone, Copy)]
pub struct A;
impl<N: combine::Stream> Parser<N> for A {
    type Output = G;
    type PartialState = G;
    fn parse_first(&mut self, _: &mut N, _: &mut G) -> ParseResult<G, N::Error> { loop {} }
    fn parse_partial(&mut self, _: &mut N, _: &mut G) -> ParseResult<G, N::Error> { loop {} }
}
pub type K = C<G, G>;
pub fn k() -> K { C::new() }
pub fn send<T: Send>() {}
pub fn sync<T: Sync>() {}
pub fn clone<T: Clone>() {}
pub fn copy<T: Copy>() {}
pub fn send_v<T: Send>(_: &T) {}
pub fn sync_v<T: Sync>(_: &T) {}
pub fn clone_v<T: Clone>(_: &T) {}
pub fn copy_v<T: Copy>(_: &T) {}
/// the partial state too
pub fn state<P: Parser<I>>(_: &P) where P::PartialState: Send + Sync + 'static {}
pub fn send_state<P: Parser<I>>(_: &P) where P::PartialState: Send {}
pub fn sync_state<P: Parser<I>>(_: &P) where P::PartialState: Sync {}
pub fn dynamic<P: Parser<I>>(p: &mut P) { let _: &mut dyn Parser<I, Output = P::Output, PartialState = P::PartialState> = p; }
