//! Type-level witnesses: nothing in here is ever run. With `uses` everything has to type-check;
//! every function in `rejected`, enabled one at a time, has to be rejected by the type checker.
#![no_std]
#![allow(dead_code, unused_imports, unexpected_cfgs, clippy::all)]
#[cfg(feature = "std")]
extern crate std;
#[cfg(feature = "uses")]
pub mod env;
#[cfg(feature = "uses")]
pub mod uses;
#[cfg(rejected)]
pub mod rejected;
/// what is there without any feature
pub mod core_only {
    use combine::parser::{byte, char, choice, combinator, error, function, range, repeat, sequence, token};
    use combine::stream::{self, position, span, state, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, SliceStream};
    use combine::{Parser, ParseResult, Stream, StreamOnce};
    pub fn text(s: &str) -> Result<(&str, &str), combine::error::StringStreamError> { range::take_while1(|c: char| c.is_alphabetic()).parse(s) }
    pub fn bytes(s: &[u8]) -> Result<(u16, &[u8]), combine::error::UnexpectedParse> { byte::num::be_u16().parse(s) }
    pub fn tokens(s: &str) -> bool {
        repeat::skip_many(char::digit().or(char::letter()).skip(char::spaces())).with(token::eof()).parse(position::Stream::new(s)).is_ok()
    }
}
#[cfg(feature = "alloc")]
pub mod with_alloc {
    use combine::{Parser, Stream};
    pub fn boxed<'a, I: Stream + 'a>(p: impl Parser<I, Output = (), PartialState = ()> + 'a) -> impl Parser<I, Output = ()> + 'a { p.boxed() }
}
#[cfg(feature = "std")]
pub mod with_std {
    use combine::{EasyParser, Parser, parser::char, stream::{decoder::Decoder, read, buffered, position}};
    pub fn easy(s: &str) -> bool { char::digit().easy_parse(s).is_ok() }
    pub fn new() -> Decoder<(), usize> { Decoder::new() }
}
#[cfg(feature = "uses")]
pub mod with_regex {
    use combine::{parser::regex, Parser};
    pub fn find<'a>(r: &regex_::Regex, s: &'a str) -> Option<&'a str> { regex::find(r).parse(s).ok().map(|x| x.0) }
    use ::regex as regex_;
}
