//! One misuse each; the name after `//~` lists the error codes of the rule that has to refuse it.
use crate::env::*;
use crate::env::{C, G, I, K, L, S};
use combine::parser::{byte, char, choice::*, combinator::*, error::*, function::*, range, repeat::*, sequence::*, token::*};
use combine::stream::{buf_reader::{BufReader, Bufferless}, buffered, decoder::Decoder, easy, position, read, span, state::Stream as StateStream, IteratorStream, PartialStream, PointerOffset, SliceStream};
use combine::error::{Commit, ParseResult, StringStreamError};
use combine::{Parser, Stream};
use std::{boxed::Box, string::String, vec::Vec};

/// a parser that is not Send (and not Sync)
pub struct N(L);
impl Parser<I> for N {
    type Output = G;
    type PartialState = G;
    fn parse_first(&mut self, _: &mut I, _: &mut G) -> ParseResult<G, StringStreamError> { loop {} }
    fn parse_partial(&mut self, _: &mut I, _: &mut G) -> ParseResult<G, StringStreamError> { loop {} }
}
#[cfg(rejected = "state_holds_unsendable")] //~ E0277
pub fn state_holds_unsendable() { let p = any_send_partial_state(C::<G, L>::new()); p_is::<_>(&p); }
#[cfg(rejected = "state_holds_unshareable")] //~ E0277
pub fn state_holds_unshareable() { let p = any_send_sync_partial_state(C::<G, S>::new()); p_is::<_>(&p); }
#[cfg(rejected = "state_send_is_not_sync")] //~ E0277
pub fn state_send_is_not_sync() { sync_state(&any_send_partial_state(k())); }
#[cfg(rejected = "state_any_is_not_send")] //~ E0277
pub fn state_any_is_not_send() { send_state(&any_partial_state(k())); }
#[cfg(rejected = "state_any_is_not_sync")] //~ E0277
pub fn state_any_is_not_sync() { sync_state(&any_partial_state(k())); }
fn p_is<P: Parser<I>>(_: &P) {}

#[cfg(rejected = "many_send")] //~ E0277
pub fn many_send(n: N) { send_v(&many::<Vec<G>, I, _>(n)); }
#[cfg(rejected = "tuple_send")] //~ E0277
pub fn tuple_send(n: N) { send_v(&(k(), n, k())); }
#[cfg(rejected = "tuple_state_send")] //~ E0277
pub fn tuple_state_send() { send_state(&(k(), C::<G, L>::new())); }
#[cfg(rejected = "tuple_value_send")] //~ E0277
pub fn tuple_value_send() { send_state(&(C::<L, G>::new(), k())); }
#[cfg(rejected = "choice_state_send")] //~ E0277
pub fn choice_state_send() { send_state(&choice((k(), C::<G, L>::new(), k()))); }
#[cfg(rejected = "many_value_send")] //~ E0277
pub fn many_value_send() { send_state(&many::<Vec<L>, I, _>(C::<L, G>::new())); }
#[cfg(rejected = "then_state_send")] //~ E0277
pub fn then_state_send() { send_state(&k().then(|_| C::<G, L>::new())); }
#[cfg(rejected = "sequence_state_sync")] //~ E0277
pub fn sequence_state_sync() { sync_state(&between(k(), k(), C::<G, S>::new())); }
#[cfg(rejected = "stream_state_send")] //~ E0277
pub fn stream_state_send() { send::<StateStream<I, L>>(); }
#[cfg(rejected = "read_stream_send")] //~ E0277
pub fn read_stream_send() { send::<read::Stream<Box<dyn std::io::Read>>>(); }
#[cfg(rejected = "errors_send")] //~ E0277
pub fn errors_send() { send::<easy::Errors<L, G, G>>(); }
#[cfg(rejected = "decoder_state_send")] //~ E0277
pub fn decoder_state_send() { send::<Decoder<L, usize>>(); }
#[cfg(rejected = "decoder_state_sync")] //~ E0277
pub fn decoder_state_sync() { sync::<Decoder<S, usize>>(); }
#[cfg(rejected = "buf_reader_send")] //~ E0277
pub fn buf_reader_send() { send::<BufReader<L>>(); }
#[cfg(rejected = "buf_reader_sync")] //~ E0277
pub fn buf_reader_sync() { sync::<BufReader<S>>(); }
#[cfg(rejected = "buf_reader_unpin")] //~ E0277
pub fn buf_reader_unpin() { fn u<T: Unpin>() {} u::<BufReader<core::marker::PhantomPinned>>(); }
#[cfg(rejected = "slice_of_unsendable")] //~ E0277
pub fn slice_of_unsendable() { send::<SliceStream<'static, L>>(); }

#[cfg(rejected = "text_outlives_input")] //~ E0597 E0515 E0505 E0716
pub fn text_outlives_input() -> &'static str { let s = String::new(); range::take(1).parse(&s[..]).unwrap().0 }
#[cfg(rejected = "rest_outlives_input")] //~ E0597 E0515 E0505 E0716
pub fn rest_outlives_input() -> &'static str { let s = String::new(); char::spaces().parse(&s[..]).unwrap().1 }
#[cfg(rejected = "recognized_outlives_input")] //~ E0597 E0515 E0505 E0716
pub fn recognized_outlives_input() -> &'static [u8] { let s = Vec::<u8>::new(); range::recognize(skip_many1(byte::digit())).parse(&s[..]).unwrap().0 }
#[cfg(rejected = "element_outlives_slice")] //~ E0597 E0515 E0505 E0716
pub fn element_outlives_slice() -> &'static G { let s = Vec::<G>::new(); any().parse(SliceStream(&s[..])).unwrap().0 }
#[cfg(rejected = "take_while_outlives_input")] //~ E0597 E0515 E0505 E0716
pub fn take_while_outlives_input() -> &'static str { let s = String::new(); range::take_while(|c: char| c == ' ').parse(position::Stream::new(&s[..])).unwrap().0 }
#[cfg(rejected = "error_outlives_input")] //~ E0597 E0515 E0505 E0716
pub fn error_outlives_input() -> easy::ParseError<&'static str> { let s = String::new(); range::take(1).easy_parse_(&s[..]) }
trait Ep<'a>: Parser<easy::Stream<&'a str>> + Sized { fn easy_parse_(mut self, s: &'a str) -> easy::ParseError<&'a str> { use combine::EasyParser; self.easy_parse(s).err().unwrap() } }
impl<'a, P: Parser<easy::Stream<&'a str>>> Ep<'a> for P {}
#[cfg(rejected = "buffer_changes_while_used")] //~ E0502 E0499 E0505
pub fn buffer_changes_while_used(mut r: BufReader<&'static [u8]>) -> usize { let b = r.buffer(); let x = r.get_mut(); b.len() + x.len() }
#[cfg(rejected = "input_changes_while_parsed")] //~ E0506 E0502 E0499 E0505
pub fn input_changes_while_parsed(mut s: String) -> usize { let x = range::take(1).parse(&s[..]).unwrap().0; s.clear(); x.len() }

#[cfg(rejected = "reader_cannot_go_back")] //~ E0277 E0599
pub fn reader_cannot_go_back(r: &[u8]) { let _ = byte::digit().parse(position::Stream::new(read::Stream::new(r))); }
#[cfg(rejected = "iterator_cannot_go_back")] //~ E0277 E0599
pub fn iterator_cannot_go_back(r: Box<dyn Iterator<Item = char>>) { let _ = char::digit().parse(position::Stream::<_, position::SourcePosition>::with_positioner(IteratorStream::new(r), Default::default())); }
#[cfg(rejected = "buffered_needs_position")] //~ E0277 E0599
pub fn buffered_needs_position(r: &'static [u8]) { let _ = byte::digit().parse(buffered::Stream::new(read::Stream::new(r), 1)); }
#[cfg(rejected = "buffered_has_no_ranges")] //~ E0277 E0599
pub fn buffered_has_no_ranges(s: I) { let _ = range::take(1).parse(buffered::Stream::new(position::Stream::new(s), 1)); }
#[cfg(rejected = "wrong_token")] //~ E0271 E0277
pub fn wrong_token(s: &[u8]) { let _ = char::digit().parse(s); }
#[cfg(rejected = "wrong_output")] //~ E0271 E0277
pub fn wrong_output(s: I) { let _ = choice((any().map(|_: char| 1u8), any().map(|_: char| 1u16))).parse(s); }
