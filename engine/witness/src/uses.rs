use crate::env::*;
use crate::env::{C, G, I, K, L, S};
use combine::parser::{byte, char, choice::*, combinator::*, error::*, function::*, range, regex, repeat::*, sequence::*, token::*};
use combine::stream::{buffered, easy, position, read, span, state::Stream as StateStream, CompleteStream, IteratorStream, MaybePartialStream, PartialStream, SliceStream};
use combine::stream::{buf_reader::BufReader, decoder::Decoder, PointerOffset};
use combine::error::{Commit, ParseResult, StringStreamError, Tracked, UnexpectedParse};
use combine::{Parser, Stream};
use std::{boxed::Box, string::String, vec::Vec};

fn both(c: char) -> bool { c.is_alphabetic() }

/// parsers made of parts that can be sent and shared can be sent and shared, and so can their states
macro_rules! parsers {
    ($($n:ident = $e:expr;)*) => { $(pub fn $n() {
        let mut p = $e;
        send_v(&p);
        sync_v(&p);
        state(&p);
        dynamic(&mut p);
    })* };
}
/// parsers made of parts that can be copied can be copied
macro_rules! copies {
    ($($n:ident = $e:expr;)*) => { pub mod copies { use super::*; $(pub fn $n() { let p = $e; copy_v(&p); clone_v(&p); })* } };
}
pub mod parsers {
    use super::*;
    parsers! {
        tuple2 = (k(), k());
        tuple3 = (k(), k(), k());
        tuple8 = (k(), k(), k(), k(), k(), k(), k(), k());
        tuple20 = (k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k(), k());
        with_ = k().with(k());
        skip_ = k().skip(k());
        and_ = k().and(k());
        or_ = k().or(k());
        then_ = k().then(|_| k());
        then_partial_ = k().then_partial(|_| k());
        then_ref_ = k().then_ref(|_| k());
        map_ = k().map(|x: G| x);
        map_input_ = k().map_input(|x: G, _: &mut I| x);
        flat_map_ = k().flat_map(|x: G| Ok::<G, StringStreamError>(x));
        and_then_ = k().and_then(|x: G| Ok::<G, StringStreamError>(x));
        message_ = k().message("x");
        expected_ = k().expected("x");
        silent_ = k().silent();
        left_ = k().left::<K>();
        right_ = k().right::<K>();
        between_ = between(k(), k(), k());
        choice2 = choice((k(), k()));
        choice6 = choice((k(), k(), k(), k(), k(), k()));
        choice_arr = choice([k(), k()]);
        optional_ = optional(k());
        many_ = many::<Vec<G>, I, _>(k());
        many1_ = many1::<Vec<G>, I, _>(k());
        count_ = count::<Vec<G>, I, _>(2, k());
        count_min_max_ = count_min_max::<Vec<G>, I, _>(1, 2, k());
        skip_many_ = skip_many(k());
        skip_many1_ = skip_many1(k());
        skip_count_ = skip_count(2, k());
        skip_count_min_max_ = skip_count_min_max(1, 2, k());
        sep_by_ = sep_by::<Vec<G>, I, _, _>(k(), k());
        sep_by1_ = sep_by1::<Vec<G>, I, _, _>(k(), k());
        sep_end_by_ = sep_end_by::<Vec<G>, I, _, _>(k(), k());
        sep_end_by1_ = sep_end_by1::<Vec<G>, I, _, _>(k(), k());
        chainl1_ = chainl1(k(), k().map(|_: G| |a: G, _: G| a));
        chainr1_ = chainr1(k(), k().map(|_: G| |a: G, _: G| a));
        take_until_ = take_until::<String, I, _>(k());
        skip_until_ = skip_until(k());
        repeat_until_ = repeat_until::<Vec<G>, I, _, _>(k(), k());
        repeat_skip_until_ = repeat_skip_until(k(), k());
        escaped_ = escaped(k(), '\\', k());
        iterate_ = iterate::<Vec<G>, _, _, I, _>(0..3u8, |_: &u8, _: &mut I| k());
        recognize_ = recognize::<String, I, _>(k());
        attempt_ = attempt(k());
        look_ahead_ = look_ahead(k());
        not_followed_by_ = not_followed_by(C::<char, G>::new());
        no_partial_ = no_partial(k());
        ignore_ = ignore(k());
        any_send_sync_partial_state_ = any_send_sync_partial_state(k());
        lazy_ = lazy(k);
        factory_ = factory(|_: &mut I| k());
        range_ = range::range("a");
        take_ = range::take(2);
        take_while_ = range::take_while(both);
        take_while1_ = range::take_while1(both);
        take_until_range_ = range::take_until_range("a");
        take_fn_ = range::take_fn(|x: &str| range::TakeRange::Found(x.len()));
        range_recognize_ = range::recognize(k());
        recognize_with_value_ = range::recognize_with_value(k());
        any_ = any::<I>();
        satisfy_ = satisfy::<I, _>(both);
        satisfy_map_ = satisfy_map::<I, _, _>(|c: char| Some(c));
        token_ = token::<I>('a');
        tokens_ = tokens::<_, _, _, I>(|l: char, r| l == r, "x", "abc".chars());
        tokens_cmp_ = tokens_cmp::<_, _, I>("abc".chars(), |l, r| l == r);
        one_of_ = one_of::<_, I>("abc".chars());
        none_of_ = none_of::<_, I>("abc".chars());
        position_ = combine::parser::token::position::<I>();
        value_ = value::<I, _>(5u8);
        produce_ = produce::<I, _, _>(|| 5u8);
        eof_ = eof::<I>();
        unexpected_ = unexpected::<I, _>("x");
        fn_parser_ = parser(|_: &mut I| -> combine::StdParseResult<u8, I> { loop {} });
        char_ = char::char::<I>('a');
        digit_ = char::digit::<I>();
    }
}
copies! {
    tuple2 = (k(), k());
    choice2 = choice((k(), k()));
    optional_ = optional::<I, _>(k());
    attempt_ = attempt::<I, _>(k());
    look_ahead_ = look_ahead::<I, _>(k());
    not_followed_by_ = not_followed_by::<I, _>(C::<char, G>::new());
    any_ = any::<I>();
    satisfy_ = satisfy::<I, _>(both);
    token_ = token::<I>('a');
    map_ = map::<I, _, _, _>(k(), |x: G| x);
}
/// states that say that they can be sent or shared
pub fn erased() {
    send_state(&any_send_partial_state(C::<G, S>::new()));
    state(&any_send_sync_partial_state(k()));
    let mut b: Box<dyn Parser<I, Output = G, PartialState = combine::parser::combinator::AnySendSyncPartialState> + Send + Sync> = Box::new(any_send_sync_partial_state(k()));
    send_v(&b);
    sync_v(&b);
    dynamic(&mut b);
}
/// an opaque! parser has no parser inside
pub fn opaque_() {
    let p = combine::opaque!(k());
    let p: combine::parser::combinator::Opaque<_, I, G, G> = p;
    send_v(&p);
    sync_v(&p);
    copy_v(&p);
    state(&p);
}
combine::parser! {
    pub fn macro_parser[N]()(N) -> G where [N: Stream] { any::<N>().map(|_| G::default()) }
}
combine::parser! {
    type PartialState = combine::parser::combinator::AnySendSyncPartialState;
    pub fn macro_state[N]()(N) -> G where [N: Stream] { any_send_sync_partial_state(any::<N>().map(|_| G::default())) }
}
pub fn macros() {
    send_v(&macro_parser::<I>());
    sync_v(&macro_parser::<I>());
    state(&macro_parser::<I>());
    send_v(&macro_state::<I>());
    state(&macro_state::<I>());
}
use combine::stream::span::Stream as SpanStream;
pub fn streams() {
    macro_rules! all { ($($t:ty),* $(,)?) => { $(send::<$t>(); sync::<$t>(); clone::<$t>();)* } }
    all!(PartialStream<I>, CompleteStream<I>, MaybePartialStream<I>, SliceStream<'static, G>, IteratorStream<std::vec::IntoIter<G>>, easy::Stream<I>,
         position::Stream<I, position::SourcePosition>, position::Stream<&'static [u8], position::IndexPositioner>, StateStream<I, G>, SpanStream<I, StringStreamError>,
         span::Span<G>, PointerOffset<[u8]>, position::SourcePosition);
    type Bf = buffered::Stream<position::Stream<I, position::SourcePosition>>;
    send::<Bf>();
    sync::<Bf>();
    macro_rules! copies { ($($t:ty),* $(,)?) => { $(copy::<$t>();)* } }
    copies!(PartialStream<I>, CompleteStream<I>, MaybePartialStream<I>, SliceStream<'static, G>, easy::Stream<I>, span::Span<G>, position::SourcePosition, SpanStream<I, StringStreamError>);
    send::<read::Stream<&'static [u8]>>();
    sync::<read::Stream<&'static [u8]>>();
}
pub fn errors() {
    macro_rules! all { ($($t:ty),* $(,)?) => { $(send::<$t>(); sync::<$t>();)* } }
    all!(easy::Errors<char, &'static str, usize>, easy::Error<u8, &'static [u8]>, easy::Info<u8, &'static [u8]>, easy::ParseError<I>, UnexpectedParse, StringStreamError,
         Tracked<easy::Errors<char, &'static str, usize>>, Commit<G>, ParseResult<G, StringStreamError>, read::Error, buffered_errors::E);
    fn error<E: std::error::Error + Send + Sync + 'static>() {}
    error::<easy::Errors<char, &'static str, usize>>();
    error::<UnexpectedParse>();
    error::<StringStreamError>();
    error::<combine::stream::decoder::Error<StringStreamError, usize>>();
    copy::<UnexpectedParse>();
    copy::<StringStreamError>();
}
mod buffered_errors { pub type E = combine::stream::easy::Errors<u8, u8, usize>; }
pub fn decoders() {
    send::<Decoder<G, usize>>();
    sync::<Decoder<G, usize>>();
    send::<Decoder<S, PointerOffset<[u8]>, combine::stream::buf_reader::Bufferless>>();
    send::<BufReader<S>>();
    sync::<BufReader<G>>();
}
/// the futures of the asynchronous decoders can be sent to another thread
pub mod futures {
    use super::*;
    use core::pin::Pin;
    use core::task::{Context, Poll};
    pub struct Rd(S);
    impl tokio_02_dep::io::AsyncRead for Rd { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> { loop {} } }
    impl tokio_03_dep::io::AsyncRead for Rd { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio_03_dep::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> { loop {} } }
    impl tokio_dep::io::AsyncRead for Rd { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio_dep::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> { loop {} } }
    impl futures_io_03::AsyncRead for Rd { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> { loop {} } }
    pub type D = Decoder<(), PointerOffset<[u8]>>;
    fn p<'a, N: combine::RangeStream<Token = u8, Range = &'a [u8]>>() -> impl Parser<N, Output = u8, PartialState = ()> { no_partial(any()) }
    macro_rules! one { ($n:ident $l:ident $m:ident) => {
        pub fn $n(mut d: D, mut r: Rd) { send_v(&async move { let x = combine::$m!(d, r, p(), |i, _p| combine::easy::Stream::from(i)); x.is_ok() }); }
        pub fn $l(mut d: Decoder<(), PointerOffset<[u8]>, combine::stream::buf_reader::Bufferless>, mut r: BufReader<Rd>) { send_v(&async move { let x = combine::$m!(d, r, p(), |i, _p| combine::easy::Stream::from(i)); x.is_ok() }); }
    } }
    one!(tokio02 tokio02_l decode_tokio_02);
    one!(tokio03 tokio03_l decode_tokio_03);
    one!(tokio1 tokio1_l decode_tokio);
    one!(fut fut_l decode_futures_03);
}
