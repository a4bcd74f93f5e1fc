use crate::env::*;
use crate::opq;
use combine::easy;
use combine::stream::buffered;
use combine::stream::position;
use combine::stream::span::{self, Span};
use combine::stream::state;
use combine::stream::*;

/// every request of the stream interface, made to an adapter around an arbitrary stream
macro_rules! adapter {
    ($($m:ident = $mk:expr;)*) => { $( pub mod $m {
        use super::*;
        pub fn uncons() { let mut s = $mk; let r = StreamOnce::uncons(&mut s); opq::done(r, s) }
        pub fn is_partial() { let s = $mk; let r = StreamOnce::is_partial(&s); opq::done(r, s) }
        pub fn position() { let s = $mk; let r = Positioned::position(&s); opq::done(r, s) }
        pub fn checkpoint() {
            let mut s = $mk;
            let c = ResetStream::checkpoint(&s);
            let _ = StreamOnce::uncons(&mut s);
            let r = ResetStream::reset(&mut s, c);
            opq::done(r, s)
        }
        pub fn uncons_range() { let mut s = $mk; let r = RangeStreamOnce::uncons_range(&mut s, opq::new(9)); opq::done(r, s) }
        pub fn uncons_while() { let mut s = $mk; let r = RangeStreamOnce::uncons_while(&mut s, |t| opq::upred(t)); opq::done(r, s) }
        pub fn uncons_while1() { let mut s = $mk; let r = RangeStreamOnce::uncons_while1(&mut s, |t| opq::upred(t)); opq::done(r, s) }
        pub fn distance() { let s = $mk; let c = ResetStream::checkpoint(&s); let r = RangeStreamOnce::distance(&s, &c); opq::done(r, s) }
        pub fn range() { let s = $mk; let r = RangeStreamOnce::range(&s); opq::done(r, s) }
    } )* };
}
fn z() -> Z { opq::new(0) }
adapter! {
    a_ref = &mut z();
    a_partial = PartialStream(z());
    a_complete = CompleteStream(z());
    a_maybe_partial = MaybePartialStream(z(), true);
    a_maybe_complete = MaybePartialStream(z(), false);
    a_state = state::Stream { stream: z(), state: opq::new::<U>(2) };
    a_position = position::Stream { input: z(), positioner: opq::new::<Q>(1) };
    a_position_ref = position::Stream { input: z(), positioner: &mut opq::new::<Q>(1) };
    a_easy = easy::Stream(z());
    a_span = span::Stream::<Z, easy::Errors<Tk, Rg, Span<Pos>>>::from(z());
}

/// the operations of the streams over memory: sl_all is the whole input, sl_rest a later part of it, sl_size any size
macro_rules! slices {
    ($($m:ident, $t:ty, $mk:expr, $b:ty;)*) => { $( pub mod $m {
        use super::*;
        fn all() -> $t { $mk(opq::sl_all::<$b>()) }
        fn rest() -> $t { $mk(opq::sl_rest::<$b>()) }
        pub fn uncons() { let mut s = all(); let r = StreamOnce::uncons(&mut s); opq::done(r, s) }
        pub fn is_partial() { let s = all(); let r = StreamOnce::is_partial(&s); opq::done(r, s) }
        pub fn position() { let s = all(); let r = Positioned::position(&s); opq::done(r.0, s) }
        pub fn translate() { let s = all(); let t = rest(); let r = Positioned::position(&t); opq::done(r.translate_position(opq::sl_all::<$b>()), s) }
        pub fn order() {
            let s = all();
            let t = rest();
            let (p, q) = (Positioned::position(&s), Positioned::position(&t));
            opq::done((p.cmp(&q), p == q, p.partial_cmp(&q), q.cmp(&p), p.clone() == p), s)
        }
        pub fn checkpoint() {
            let mut s = all();
            let c = ResetStream::checkpoint(&s);
            let _ = StreamOnce::uncons(&mut s);
            let r = ResetStream::reset(&mut s, c);
            opq::done(r, s)
        }
        pub fn uncons_range() { let mut s = all(); let r = RangeStreamOnce::uncons_range(&mut s, opq::sl_size()); opq::done(r, s) }
        pub fn uncons_while() { let mut s = all(); let r = RangeStreamOnce::uncons_while(&mut s, |t| opq::upred(t)); opq::done(r, s) }
        pub fn uncons_while1() { let mut s = all(); let r = RangeStreamOnce::uncons_while1(&mut s, |t| opq::upred(t)); opq::done(r, s) }
        pub fn distance() { let s = all(); let c = ResetStream::checkpoint(&s); let s = rest(); let r = RangeStreamOnce::distance(&s, &c); opq::done(r, s) }
        pub fn range() { let s = all(); let r = RangeStreamOnce::range(&s); opq::done(r, s) }
        pub fn len() { let s = opq::sl_all::<$b>(); opq::done((combine::stream::Range::len(&s), combine::stream::Range::is_empty(&s)), s) }
        pub fn empty() { let s: $b = opq::sl_rest(); opq::done(combine::stream::Range::is_empty(&s), s) }
    } )* };
}
slices! {
    c_str, &'static str, core::convert::identity, &'static str;
    c_slice, &'static [Tk], core::convert::identity, &'static [Tk];
    c_sstream, SliceStream<'static, Tk>, SliceStream, &'static [Tk];
}
pub mod c_iter {
    use super::*;
    pub fn uncons() { let mut s = IteratorStream::new(opq::new::<It<Tk>>(0)); let r = StreamOnce::uncons(&mut s); opq::done(r, s) }
    pub fn next() { let mut s = IteratorStream::new(opq::new::<It<Tk>>(0)); let r = s.next(); opq::done(r, s) }
    pub fn is_partial() { let s = IteratorStream::new(opq::new::<It<Tk>>(0)); let r = StreamOnce::is_partial(&s); opq::done(r, s) }
}

/// the buffering stream in any state: ring() is any, mark() any checkpoint taken before
pub mod bf {
    use super::*;
    type B = buffered::Stream<Z>;
    type K = <B as ResetStream>::Checkpoint;
    pub fn new() { let s: B = buffered::Stream::new(opq::new::<Z>(0), opq::num(1)); opq::done((), s) }
    pub fn uncons() { let mut s: B = opq::ring(); let r = StreamOnce::uncons(&mut s); opq::done(r, s) }
    pub fn position() { let s: B = opq::ring(); let r = Positioned::position(&s); opq::done(r, s) }
    pub fn checkpoint() { let s: B = opq::ring(); let r = ResetStream::checkpoint(&s); opq::done(r, s) }
    pub fn is_partial() { let s: B = opq::ring(); let r = StreamOnce::is_partial(&s); opq::done(r, s) }
    pub fn reset() { let mut s: B = opq::ring(); let k: K = opq::mark(); let r = ResetStream::reset(&mut s, k); opq::done(r, s) }
}
/// the stream over a reader
pub mod rd {
    use super::*;
    type R = combine::stream::read::Stream<It<u8>>;
    pub fn uncons() { let mut s: R = combine::stream::read::Stream::new(opq::new(0)); let r = StreamOnce::uncons(&mut s); opq::done(r, s) }
    pub fn is_partial() { let s: R = combine::stream::read::Stream::new(opq::new(0)); let r = StreamOnce::is_partial(&s); opq::done(r, s) }
}

/// parsers of one token out of a class
macro_rules! class {
    ($m:ident, $k:ident, $t:ty: $($n:ident = $p:expr;)*) => { pub mod $m {
        use super::*;
        use combine::parser::$k as p;
        use combine::Parser;
        $( pub fn $n() { let mut s: ZT<$t> = opq::new(0); let r = Parser::parse_first(&mut $p, &mut s, &mut Default::default()); opq::done(r, s) } )*
    } };
}
class! { k_char, char, char: digit = p::digit(); space = p::space(); newline = p::newline(); crlf = p::crlf(); tab = p::tab(); upper = p::upper(); lower = p::lower();
    alpha_num = p::alpha_num(); letter = p::letter(); oct_digit = p::oct_digit(); hex_digit = p::hex_digit(); spaces = p::spaces(); char = p::char(opq::num(1)); }
class! { k_byte, byte, u8: digit = p::digit(); space = p::space(); newline = p::newline(); crlf = p::crlf(); tab = p::tab(); upper = p::upper(); lower = p::lower();
    alpha_num = p::alpha_num(); letter = p::letter(); oct_digit = p::oct_digit(); hex_digit = p::hex_digit(); spaces = p::spaces(); byte = p::byte(opq::num(1));
    be_u16 = p::num::be_u16(); le_u16 = p::num::le_u16(); be_u32 = p::num::be_u32(); le_u32 = p::num::le_u32(); be_u64 = p::num::be_u64(); le_u64 = p::num::le_u64();
    be_i16 = p::num::be_i16(); le_i16 = p::num::le_i16(); be_i32 = p::num::be_i32(); le_i32 = p::num::le_i32(); be_i64 = p::num::be_i64(); le_i64 = p::num::le_i64();
    be_f32 = p::num::be_f32(); le_f32 = p::num::le_f32(); be_f64 = p::num::be_f64(); le_f64 = p::num::le_f64(); }

/// position trackers
pub mod pos {
    use super::*;
    use combine::stream::position::{DefaultPositioned, IndexPositioner, Positioner, RangePositioner, SourcePosition};
    fn sp() -> SourcePosition { SourcePosition { line: opq::num(1), column: opq::num(2) } }
    fn ix() -> IndexPositioner { IndexPositioner::new_with_position(opq::num(1)) }
    fn ipos(p: &IndexPositioner) -> usize { Positioner::<Tk>::position(p) }
    pub fn source_char() { let mut p = sp(); let t: char = opq::num(3); Positioner::<char>::update(&mut p, &t); opq::done((p.line, p.column), t) }
    pub fn source_byte() { let mut p = sp(); let t: u8 = opq::num(3); Positioner::<u8>::update(&mut p, &t); opq::done((p.line, p.column), t) }
    pub fn source_range() { let mut p = sp(); let t: &'static str = opq::sl_all(); RangePositioner::<char, &str>::update_range(&mut p, &t); opq::done((p.line, p.column), t) }
    pub fn source_read_char() { let p = sp(); opq::done((Positioner::<char>::position(&p), Positioner::<char>::checkpoint(&p)), p) }
    pub fn source_read_byte() { let p = sp(); opq::done((Positioner::<u8>::position(&p), Positioner::<u8>::checkpoint(&p)), p) }
    pub fn source_reset_char() { let mut p = sp(); let c = SourcePosition { line: opq::num(3), column: opq::num(4) }; Positioner::<char>::reset(&mut p, c); opq::done((p.line, p.column), ()) }
    pub fn source_reset_byte() { let mut p = sp(); let c = SourcePosition { line: opq::num(3), column: opq::num(4) }; Positioner::<u8>::reset(&mut p, c); opq::done((p.line, p.column), ()) }
    pub fn source_order() {
        let (p, q) = (sp(), SourcePosition { line: opq::num(3), column: opq::num(4) });
        opq::done((p.cmp(&q), p == q), (p, q))
    }
    pub fn index() { let mut p = ix(); let t: Tk = opq::new(3); Positioner::<Tk>::update(&mut p, &t); opq::done(ipos(&p), ()) }
    pub fn index_range() { let mut p = ix(); let t: Rg = opq::new(3); RangePositioner::<Tk, Rg>::update_range(&mut p, &t); opq::done(ipos(&p), ()) }
    pub fn index_reset() { let mut p = ix(); let c = Positioner::<Tk>::checkpoint(&p); Positioner::<Tk>::update(&mut p, &opq::new(3)); Positioner::<Tk>::reset(&mut p, c); opq::done(ipos(&p), ()) }
    pub fn start() {
        opq::done((SourcePosition::new(), SourcePosition::default(), ipos(&IndexPositioner::new()), ipos(&IndexPositioner::default())), ())
    }
    pub fn start_str() { let s = position::Stream::new(opq::sl_all::<&'static str>()); opq::done(s.positioner, s.input) }
    pub fn start_slice() { let s = position::Stream::new(opq::sl_all::<&'static [Tk]>()); opq::done(ipos(&s.positioner), s.input) }
    pub fn with() { let s = position::Stream::with_positioner(opq::new::<Z>(0), opq::new::<Q>(1)); opq::done(s.positioner, s.input) }
    pub fn ref_update() { let mut p = opq::new::<Q>(1); Positioner::<Tk>::update(&mut &mut p, &opq::new(3)); opq::done((), p) }
    pub fn ref_update_range() { let mut p = opq::new::<Q>(1); RangePositioner::<Tk, Rg>::update_range(&mut &mut p, &opq::new(3)); opq::done((), p) }
    pub fn ref_read() { let mut p = opq::new::<Q>(1); let r = { let q = &mut p; (Positioner::<Tk>::position(&q), Positioner::<Tk>::checkpoint(&q)) }; opq::done(r, p) }
    pub fn ref_reset() { let mut p = opq::new::<Q>(1); Positioner::<Tk>::reset(&mut &mut p, opq::new(3)); opq::done((), p) }
}

/// errors
pub mod er {
    use super::*;
    use combine::easy::{Error, Errors, Info};
    use combine::error::{self, ParseError, ParseErrorInto, StreamError, StreamErrorInto, StringStreamError, Tracked, UnexpectedParse};
    type Es = Errors<Tk, Rg, Pos>;
    type Ee = Error<Tk, Rg>;
    type In = Info<Tk, Rg>;
    fn es(k: u8) -> Es { Errors { position: opq::new(k), errors: opq::list(k) } }
    fn ee(k: u8) -> Ee { opq::new(k) }
    fn end(e: Es) { opq::done(e.position, e.errors) }
    pub fn merge() { end(Es::merge(es(0), es(1))) }
    pub fn merge_trait() { end(<Es as ParseError<Tk, Rg, Pos>>::merge(es(0), es(1))) }
    pub fn add_error() { let mut e = es(0); e.add_error(ee(2)); end(e) }
    pub fn add() { let mut e = es(0); ParseError::add(&mut e, ee(2)); end(e) }
    pub fn set_expected() { let mut e = es(0); e.set_expected(opq::new(2)); end(e) }
    pub fn set_expected_trait() {
        let mut t = Tracked::from(es(0));
        <Es as ParseError<Tk, Rg, Pos>>::set_expected(&mut t, ee(2), |t| opq::grow(&mut t.error.errors, 1));
        end(t.error)
    }
    pub fn clear_expected() { let mut e = es(0); ParseError::clear_expected(&mut e); end(e) }
    pub fn is_eoi() { let e = es(0); opq::done(ParseError::is_unexpected_end_of_input(&e), e.errors) }
    pub fn empty() { end(<Es as ParseError<Tk, Rg, Pos>>::empty(opq::new(0))) }
    pub fn empty_inh() { end(Es::empty(opq::new(0))) }
    pub fn from_error() { end(<Es as ParseError<Tk, Rg, Pos>>::from_error(opq::new(0), ee(2))) }
    pub fn new() { end(Es::new(opq::new(0), ee(2))) }
    pub fn from_errors() { end(Es::from_errors(opq::new(0), opq::list(0))) }
    pub fn end_of_input() { end(Es::end_of_input(opq::new(0))) }
    pub fn position() { let e = es(0); opq::done(ParseError::position(&e), e.errors) }
    pub fn set_position() { let mut e = es(0); ParseError::set_position(&mut e, opq::new(2)); end(e) }
    pub fn map_position() { let e = es(0).map_position(|p| opq::umap::<_, U>(p)); opq::done(e.position, e.errors) }
    pub fn map_token() { let e = es(0).map_token(|p| opq::umap::<_, U>(p)); opq::done(e.position, e.errors) }
    pub fn map_range() { let e = es(0).map_range(|p| opq::umap::<_, U>(p)); opq::done(e.position, e.errors) }
    pub fn into_other_error() { let e: Xe = es(0).into_other_error::<Xe, Tk2, Rg2, Pos2>(); opq::done(e, ()) }
    pub fn into_other_one() { let e: Xe = ParseError::into_other(Es::new(opq::new(0), ee(2))); opq::done(e, ()) }
    pub fn add_expected() { let mut e = es(0); ParseError::add_expected(&mut e, error::Token(opq::new::<Tk>(2))); end(e) }
    pub fn add_unexpected() { let mut e = es(0); ParseError::add_unexpected(&mut e, error::Token(opq::new::<Tk>(2))); end(e) }
    pub fn add_message() { let mut e = es(0); ParseError::add_message(&mut e, error::Token(opq::new::<Tk>(2))); end(e) }
    // one error
    pub fn one_eq() { let (a, b) = (ee(0), ee(1)); opq::done(a == b, (a, b)) }
    pub fn info_eq() { let (a, b): (In, In) = (opq::new(0), opq::new(1)); opq::done(a == b, (a, b)) }
    pub fn one_eoi() { let a = ee(0); opq::done(StreamError::is_unexpected_end_of_input(&a), a) }
    pub fn one_into_other() { let x: Xe = StreamError::into_other(ee(0)); opq::done(x, ()) }
    pub fn one_into_other_error() { let x: Xe = ee(0).into_other_error::<Xe, Tk2, Rg2>(); opq::done(x, ()) }
    pub fn one_map_token() { opq::done(ee(0).map_token(|p| opq::umap::<_, U>(p)), ()) }
    pub fn one_map_range() { opq::done(ee(0).map_range(|p| opq::umap::<_, U>(p)), ()) }
    pub fn info_map_token() { let i: In = opq::new(0); opq::done(i.map_token(|p| opq::umap::<_, U>(p)), ()) }
    pub fn info_map_range() { let i: In = opq::new(0); opq::done(i.map_range(|p| opq::umap::<_, U>(p)), ()) }
    pub fn one_end_of_input() { opq::done(Ee::end_of_input(), ()) }
    pub fn mk_unexpected() {
        opq::done((Ee::unexpected_token(opq::new(0)), Ee::unexpected_range(opq::new(0)), Ee::unexpected_static_message(opq::new(0)), Ee::unexpected_format(opq::new::<Ds>(0)), <Ee as StreamError<Tk, Rg>>::end_of_input()), ())
    }
    pub fn mk_expected() {
        opq::done((Ee::expected_token(opq::new(0)), Ee::expected_range(opq::new(0)), Ee::expected_static_message(opq::new(0)), Ee::expected_format(opq::new::<Ds>(0))), ())
    }
    pub fn mk_message() {
        opq::done((Ee::message_token(opq::new(0)), Ee::message_range(opq::new(0)), Ee::message_static_message(opq::new(0)), Ee::message_format(opq::new::<Ds>(0))), ())
    }
    type Inf = error::Info<Tk, Rg, Ds>;
    pub fn gen_unexpected() { let i: Inf = opq::new(0); opq::done(<Xe as StreamError<Tk, Rg>>::unexpected(i), ()) }
    pub fn gen_expected() { let i: Inf = opq::new(0); opq::done(<Xe as StreamError<Tk, Rg>>::expected(i), ()) }
    pub fn gen_message() { let i: Inf = opq::new(0); opq::done(<Xe as StreamError<Tk, Rg>>::message(i), ()) }
    pub fn gen_parts() {
        opq::done((<Xe as StreamError<Tk, Rg>>::expected(error::Token(opq::new::<Tk>(0))), <Xe as StreamError<Tk, Rg>>::expected(error::Range(opq::new::<Rg>(0))),
            <Xe as StreamError<Tk, Rg>>::expected(error::Format(opq::new::<Ds>(0))), <Xe as StreamError<Tk, Rg>>::expected(opq::new::<&'static str>(0)),
            <Xe as StreamError<char, Rg>>::expected(opq::num::<char>(0)), <Xe as StreamError<u8, Rg>>::expected(opq::num::<u8>(0))), ())
    }
    // the small error types
    macro_rules! small { ($($m:ident $t:ty;)*) => { $( pub mod $m {
        use super::*;
        type E = $t;
        fn e(k: u8) -> E { opq::new(k) }
        type PE = dyn Fn() -> E;
        fn add_(x: &mut E, y: E) { ParseError::<Tk, Rg, Pos>::add(x, y) }
        pub fn mk() {
            opq::done((<E as StreamError<Tk, Rg>>::unexpected_token(opq::new(0)), <E as StreamError<Tk, Rg>>::unexpected_range(opq::new(0)),
                <E as StreamError<Tk, Rg>>::unexpected_format(opq::new::<Ds>(0)), <E as StreamError<Tk, Rg>>::expected_token(opq::new(0)),
                <E as StreamError<Tk, Rg>>::expected_range(opq::new(0)), <E as StreamError<Tk, Rg>>::expected_format(opq::new::<Ds>(0)),
                <E as StreamError<Tk, Rg>>::message_token(opq::new(0)), <E as StreamError<Tk, Rg>>::message_range(opq::new(0)),
                <E as StreamError<Tk, Rg>>::message_format(opq::new::<Ds>(0)), <E as StreamError<Tk, Rg>>::end_of_input()), ())
        }
        pub fn eoi() { let x = e(0); opq::done((StreamError::<Tk, Rg>::is_unexpected_end_of_input(&x), ParseError::<Tk, Rg, Pos>::is_unexpected_end_of_input(&x)), x) }
        pub fn add() { let mut x = e(0); add_(&mut x, e(1)); opq::done(x, ()) }
        pub fn merge() { opq::done(ParseError::<Tk, Rg, Pos>::merge(e(0), e(1)), ()) }
        pub fn from_error() { opq::done(<E as ParseError<Tk, Rg, Pos>>::from_error(opq::new(0), e(1)), ()) }
        pub fn into_other() { let x: Xe = StreamError::<Tk, Rg>::into_other(e(0)); opq::done(x, ()) }
        pub fn p_into_other() { let x: Xe = ParseError::<Tk, Rg, Pos>::into_other(e(0)); opq::done(x, ()) }
    } )* }; }
    small! { unexpected_parse UnexpectedParse; string_stream StringStreamError; read combine::stream::read::Error; }
    macro_rules! small2 { ($($m:ident $t:ty;)*) => { $( pub mod $m {
        use super::*;
        fn e(k: u8) -> $t { opq::new(k) }
        pub fn s_into_other() { let x: Xe = StreamErrorInto::<Tk, Rg>::into_other_error::<Xe, Tk2, Rg2>(e(0)); opq::done(x, ()) }
        pub fn p_into_other() { let x: Xe = ParseErrorInto::<Tk, Rg, Pos>::into_other_error::<Xe, Tk2, Rg2, Pos2>(e(0)); opq::done(x, ()) }
    } )* }; }
    small2! { unexpected_parse2 UnexpectedParse; string_stream2 StringStreamError; }
}

/// results
pub mod pr {
    use super::*;
    use combine::error::{Commit, ParseResult, StdParseResult2, Tracked};
    type Pr = ParseResult<U, Xe>;
    type Sr = StdParseResult2<U, Xe>;
    type Co = Commit<U>;
    fn p() -> Pr { opq::new(0) }
    fn c(k: u8) -> Co { opq::new(k) }
    pub fn map() { opq::done(p().map(|x| opq::umap::<_, Tk>(x)), ()) }
    pub fn map_err() { opq::done(p().map_err(|x| opq::umap::<_, Tk>(x)), ()) }
    pub fn and_then() { opq::done(p().and_then(|x| opq::umap::<_, ParseResult<Tk, Xe>>(x)), ()) }
    pub fn is() { let x = p(); opq::done((x.is_ok(), x.is_err()), x) }
    pub fn as_ref() { let x = p(); opq::done(x.as_ref(), ()) }
    pub fn into_result() { opq::done(p().into_result(), ()) }
    pub fn into() { let r: Result<Commit<U>, Commit<Tracked<Xe>>> = p().into(); opq::done(r, ()) }
    pub fn from() { let s: Sr = opq::new(0); opq::done(Pr::from(s), ()) }
    pub fn tracked() { opq::done(Tracked::from(opq::new::<Xe>(0)), ()) }
    pub fn ctry() { fn f() -> Pr { let (x, c): (U, Commit<()>) = combine::ctry!(p()); opq::done((x, c), ()); loop {} } opq::done(f(), ()) }
    pub fn c_is() { let x = c(0); opq::done(x.is_peek(), x) }
    pub fn c_inner() { opq::done(c(0).into_inner(), ()) }
    pub fn c_commit() { opq::done(c(0).into_commit(), ()) }
    pub fn c_peek() { opq::done(c(0).into_peek(), ()) }
    pub fn c_map() { opq::done(c(0).map(|x| opq::umap::<_, Tk>(x)), ()) }
    pub fn c_merge() { let x = c(0); opq::done(x.merge(c(1)), ()) }
    pub fn c_combine() { opq::done(c(0).combine(|x| -> StdParseResult2<Tk, Xe> { opq::umap(x) }), ()) }
    pub fn c_combine_commit() { opq::done(c(0).combine_commit(|x| -> ParseResult<Tk, Xe> { opq::umap(x) }), ()) }
    pub fn c_as_ref() { let x = c(0); opq::done(*AsRef::<U>::as_ref(&x), ()) }
    pub fn c_as_mut() { let mut x = c(0); let y = AsMut::<U>::as_mut(&mut x); *y = opq::new(1); opq::done(x, ()) }
}

/// searching for bytes and regular expressions
pub mod fd {
    use super::*;
    use combine::parser::{byte, regex};
    use combine::stream::PartialStream;
    use combine::Parser;
    type B = &'static [u8];
    macro_rules! search { ($($n:ident = $e:expr;)*) => { $(
        pub mod $n {
            use super::*;
            pub fn first() { let mut s: B = opq::sl_all(); let mut st = Default::default(); let r = $e.parse_first(&mut s, &mut st); opq::done(r, (s, st)) }
            pub fn part() { let mut s = PartialStream::<B>(opq::sl_all()); let mut st = Default::default(); let r = $e.parse_first(&mut s, &mut st); opq::done(r, (s.0, st)) }
            pub fn more() { let mut s = PartialStream::<B>(opq::sl_all()); let mut st = opq::sl_off(); let r = $e.parse_partial(&mut s, &mut st); opq::done(r, (s.0, st)) }
            pub fn last() { let mut s: B = opq::sl_all(); let mut st = opq::sl_off(); let r = $e.parse_partial(&mut s, &mut st); opq::done(r, (s, st)) }
        } )* } }
    search! {
        byte1 = byte::take_until_byte(opq::num(1));
        byte2 = byte::take_until_byte2(opq::num(1), opq::num(2));
        byte3 = byte::take_until_byte3(opq::num(1), opq::num(2), opq::num(3));
        bytes = byte::take_until_bytes(opq::needle());
    }
    /// takes note of what it is made from
    pub struct Col(());
    impl<T> core::iter::FromIterator<T> for Col {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Col {
            for x in i { opq::pick(x) }
            opq::pick(());
            Col(())
        }
    }
    macro_rules! rx { ($($m:ident $rx:ty, $rg:ty;)*) => { $(
        pub mod $m {
            use super::*;
            type In = $rg;
            fn rx() -> &'static $rx { opq::new(9) }
            pub fn match_() { let mut s: In = opq::sl_all(); let r = regex::match_(rx()).parse_first(&mut s, &mut ()); opq::done(r, s) }
            pub fn find() { let mut s: In = opq::sl_all(); let r = regex::find(rx()).parse_first(&mut s, &mut ()); opq::done(r, s) }
            pub fn find_many() { let mut s: In = opq::sl_all(); let r = regex::find_many::<Col, _, _>(rx()).parse_first(&mut s, &mut ()); opq::done(r, s) }
            pub fn captures() { let mut s: In = opq::sl_all(); let r = regex::captures::<Col, _, _>(rx()).parse_first(&mut s, &mut ()); opq::done(r, s) }
            pub fn captures_many() { let mut s: In = opq::sl_all(); let r = regex::captures_many::<Col, Col, _, _>(rx()).parse_first(&mut s, &mut ()); opq::done(r, s) }
        } )* } }
    rx! { rx_str ::regex::Regex, &'static str; rx_bytes ::regex::bytes::Regex, &'static [u8]; }
}
