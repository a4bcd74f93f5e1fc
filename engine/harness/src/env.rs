use crate::opq;
use combine::error::{ErrorInfo, Info, ParseError, ParseResult, StreamError, Tracked};
use combine::parser::ParseMode;
use combine::stream::{Positioned, ResetStream, StreamErrorFor, StreamOnce};
use combine::{Parser, Stream};
use core::cmp::Ordering;
use core::fmt;

#[derive(Clone, Copy)]
pub struct Tk(usize);
impl PartialEq for Tk {
    fn eq(&self, o: &Tk) -> bool { opq::tk_eq(self, o) }
}
#[derive(Clone, Copy)]
pub struct Rg(usize);
#[derive(Clone, Copy)]
pub struct Pos(usize);
impl PartialEq for Pos {
    fn eq(&self, o: &Pos) -> bool { opq::pos_eq(self, o) }
}
impl Eq for Pos {}
impl PartialOrd for Pos {
    fn partial_cmp(&self, o: &Pos) -> Option<Ordering> { Some(opq::pos_cmp(self, o)) }
}
impl Ord for Pos {
    fn cmp(&self, o: &Pos) -> Ordering { opq::pos_cmp(self, o) }
}
#[derive(Clone, Copy)]
pub struct Ck(usize);
/// a parsed value: neither Copy nor Clone
pub struct V(usize);
impl From<V> for Info<Tk, Rg, &'static str> {
    fn from(_: V) -> Self { Info::Static("v") }
}
pub struct St(usize);
impl StreamOnce for St {
    type Token = Tk;
    type Range = Rg;
    type Position = Pos;
    type Error = Er;
    fn uncons(&mut self) -> Result<Tk, StreamErrorFor<Self>> { opq::uncons(self) }
    fn is_partial(&self) -> bool { opq::is_partial(self) }
}
impl Positioned for St {
    fn position(&self) -> Pos { opq::position(self) }
}
impl ResetStream for St {
    type Checkpoint = Ck;
    fn checkpoint(&self) -> Ck { opq::checkpoint(self) }
    fn reset(&mut self, c: Ck) -> Result<(), Er> { opq::reset(self, c) }
}

impl PartialEq for Rg {
    fn eq(&self, o: &Rg) -> bool { opq::rg_eq(self, o) }
}
impl combine::stream::Range for Rg {
    fn len(&self) -> usize { opq::rg_len(self) }
}
/// the contract of a range stream, in terms of taking single tokens
impl combine::stream::RangeStreamOnce for St {
    fn uncons_range(&mut self, n: usize) -> Result<Rg, Se> { opq::uncons_range(self, n) }
    fn uncons_while<F>(&mut self, mut f: F) -> Result<Rg, Se> where F: FnMut(Tk) -> bool {
        let start = opq::checkpoint(self);
        loop {
            let before = opq::checkpoint(self);
            match opq::rw_next(self)? {
                Some(t) => if !f(t) {
                    opq::rw_back(self, before);
                    break;
                },
                None => break,
            }
        }
        Ok(opq::rw_range(self, start))
    }
    fn distance(&self, c: &Ck) -> usize { opq::distance(self, c) }
    fn range(&self) -> Rg { opq::range(self) }
}
pub fn rg() -> Rg { Rg(0) }
/// an empty range
pub fn rg0() -> Rg { Rg(1) }

pub struct Se(usize);
impl StreamError<Tk, Rg> for Se {
    fn unexpected_token(t: Tk) -> Self { opq::se_tok(0, t) }
    fn unexpected_range(r: Rg) -> Self { opq::se_rng(1, r) }
    fn unexpected_format<T: fmt::Display>(_: T) -> Self { opq::se_new(2) }
    fn unexpected_static_message(_: &'static str) -> Self { opq::se_new(2) }
    fn unexpected<E>(e: E) -> Self where E: for<'s> ErrorInfo<'s, Tk, Rg> { se_info(0, e) }
    fn expected_token(t: Tk) -> Self { opq::se_tok(3, t) }
    fn expected_range(r: Rg) -> Self { opq::se_rng(4, r) }
    fn expected_format<T: fmt::Display>(_: T) -> Self { opq::se_new(5) }
    fn expected_static_message(_: &'static str) -> Self { opq::se_new(5) }
    fn expected<E>(e: E) -> Self where E: for<'s> ErrorInfo<'s, Tk, Rg> { se_info(3, e) }
    fn message_token(t: Tk) -> Self { opq::se_tok(6, t) }
    fn message_range(r: Rg) -> Self { opq::se_rng(7, r) }
    fn message_format<T: fmt::Display>(_: T) -> Self { opq::se_new(8) }
    fn message_static_message(_: &'static str) -> Self { opq::se_new(8) }
    fn message<E>(e: E) -> Self where E: for<'s> ErrorInfo<'s, Tk, Rg> { se_info(6, e) }
    fn end_of_input() -> Self { opq::se_eoi() }
    fn is_unexpected_end_of_input(&self) -> bool { opq::se_is_eoi(self) }
    fn into_other<T: StreamError<Tk, Rg>>(self) -> T { T::unexpected_static_message("se") }
}

/// kind: 0 unexpected, 3 expected, 6 message; +0 token, +1 range, +2 text
fn se_info<E>(kind: u8, e: E) -> Se where E: for<'s> ErrorInfo<'s, Tk, Rg> {
    match e.into_info() {
        Info::Token(t) => opq::se_tok(kind, t),
        Info::Range(r) => opq::se_rng(kind + 1, r),
        _ => opq::se_new(kind + 2),
    }
}

pub struct Er(usize);
impl PartialEq for Er {
    fn eq(&self, o: &Er) -> bool { opq::er_eq(self, o) }
}
impl ParseError<Tk, Rg, Pos> for Er {
    type StreamError = Se;
    fn empty(p: Pos) -> Self { opq::er_empty(p) }
    fn from_error(p: Pos, e: Se) -> Self { opq::er_from(p, e) }
    fn position(&self) -> Pos { opq::er_position(self) }
    fn set_position(&mut self, p: Pos) { opq::er_set_position(self, p) }
    fn merge(self, o: Self) -> Self { opq::er_merge(self, o) }
    fn add(&mut self, e: Se) { opq::er_add(self, e) }
    fn set_expected<F>(s: &mut Tracked<Self>, info: Se, f: F) where F: FnOnce(&mut Tracked<Self>) {
        f(s);
        opq::er_set_expected(&mut s.error, info)
    }
    fn clear_expected(&mut self) { opq::er_clear_expected(self) }
    fn is_unexpected_end_of_input(&self) -> bool { opq::er_eoi(self) }
    fn into_other<T: ParseError<Tk, Rg, Pos>>(self) -> T { T::empty(opq::er_position(&self)) }
}

/// partial state of a child parser
pub struct Ps(usize);
impl Default for Ps {
    fn default() -> Self { opq::ps_default() }
}

/// an arbitrary child parser
#[derive(Clone, Copy)]
pub struct C<const N: usize>;
impl<const N: usize> Parser<St> for C<N> {
    type Output = V;
    type PartialState = Ps;
    fn parse_first(&mut self, input: &mut St, state: &mut Ps) -> ParseResult<V, Er> { opq::child_first(N, input, state) }
    fn parse_partial(&mut self, input: &mut St, state: &mut Ps) -> ParseResult<V, Er> { opq::child_partial(N, input, state) }
    fn add_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_error(N, e) }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_committed(N, e) }
}

/// a child parser whose identity is a run-time value (arrays and slices of parsers)
#[derive(Clone, Copy)]
pub struct D(pub usize);
impl Parser<St> for D {
    type Output = V;
    type PartialState = Ps;
    fn parse_first(&mut self, input: &mut St, state: &mut Ps) -> ParseResult<V, Er> { opq::child_first(self.0, input, state) }
    fn parse_partial(&mut self, input: &mut St, state: &mut Ps) -> ParseResult<V, Er> { opq::child_partial(self.0, input, state) }
    fn add_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_error(self.0, e) }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_committed(self.0, e) }
}

pub struct Coll(usize);
impl Default for Coll {
    fn default() -> Self { opq::coll_new() }
}
impl Extend<V> for Coll {
    fn extend<I: IntoIterator<Item = V>>(&mut self, it: I) {
        for v in it {
            opq::coll_push(self, v)
        }
    }
}
impl Extend<Tk> for Coll {
    fn extend<I: IntoIterator<Item = Tk>>(&mut self, it: I) {
        for v in it {
            opq::coll_push(self, opq::tk_to_v(v))
        }
    }
}

/// Analysis driver: rounds of parsing with one partial state, each with any number of
/// suspensions; `begin` chooses the entry point, `finish` judges the result and says whether
/// the call has to be resumed.
#[inline(never)]
pub fn drive<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    let mut state = P::PartialState::default();
    loop {
        let r = if opq::begin() { p.parse_first(&mut input, &mut state) } else { p.parse_partial(&mut input, &mut state) };
        let mut again = opq::finish(r, &input);
        while again {
            let r = p.parse_partial(&mut input, &mut state);
            again = opq::finish(r, &input);
        }
    }
}
/// same, through parse_lazy (stateless entry point)
#[inline(never)]
pub fn drive_lazy<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    loop {
        opq::begin();
        let r = p.parse_lazy(&mut input);
        opq::finish(r, &input);
    }
}
#[inline(never)]
pub fn mode<M: ParseMode>(m: M) -> M { m }
pub trait S_: Stream {}

/// an arbitrary iterator of values (for `iterate`)
#[derive(Clone)]
pub struct It(usize);
pub struct ItI(usize);
impl IntoIterator for It {
    type Item = V;
    type IntoIter = ItI;
    fn into_iter(self) -> ItI { ItI(0) }
}
impl Iterator for ItI {
    type Item = V;
    fn next(&mut self) -> Option<V> { opq::it_next(0) }
}
pub fn it() -> It { It(0) }
pub fn tk() -> Tk { Tk(0) }

/// what a parser adds to an error that was created before it was run
#[inline(never)]
pub fn drive_err<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    opq::begin();
    let mut e = Tracked::from(opq::er_empty(opq::position(&input)));
    p.add_error(&mut e);
    opq::finish_err(e.error, &input);
}
/// what a parser adds to a later error about what could still have followed
#[inline(never)]
pub fn drive_com<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    opq::begin();
    let mut e = Tracked::from(opq::er_empty(opq::position(&input)));
    p.add_committed_expected_error(&mut e);
    opq::finish_err(e.error, &input);
}
/// the stateless entry points
#[inline(never)]
pub fn drive_stream<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    loop {
        opq::begin();
        let r = p.parse_stream(&mut input);
        opq::finish(r, &input);
    }
}
#[inline(never)]
pub fn drive_stream_partial<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    let mut state = P::PartialState::default();
    loop {
        opq::begin();
        let r = p.parse_stream_partial(&mut input, &mut state);
        let mut again = opq::finish(r, &input);
        while again {
            let r = p.parse_stream_partial(&mut input, &mut state);
            again = opq::finish(r, &input);
        }
    }
}

/// a clonable sequence of three items, known by their index
#[derive(Clone, Copy)]
pub struct N3(pub usize);
pub struct N3I { i: usize, n: usize }
impl IntoIterator for N3 {
    type Item = usize;
    type IntoIter = N3I;
    fn into_iter(self) -> N3I { N3I { i: 0, n: self.0 } }
}
impl Iterator for N3I {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.i < self.n { let r = self.i; self.i += 1; Some(r) } else { None }
    }
}
/// a clonable sequence of three tokens
#[derive(Clone, Copy)]
pub struct T3;
pub struct T3I { i: usize }
impl IntoIterator for T3 {
    type Item = Tk;
    type IntoIter = T3I;
    fn into_iter(self) -> T3I { T3I { i: 0 } }
}
impl Iterator for T3I {
    type Item = Tk;
    fn next(&mut self) -> Option<Tk> {
        if self.i < 3 { let r = self.i; self.i += 1; Some(Tk(r)) } else { None }
    }
}

#[inline(never)]
pub fn drive_parse<P: Parser<St>>(mut p: P) {
    loop {
        let input = opq::stream();
        opq::begin();
        match p.parse(input) {
            Ok((v, rest)) => { let _ = rest; opq::finish_result(Ok(v)) },
            Err(e) => opq::finish_result::<P::Output>(Err(e)),
        };
    }
}
#[inline(never)]
pub fn drive_with_state<P: Parser<St>>(mut p: P) {
    let mut input = opq::stream();
    let mut state = P::PartialState::default();
    loop {
        opq::begin();
        let r = p.parse_with_state(&mut input, &mut state);
        let mut again = opq::finish_result(r);
        while again {
            let r = p.parse_with_state(&mut input, &mut state);
            again = opq::finish_result(r);
        }
    }
}
#[inline(never)]
pub fn drive_iter<P: Parser<St, Output = V>>(mut p: P) {
    let mut input = opq::stream();
    loop {
        opq::begin();
        let mut c = Coll::default();
        let mut it = p.by_ref().iter(&mut input);
        c.extend(it.by_ref());
        let r: Result<_, _> = it.into_result(c);
        opq::finish(r.into(), &input);
    }
}

/// a stream with spans for positions (for `spanned`)
pub struct Sp(pub St);
use combine::stream::span::Span;
impl StreamOnce for Sp {
    type Token = Tk;
    type Range = Rg;
    type Position = Span<Pos>;
    type Error = Er;
    fn uncons(&mut self) -> Result<Tk, StreamErrorFor<Self>> { opq::uncons(&mut self.0) }
    fn is_partial(&self) -> bool { opq::is_partial(&self.0) }
}
impl Positioned for Sp {
    fn position(&self) -> Span<Pos> { Span { start: opq::position(&self.0), end: opq::position(&self.0) } }
}
impl ResetStream for Sp {
    type Checkpoint = Ck;
    fn checkpoint(&self) -> Ck { opq::checkpoint(&self.0) }
    fn reset(&mut self, c: Ck) -> Result<(), Er> { opq::reset(&mut self.0, c) }
}
impl ParseError<Tk, Rg, Span<Pos>> for Er {
    type StreamError = Se;
    fn empty(p: Span<Pos>) -> Self { opq::er_empty(p.start) }
    fn from_error(p: Span<Pos>, e: Se) -> Self { opq::er_from(p.start, e) }
    fn position(&self) -> Span<Pos> { Span { start: opq::er_position(self), end: opq::er_end(self) } }
    fn set_position(&mut self, p: Span<Pos>) { opq::er_set_span(self, p.start, p.end) }
    fn merge(self, o: Self) -> Self { opq::er_merge(self, o) }
    fn add(&mut self, e: Se) { opq::er_add(self, e) }
    fn set_expected<F>(s: &mut Tracked<Self>, info: Se, f: F) where F: FnOnce(&mut Tracked<Self>) {
        f(s);
        opq::er_set_expected(&mut s.error, info)
    }
    fn clear_expected(&mut self) { opq::er_clear_expected(self) }
    fn is_unexpected_end_of_input(&self) -> bool { opq::er_eoi(self) }
    fn into_other<T: ParseError<Tk, Rg, Span<Pos>>>(self) -> T { T::empty(Span::from(opq::er_position(&self))) }
}
/// an arbitrary parser of such a stream
#[derive(Clone, Copy)]
pub struct CS;
impl Parser<Sp> for CS {
    type Output = V;
    type PartialState = Ps;
    fn parse_first(&mut self, input: &mut Sp, state: &mut Ps) -> ParseResult<V, Er> { opq::child_first(0, &mut input.0, state) }
    fn parse_partial(&mut self, input: &mut Sp, state: &mut Ps) -> ParseResult<V, Er> { opq::child_partial(0, &mut input.0, state) }
    fn add_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_error(0, e) }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<Er>) { opq::child_add_committed(0, e) }
}
#[inline(never)]
pub fn drive_span<P: Parser<Sp>>(mut p: P) {
    let mut input = Sp(opq::stream());
    let mut state = P::PartialState::default();
    loop {
        let r = if opq::begin() { p.parse_first(&mut input, &mut state) } else { p.parse_partial(&mut input, &mut state) };
        let mut again = opq::finish(r, &input.0);
        while again {
            let r = p.parse_partial(&mut input, &mut state);
            again = opq::finish(r, &input.0);
        }
    }
}
#[inline(never)]
pub fn drive_span_err<P: Parser<Sp>>(mut p: P) {
    let mut input = Sp(opq::stream());
    opq::begin();
    let mut e = Tracked::from(opq::er_empty(opq::position(&input.0)));
    p.add_error(&mut e);
    opq::finish_err(e.error, &input.0);
}
#[inline(never)]
pub fn drive_span_com<P: Parser<Sp>>(mut p: P) {
    let mut input = Sp(opq::stream());
    opq::begin();
    let mut e = Tracked::from(opq::er_empty(opq::position(&input.0)));
    p.add_committed_expected_error(&mut e);
    opq::finish_err(e.error, &input.0);
}

/// a value that can be a length
pub struct NotANumber(());
impl fmt::Debug for NotANumber { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for NotANumber { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for NotANumber {}
impl core::convert::TryFrom<V> for usize {
    type Error = NotANumber;
    fn try_from(v: V) -> Result<usize, NotANumber> { opq::vnum(5, v) }
}
