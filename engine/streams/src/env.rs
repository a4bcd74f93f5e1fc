use crate::opq;
use combine::error::{ErrorInfo, Info, ParseError, ParseErrorInto, ParseResult, StreamError, StreamErrorInto, Tracked};
use combine::stream::position::{Positioner, RangePositioner};
use combine::stream::{Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use core::cmp::Ordering;
use core::fmt;

macro_rules! opaque_ty { ($($n:ident)*) => { $(#[derive(Clone, Copy)] pub struct $n(usize);)* } }
opaque_ty! { Tk Rg Pos Ck Qk U }
impl PartialEq for Tk { fn eq(&self, o: &Tk) -> bool { opq::p_tk_eq(self, o) } }
impl PartialEq for Rg { fn eq(&self, o: &Rg) -> bool { opq::p_rg_eq(self, o) } }
impl PartialEq for Pos { fn eq(&self, o: &Pos) -> bool { opq::p_pos_eq(self, o) } }
impl Eq for Pos {}
impl PartialOrd for Pos { fn partial_cmp(&self, o: &Pos) -> Option<Ordering> { Some(opq::p_pos_cmp(self, o)) } }
impl Ord for Pos { fn cmp(&self, o: &Pos) -> Ordering { opq::p_pos_cmp(self, o) } }
impl combine::stream::Range for Rg { fn len(&self) -> usize { opq::p_rg_len(self) } }

/// an arbitrary stream
pub struct Z(usize);
impl StreamOnce for Z {
    type Token = Tk;
    type Range = Rg;
    type Position = Pos;
    type Error = Er;
    fn uncons(&mut self) -> Result<Tk, Se> { opq::z_uncons(self) }
    fn is_partial(&self) -> bool { opq::p_is_partial(self) }
}
impl Positioned for Z { fn position(&self) -> Pos { opq::p_position(self) } }
impl ResetStream for Z {
    type Checkpoint = Ck;
    fn checkpoint(&self) -> Ck { opq::p_checkpoint(self) }
    fn reset(&mut self, c: Ck) -> Result<(), Er> { opq::z_reset(self, c) }
}
impl RangeStreamOnce for Z {
    fn uncons_range(&mut self, n: usize) -> Result<Rg, Se> { opq::z_uncons_range(self, n) }
    fn uncons_while<F>(&mut self, mut f: F) -> Result<Rg, Se> where F: FnMut(Tk) -> bool {
        while let Some(t) = opq::zw_next(self, false) {
            let k = f(t);
            opq::zw_judge(k);
            if !k { break }
        }
        opq::zw_end(self)
    }
    fn uncons_while1<F>(&mut self, mut f: F) -> ParseResult<Rg, Se> where F: FnMut(Tk) -> bool {
        while let Some(t) = opq::zw_next(self, true) {
            let k = f(t);
            opq::zw_judge(k);
            if !k { break }
        }
        opq::zw1_end(self)
    }
    fn distance(&self, c: &Ck) -> usize { opq::p_distance(self, c) }
    fn range(&self) -> Rg { opq::p_range(self) }
}
/// an arbitrary position tracker
pub struct Q(usize);
impl Positioner<Tk> for Q {
    type Position = Pos;
    type Checkpoint = Qk;
    fn position(&self) -> Pos { opq::p_qposition(self) }
    fn update(&mut self, t: &Tk) { opq::q_update(self, t) }
    fn checkpoint(&self) -> Qk { opq::p_qcheckpoint(self) }
    fn reset(&mut self, k: Qk) { opq::q_reset(self, k) }
}
impl RangePositioner<Tk, Rg> for Q { fn update_range(&mut self, r: &Rg) { opq::q_update_range(self, r) } }

pub struct Se(usize);
impl StreamError<Tk, Rg> for Se {
    fn unexpected_token(t: Tk) -> Self { opq::p_se_tok(0, t) }
    fn unexpected_range(r: Rg) -> Self { opq::p_se_rng(1, r) }
    fn unexpected_format<T: fmt::Display>(_: T) -> Self { opq::p_se_new(2) }
    fn unexpected_static_message(_: &'static str) -> Self { opq::p_se_new(2) }
    fn expected_token(t: Tk) -> Self { opq::p_se_tok(3, t) }
    fn expected_range(r: Rg) -> Self { opq::p_se_rng(4, r) }
    fn expected_format<T: fmt::Display>(_: T) -> Self { opq::p_se_new(5) }
    fn expected_static_message(_: &'static str) -> Self { opq::p_se_new(5) }
    fn message_token(t: Tk) -> Self { opq::p_se_tok(6, t) }
    fn message_range(r: Rg) -> Self { opq::p_se_rng(7, r) }
    fn message_format<T: fmt::Display>(_: T) -> Self { opq::p_se_new(8) }
    fn message_static_message(_: &'static str) -> Self { opq::p_se_new(8) }
    fn end_of_input() -> Self { opq::p_se_eoi() }
    fn is_unexpected_end_of_input(&self) -> bool { opq::p_se_is_eoi(self) }
    fn into_other<T: StreamError<Tk, Rg>>(self) -> T { opq::p_conv_se(self) }
}
impl StreamErrorInto<Tk, Rg> for Se { fn into_other_error<T, Item2, Range2>(self) -> T
    where T: StreamError<Item2, Range2>, Item2: From<Tk>, Range2: From<Rg> { opq::p_conv_se(self) }
}

pub struct Er(usize);
impl PartialEq for Er { fn eq(&self, o: &Er) -> bool { opq::p_er_eq(self, o) } }
fn upd(e: &mut Er, f: impl FnOnce(Er) -> Er) {
    let x = core::mem::replace(e, Er(0));
    *e = f(x)
}
impl ParseError<Tk, Rg, Pos> for Er {
    type StreamError = Se;
    fn empty(p: Pos) -> Self { opq::p_er_empty(p) }
    fn from_error(p: Pos, e: Se) -> Self { opq::p_er_from(p, e) }
    fn position(&self) -> Pos { opq::p_er_position(self) }
    fn set_position(&mut self, p: Pos) { upd(self, |e| opq::p_er_setpos(e, p)) }
    fn merge(self, o: Self) -> Self { opq::p_er_merge(self, o) }
    fn add(&mut self, x: Se) { upd(self, |e| opq::p_er_add(e, x)) }
    fn set_expected<F>(s: &mut Tracked<Self>, info: Se, f: F) where F: FnOnce(&mut Tracked<Self>) { f(s); upd(&mut s.error, |e| opq::p_er_add(e, info)) }
    fn clear_expected(&mut self) { upd(self, |e| opq::p_er_clear(e)) }
    fn is_unexpected_end_of_input(&self) -> bool { opq::p_er_eoi(self) }
    fn into_other<T: ParseError<Tk, Rg, Pos>>(self) -> T { opq::p_conv_er(self) }
}
impl ParseErrorInto<Tk, Rg, Pos> for Er {
    fn into_other_error<T, Item2, Range2, Position2>(self) -> T
    where T: ParseError<Item2, Range2, Position2>, Item2: From<Tk>, Range2: From<Rg>, Position2: From<Pos> { opq::p_conv_er(self) }
}

/// an arbitrary iterator
pub struct It<T>(core::marker::PhantomData<T>);
impl<T> Iterator for It<T> { type Item = T; fn next(&mut self) -> Option<T> { opq::it_next(self) } }

/// other token, range and position types
opaque_ty! { Tk2 Rg2 Pos2 }
impl From<Tk> for Tk2 { fn from(t: Tk) -> Tk2 { opq::p_conv(t) } }
impl From<Rg> for Rg2 { fn from(t: Rg) -> Rg2 { opq::p_conv(t) } }
impl From<Pos> for Pos2 { fn from(t: Pos) -> Pos2 { opq::p_conv(t) } }
impl Default for Pos { fn default() -> Pos { opq::new(7) } }

/// an error that records how it was made
pub struct Xe(usize);
impl PartialEq for Xe { fn eq(&self, o: &Xe) -> bool { loop {} } }
impl<T, R> StreamError<T, R> for Xe {
    fn unexpected_token(t: T) -> Self { opq::p_xe(0, t) }
    fn unexpected_range(r: R) -> Self { opq::p_xe(1, r) }
    fn unexpected_format<F: fmt::Display>(f: F) -> Self { opq::p_xe(2, f) }
    fn unexpected_static_message(m: &'static str) -> Self { opq::p_xe(3, m) }
    fn expected_token(t: T) -> Self { opq::p_xe(4, t) }
    fn expected_range(r: R) -> Self { opq::p_xe(5, r) }
    fn expected_format<F: fmt::Display>(f: F) -> Self { opq::p_xe(6, f) }
    fn expected_static_message(m: &'static str) -> Self { opq::p_xe(7, m) }
    fn message_token(t: T) -> Self { opq::p_xe(8, t) }
    fn message_range(r: R) -> Self { opq::p_xe(9, r) }
    fn message_format<F: fmt::Display>(f: F) -> Self { opq::p_xe(10, f) }
    fn message_static_message(m: &'static str) -> Self { opq::p_xe(11, m) }
    fn end_of_input() -> Self { opq::p_xe(12, ()) }
    fn is_unexpected_end_of_input(&self) -> bool { loop {} }
    fn other<E: std::error::Error + Send + Sync + 'static>(e: E) -> Self { opq::p_xe(13, e) }
    fn into_other<X: StreamError<T, R>>(self) -> X { loop {} }
}
impl<T, R, P> ParseError<T, R, P> for Xe {
    type StreamError = Xe;
    fn empty(p: P) -> Self { opq::p_xe(14, p) }
    fn from_error(p: P, e: Xe) -> Self { opq::p_xe_at(p, e) }
    fn position(&self) -> P { loop {} }
    fn set_position(&mut self, _: P) { loop {} }
    fn add(&mut self, x: Xe) { let y = core::mem::replace(self, Xe(0)); *self = opq::p_xe_add(y, x) }
    fn set_expected<F>(_: &mut Tracked<Self>, _: Xe, _: F) where F: FnOnce(&mut Tracked<Self>) { loop {} }
    fn is_unexpected_end_of_input(&self) -> bool { loop {} }
    fn into_other<X: ParseError<T, R, P>>(self) -> X { loop {} }
}
/// something that can be displayed
pub struct Ds(usize);
impl fmt::Display for Ds { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl fmt::Debug for Ds { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl std::error::Error for Ds {}

// ---------------------------------------------------------------- incremental input
/// parser state, parser, reader
pub struct St(usize);
pub struct Ps(usize);
pub struct Rd(usize);
impl Default for St { fn default() -> St { opq::new(6) } }
impl combine::Parser<Z> for Ps {
    type Output = U;
    type PartialState = St;
    fn parse_with_state(&mut self, z: &mut Z, s: &mut St) -> Result<U, Er> { opq::inc::prs(self, z, s) }
}
impl std::io::Read for Rd { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { opq::inc::read(self, b) } }
impl std::io::Read for It<u8> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { loop {} }
}

/// an arbitrary stream of tokens of a known type
pub struct ZT<T>(usize, core::marker::PhantomData<T>);
pub struct Sk<T>(usize, core::marker::PhantomData<T>);
pub struct Ek<T>(usize, core::marker::PhantomData<T>);
impl<T: Clone + PartialEq> StreamOnce for ZT<T> {
    type Token = T;
    type Range = Rg;
    type Position = Pos;
    type Error = Ek<T>;
    fn uncons(&mut self) -> Result<T, Sk<T>> { opq::zt_uncons(self) }
    fn is_partial(&self) -> bool { opq::p_zt_partial(self) }
}
impl<T: Clone + PartialEq> Positioned for ZT<T> { fn position(&self) -> Pos { opq::p_zt_position(self) } }
impl<T: Clone + PartialEq> ResetStream for ZT<T> {
    type Checkpoint = Ck;
    fn checkpoint(&self) -> Ck { opq::p_zt_checkpoint(self) }
    fn reset(&mut self, c: Ck) -> Result<(), Ek<T>> { opq::zt_reset(self, c) }
}
impl<T> StreamError<T, Rg> for Sk<T> {
    fn unexpected_token(_: T) -> Self { opq::p_sk_new(1) }
    fn unexpected_range(_: Rg) -> Self { opq::p_sk_new(1) }
    fn unexpected_format<F: fmt::Display>(_: F) -> Self { opq::p_sk_new(1) }
    fn unexpected_static_message(_: &'static str) -> Self { opq::p_sk_new(1) }
    fn expected_token(_: T) -> Self { opq::p_sk_new(2) }
    fn expected_range(_: Rg) -> Self { opq::p_sk_new(2) }
    fn expected_format<F: fmt::Display>(_: F) -> Self { opq::p_sk_new(2) }
    fn expected_static_message(_: &'static str) -> Self { opq::p_sk_new(2) }
    fn message_token(_: T) -> Self { opq::p_sk_new(3) }
    fn message_range(_: Rg) -> Self { opq::p_sk_new(3) }
    fn message_format<F: fmt::Display>(_: F) -> Self { opq::p_sk_new(3) }
    fn message_static_message(_: &'static str) -> Self { opq::p_sk_new(3) }
    fn end_of_input() -> Self { opq::p_sk_new(0) }
    fn is_unexpected_end_of_input(&self) -> bool { opq::p_sk_eoi(self) }
    fn into_other<E: StreamError<T, Rg>>(self) -> E { opq::p_conv(self) }
}
impl<T> PartialEq for Ek<T> { fn eq(&self, o: &Ek<T>) -> bool { opq::p_ek_eq(self, o) } }
fn updk<T>(e: &mut Ek<T>, f: impl FnOnce(Ek<T>) -> Ek<T>) {
    let x = core::mem::replace(e, Ek(0, core::marker::PhantomData));
    *e = f(x)
}
impl<T: PartialEq> ParseError<T, Rg, Pos> for Ek<T> {
    type StreamError = Sk<T>;
    fn empty(p: Pos) -> Self { opq::p_ek_empty(p) }
    fn from_error(p: Pos, e: Sk<T>) -> Self { opq::p_ek_from(p, e) }
    fn position(&self) -> Pos { opq::p_ek_position(self) }
    fn set_position(&mut self, p: Pos) { updk(self, |e| opq::p_ek_setpos(e, p)) }
    fn merge(self, o: Self) -> Self { opq::p_ek_merge(self, o) }
    fn add(&mut self, x: Sk<T>) { updk(self, |e| opq::p_ek_add(e, x)) }
    fn set_expected<F>(s: &mut Tracked<Self>, info: Sk<T>, f: F) where F: FnOnce(&mut Tracked<Self>) { f(s); updk(&mut s.error, |e| opq::p_ek_add(e, info)) }
    fn clear_expected(&mut self) { updk(self, |e| opq::p_ek_clear(e)) }
    fn is_unexpected_end_of_input(&self) -> bool { opq::p_ek_eoi(self) }
    fn into_other<E: ParseError<T, Rg, Pos>>(self) -> E { opq::p_conv(self) }
}
