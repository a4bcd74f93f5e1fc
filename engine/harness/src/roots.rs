use crate::env::*;
use crate::env::{C, D, V};
use crate::opq;
use combine::parser::choice::*;
use combine::parser::combinator::*;
use combine::parser::range;
use combine::parser::repeat::*;
use combine::parser::sequence::*;
use combine::parser::token::*;
use combine::*;
combine::parser! { fn pm[](p: C<0>)(St) -> V where [] { p } }
combine::parser! { type PartialState = Ps; fn pmp[](p: C<0>)(St) -> V where [] { p } }
pub struct Strct { a: V, b: V }
pub struct TStrct(V, V);

fn envp(e: usize, i: &mut St) -> combine::StdParseResult<V, St> { opq::cond(e); C::<0>.parse_lazy(i).into() }
pub struct Conv;
impl<'a> Converter<'a, St> for Conv {
    type InputInner = St;
    fn convert(&mut self, i: &'a mut St) -> Result<St, Er> { opq::conv(0, i) }
    fn convert_error(&mut self, i: &'a mut St, e: Er) -> Er { opq::conv_err(0, i, e) }
}
pub fn parse_() { drive_parse(C::<0>) }
pub fn parse_with_state_() { drive_with_state(C::<0>) }
pub fn iter_() { drive_iter(C::<0>) }

pub fn spanned_() { drive_span(spanned(CS)) }
pub fn m_spanned() { drive_span(CS.spanned()) }
pub fn err_spanned() { drive_span_err(spanned(CS)) }
pub fn com_spanned() { drive_span_com(spanned(CS)) }

/// every parser under analysis, driven through its entry points: parse (top level), the error it
/// adds as a possible alternative (err) and as what was still expected after it succeeded (com)
macro_rules! roots {
    ($($n:ident = $e:expr;)*) => {
        $(pub fn $n() { drive($e) })*
        pub mod err { use super::*; $(pub fn $n() { drive_err($e) })* }
        pub mod com { use super::*; $(pub fn $n() { drive_com($e) })* }
        pub mod lz { use super::*; $(pub fn $n() { drive_lazy($e) })* }
        pub mod st { use super::*; $(pub fn $n() { drive_stream($e) })* }
        pub mod sp { use super::*; $(pub fn $n() { drive_stream_partial($e) })* }
    };
}
roots! {
    // ---- sequences
    seq1 = (C::<0>,);
    seq2 = (C::<0>, C::<1>);
    seq3 = (C::<0>, C::<1>, C::<2>);
    seq5 = (C::<0>, C::<1>, C::<2>, C::<3>, C::<4>);
    seq8 = (C::<0>, C::<1>, C::<2>, C::<3>, C::<4>, C::<5>, C::<6>, C::<7>);
    seq12 = (C::<0>, C::<1>, C::<2>, C::<3>, C::<4>, C::<5>, C::<6>, C::<7>, C::<8>, C::<9>, C::<10>, C::<11>);
    seq16 = (C::<0>, C::<1>, C::<2>, C::<3>, C::<4>, C::<5>, C::<6>, C::<7>, C::<8>, C::<9>, C::<10>, C::<11>, C::<12>, C::<13>, C::<14>, C::<15>);
    seq20 = (C::<0>, C::<1>, C::<2>, C::<3>, C::<4>, C::<5>, C::<6>, C::<7>, C::<8>, C::<9>, C::<10>, C::<11>, C::<12>, C::<13>, C::<14>, C::<15>, C::<16>, C::<17>, C::<18>, C::<19>);
    with_ = with(C::<0>, C::<1>);
    skip_ = skip(C::<0>, C::<1>);
    between_ = between(C::<0>, C::<1>, C::<2>);
    then_ = then(C::<0>, |v| { opq::fr(0, &v); C::<1> });
    m_with = C::<0>.with(C::<1>);
    m_skip = C::<0>.skip(C::<1>);
    m_and = C::<0>.and(C::<1>);
    m_then = C::<0>.then(|v| { opq::fr(0, &v); C::<1> });
    m_then_partial = C::<0>.then_partial(|v: &mut V| { opq::fm(0, v); C::<1> });
    m_then_ref = C::<0>.then_ref(|v: &V| { opq::fr(0, v); C::<1> });
    // ---- choices
    m_or = C::<0>.or(C::<1>);
    or2 = or(C::<0>, C::<1>);
    choice2 = choice((C::<0>, C::<1>));
    choice3 = choice((C::<0>, C::<1>, C::<2>));
    choice4 = choice((C::<0>, C::<1>, C::<2>, C::<3>));
    choice_arr = choice([D(0), D(1)]);
    choice_slice = choice(&mut [D(0), D(1)][..]);
    optional_ = optional(C::<0>);
    // ---- repetition
    many_ = many::<Coll, _, _>(C::<0>);
    many1_ = many1::<Coll, _, _>(C::<0>);
    skip_many_ = skip_many(C::<0>);
    skip_many1_ = skip_many1(C::<0>);
    count_ = count::<Coll, _, _>(2, C::<0>);
    skip_count_ = skip_count(2, C::<0>);
    count_min_max_ = count_min_max::<Coll, _, _>(1, 3, C::<0>);
    count_min2 = count_min_max::<Coll, _, _>(2, 2, C::<0>);
    skip_count_min_max_ = skip_count_min_max(1, 2, C::<0>);
    sep_by_ = sep_by::<Coll, _, _, _>(C::<0>, C::<1>);
    sep_by1_ = sep_by1::<Coll, _, _, _>(C::<0>, C::<1>);
    sep_end_by_ = sep_end_by::<Coll, _, _, _>(C::<0>, C::<1>);
    sep_end_by1_ = sep_end_by1::<Coll, _, _, _>(C::<0>, C::<1>);
    // ---- wrappers
    attempt_ = attempt(C::<0>);
    look_ahead_ = look_ahead(C::<0>);
    not_followed_by_ = not_followed_by(C::<0>);
    map_ = C::<0>.map(|v| opq::f(0, v));
    map_input_ = C::<0>.map_input(|v, _: &mut St| opq::f(0, v));
    flat_map_ = C::<0>.flat_map(|v| opq::ferr(0, v));
    and_then_ = C::<0>.and_then(|v| opq::fres(0, v));
    then_partial_ = then_partial(C::<0>, |v: &mut V| { opq::fm(0, v); C::<1> });
    then_ref_ = then_ref(C::<0>, |v: &V| { opq::fr(0, v); C::<1> });
    chainl1_ = chainl1(C::<0>, C::<1>.map(|o: V| move |a: V, b: V| opq::f3(0, o, a, b)));
    chainr1_ = chainr1(C::<0>, C::<1>.map(|o: V| move |a: V, b: V| opq::f3(0, o, a, b)));
    take_until_ = take_until::<Coll, _, _>(C::<0>);
    skip_until_ = skip_until(C::<0>);
    repeat_until_ = repeat_until::<Coll, _, _, _>(C::<0>, C::<1>);
    repeat_skip_until_ = repeat_skip_until(C::<0>, C::<1>);
    escaped_ = escaped(C::<0>, tk(), C::<1>);
    iterate_ = iterate::<Coll, _, _, _, _>(it(), |v: &V, _: &mut St| { opq::fr(0, v); C::<0> });
    recognize_ = recognize::<Coll, _, _>(C::<0>);
    // ---- transparent wrappers
    no_partial_ = no_partial(C::<0>);
    ignore_ = ignore(C::<0>);
    any_partial_state_ = any_partial_state(C::<0>);
    any_send_partial_state_ = any_send_partial_state(C::<0>);
    any_send_sync_partial_state_ = any_send_sync_partial_state(C::<0>);
    lazy_ = lazy(|| C::<0>);
    factory_ = factory(|_: &mut St| { opq::unitp(0); C::<0> });
    opaque_ = opaque!(C::<0>);
    m_by_ref = C::<0>.by_ref();
    f_map = map(C::<0>, |v| opq::f(0, v));
    f_map_input = map_input(C::<0>, |v, _: &mut St| opq::f(0, v));
    f_flat_map = flat_map(C::<0>, |v| opq::ferr(0, v));
    f_and_then = and_then(C::<0>, |v| opq::fres(0, v));
    left_ = C::<0>.left::<C<1>>();
    right_ = C::<0>.right::<C<1>>();
    dispatch_ = crate::disp::make(opq::pick(0));
    expected_ = C::<0>.expected("x");
    message_ = C::<0>.message("x");
    silent_ = C::<0>.silent();
    by_ref_ = &mut C::<0>;
    box_ = Box::new(C::<0>);
    boxed_ = C::<0>.boxed();
    parser_macro_ = pm(C::<0>);
    parser_macro_partial_ = pmp(C::<0>);
    struct_parser_ = combine::struct_parser! { Strct { a: C::<0>, _: C::<1>, b: C::<2> } };
    struct_tuple_parser_ = combine::struct_parser! { TStrct(C::<0>, _: C::<1>, C::<2>) };
    plain_ = C::<0>;
    env_parser_ = combine::parser::function::env_parser(7usize, envp);
    input_converter_ = input_converter::<St, St, _, _>(C::<0>, Conv);
    // ---- ranges
    range_ = range::range::<St>(rg());
    range0_ = range::range::<St>(rg0());
    take_ = range::take::<St>(3);
    take0_ = range::take::<St>(0);
    take_while_ = range::take_while(|t: Tk| opq::pred(0, &t));
    take_while1_ = range::take_while1(|t: Tk| opq::pred(0, &t));
    take_until_range_ = range::take_until_range::<St>(rg());
    take_fn_ = range::take_fn::<_, _, St>(|r: Rg| opq::search(0, r));
    length_prefix_ = range::length_prefix(C::<0>);
    range_recognize_ = range::recognize(C::<0>);
    recognize_with_value_ = range::recognize_with_value(C::<0>);
    // ---- tokens
    any_ = any::<St>();
    satisfy_ = satisfy(|t: Tk| opq::pred(0, &t));
    satisfy_map_ = satisfy_map(|t: Tk| opq::tkmap(0, &t));
    token_ = token::<St>(tk());
    tokens_ = tokens(|i: usize, t: Tk| opq::cmp(0, i, &t), "x", N3(3));
    tokens0_ = tokens(|i: usize, t: Tk| opq::cmp(0, i, &t), "x", N3(0));
    tokens_cmp_ = tokens_cmp(N3(3), |i: usize, t: Tk| opq::cmp(0, i, &t));
    one_of_ = one_of::<_, St>(T3);
    none_of_ = none_of::<_, St>(T3);
    position_ = position::<St>();
    value_ = value::<St, _>(5usize);
    produce_ = produce::<St, _, _>(|| opq::mk(0));
    eof_ = eof::<St>();
    unexpected_ = combine::unexpected_any::<St, _, V>("x");
    fn_parser_ = parser(|i: &mut St| -> combine::StdParseResult<V, St> { C::<0>.parse_lazy(i).into() });
}
