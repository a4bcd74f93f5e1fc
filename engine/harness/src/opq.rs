//! The environment of the analysed code: nothing in here has a body the analysis looks at.
//! Every function is a boundary that the abstract interpreter models (engine/py/model.py).
use crate::env::*;
use combine::error::{ParseResult, Tracked};

macro_rules! opaque_fns {
    ($( fn $name:ident $(<$g:ident>)? ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ; )*) => {
        $( #[inline(never)] #[allow(unused_variables)] pub fn $name $(<$g>)? ($($a: $t),*) $(-> $r)? { loop {} } )*
    };
}
opaque_fns! {
    fn stream() -> St;
    fn uncons(s: &mut St) -> Result<Tk, Se>;
    fn is_partial(s: &St) -> bool;
    fn position(s: &St) -> Pos;
    fn checkpoint(s: &St) -> Ck;
    fn reset(s: &mut St, c: Ck) -> Result<(), Er>;
    fn pos_eq(a: &Pos, b: &Pos) -> bool;
    fn pos_cmp(a: &Pos, b: &Pos) -> core::cmp::Ordering;
    fn tk_eq(a: &Tk, b: &Tk) -> bool;
    fn er_eq(a: &Er, b: &Er) -> bool;
    fn er_empty(p: Pos) -> Er;
    fn er_from(p: Pos, e: Se) -> Er;
    fn er_position(e: &Er) -> Pos;
    fn er_set_position(e: &mut Er, p: Pos);
    fn er_end(e: &Er) -> Pos;
    fn er_set_span(e: &mut Er, p: Pos, q: Pos);
    fn er_merge(a: Er, b: Er) -> Er;
    fn er_add(a: &mut Er, b: Se);
    fn er_clear_expected(a: &mut Er);
    fn er_set_expected(a: &mut Er, b: Se);
    fn er_eoi(a: &Er) -> bool;
    fn se_new(k: u8) -> Se;
    fn se_tok(k: u8, t: Tk) -> Se;
    fn se_rng(k: u8, r: Rg) -> Se;
    fn se_eoi() -> Se;
    fn se_is_eoi(a: &Se) -> bool;
    fn ps_default() -> Ps;
    fn child_first(n: usize, s: &mut St, st: &mut Ps) -> ParseResult<V, Er>;
    fn child_partial(n: usize, s: &mut St, st: &mut Ps) -> ParseResult<V, Er>;
    fn child_add_error(n: usize, e: &mut Tracked<Er>);
    fn child_add_committed(n: usize, e: &mut Tracked<Er>);
    fn f(id: usize, v: V) -> V;
    fn f2(id: usize, a: V, b: V) -> V;
    fn f3(id: usize, o: V, a: V, b: V) -> V;
    fn fr(id: usize, v: &V);
    fn vnum(id: usize, v: V) -> Result<usize, NotANumber>;
    fn fres(id: usize, v: V) -> Result<V, Se>;
    fn ferr(id: usize, v: V) -> Result<V, Er>;
    fn cond(id: usize) -> bool;
    fn pick(id: usize) -> usize;
    fn cmp(id: usize, i: usize, t: &Tk) -> bool;
    fn conv(id: usize, s: &mut St) -> Result<St, Er>;
    fn conv_err(id: usize, s: &mut St, e: Er) -> Er;
    fn uncons_range(s: &mut St, n: usize) -> Result<Rg, Se>;
    fn rw_next(s: &mut St) -> Result<Option<Tk>, Se>;
    fn rw_back(s: &mut St, c: Ck);
    fn rw_range(s: &St, c: Ck) -> Rg;
    fn distance(s: &St, c: &Ck) -> usize;
    fn range(s: &St) -> Rg;
    fn rg_eq(a: &Rg, b: &Rg) -> bool;
    fn rg_len(a: &Rg) -> usize;
    fn search(id: usize, r: Rg) -> combine::parser::range::TakeRange;
    fn mk(id: usize) -> V;
    fn pred(id: usize, t: &Tk) -> bool;
    fn tkmap(id: usize, t: &Tk) -> Option<V>;
    fn tk_to_v(t: Tk) -> V;
    fn v_unit() -> V;
    fn v_none() -> V;
    fn coll_new() -> Coll;
    fn coll_push(c: &mut Coll, v: V);
    fn it_next(n: usize) -> Option<V>;
    fn fm(id: usize, v: &mut V);
    fn unitp(id: usize);
    fn finish_err(e: Er, s: &St) -> bool;
    fn finish_opt<T>(r: Option<T>, s: &St) -> bool;
    fn begin() -> bool;
    fn finish<T>(r: ParseResult<T, Er>, s: &St) -> bool;
    fn finish_result<T>(r: Result<T, Er>) -> bool;
    fn observe<T>(id: usize, v: T);
    fn fresh<T>() -> T;
    fn abandon();
}
