//! The environment of the analysed code: nothing in here has a body the analysis looks at.
//! Every function is an event or a pure observation of engine/py/lin.py.
use crate::env::*;
use combine::error::{ParseResult, Tracked};

macro_rules! opaque_fns {
    ($( fn $name:ident $(<$($g:ident),*>)? ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ; )*) => {
        $( #[inline(never)] #[allow(unused_variables)] pub fn $name $(<$($g),*>)? ($($a: $t),*) $(-> $r)? { loop {} } )*
    };
}
opaque_fns! {
    fn new<T>(id: u8) -> T;
    fn z_uncons(s: &mut Z) -> Result<Tk, Se>;
    fn p_is_partial(s: &Z) -> bool;
    fn p_position(s: &Z) -> Pos;
    fn p_checkpoint(s: &Z) -> Ck;
    fn z_reset(s: &mut Z, c: Ck) -> Result<(), Er>;
    fn z_uncons_range(s: &mut Z, n: usize) -> Result<Rg, Se>;
    fn zw_next(s: &mut Z, one: bool) -> Option<Tk>;
    fn zw_judge(b: bool);
    fn zw_end(s: &mut Z) -> Result<Rg, Se>;
    fn zw1_end(s: &mut Z) -> ParseResult<Rg, Se>;
    fn p_distance(s: &Z, c: &Ck) -> usize;
    fn p_range(s: &Z) -> Rg;
    fn p_rg_len(r: &Rg) -> usize;
    fn upred<T>(t: T) -> bool;
    fn p_qposition(q: &Q) -> Pos;
    fn q_update(q: &mut Q, t: &Tk);
    fn q_update_range(q: &mut Q, r: &Rg);
    fn p_qcheckpoint(q: &Q) -> Qk;
    fn q_reset(q: &mut Q, k: Qk);
    fn p_tk_eq(a: &Tk, b: &Tk) -> bool;
    fn p_rg_eq(a: &Rg, b: &Rg) -> bool;
    fn p_pos_eq(a: &Pos, b: &Pos) -> bool;
    fn p_pos_cmp(a: &Pos, b: &Pos) -> core::cmp::Ordering;
    fn p_er_eq(a: &Er, b: &Er) -> bool;
    fn p_er_empty(p: Pos) -> Er;
    fn p_er_from(p: Pos, e: Se) -> Er;
    fn p_er_position(e: &Er) -> Pos;
    fn p_er_merge(a: Er, b: Er) -> Er;
    fn p_er_add(a: Er, b: Se) -> Er;
    fn p_er_clear(a: Er) -> Er;
    fn p_er_setpos(a: Er, p: Pos) -> Er;
    fn p_er_eoi(a: &Er) -> bool;
    fn p_se_new(k: u8) -> Se;
    fn p_se_tok(k: u8, t: Tk) -> Se;
    fn p_se_rng(k: u8, r: Rg) -> Se;
    fn p_se_eoi() -> Se;
    fn p_se_is_eoi(a: &Se) -> bool;
    fn p_conv_se<T>(a: Se) -> T;
    fn p_conv_er<T>(a: Er) -> T;
    fn sl_all<S>() -> S;
    fn sl_size() -> usize;
    fn sl_off() -> usize;
    fn needle<S>() -> S;
    fn pick<T>(t: T);
    fn sl_rest<S>() -> S;
    fn num<T>(k: u8) -> T;
    fn ring<S>() -> S;
    fn zt_uncons<T>(s: &mut ZT<T>) -> Result<T, Sk<T>>;
    fn p_zt_partial<T>(s: &ZT<T>) -> bool;
    fn p_zt_position<T>(s: &ZT<T>) -> Pos;
    fn p_zt_checkpoint<T>(s: &ZT<T>) -> Ck;
    fn zt_reset<T>(s: &mut ZT<T>, c: Ck) -> Result<(), Ek<T>>;
    fn p_sk_new<T>(k: u8) -> Sk<T>;
    fn p_sk_eoi<T>(a: &Sk<T>) -> bool;
    fn p_ek_eq<T>(a: &Ek<T>, b: &Ek<T>) -> bool;
    fn p_ek_empty<T>(p: Pos) -> Ek<T>;
    fn p_ek_from<T>(p: Pos, e: Sk<T>) -> Ek<T>;
    fn p_ek_position<T>(e: &Ek<T>) -> Pos;
    fn p_ek_setpos<T>(a: Ek<T>, p: Pos) -> Ek<T>;
    fn p_ek_merge<T>(a: Ek<T>, b: Ek<T>) -> Ek<T>;
    fn p_ek_add<T>(a: Ek<T>, b: Sk<T>) -> Ek<T>;
    fn p_ek_clear<T>(a: Ek<T>) -> Ek<T>;
    fn p_ek_eoi<T>(a: &Ek<T>) -> bool;
    fn mark<K>() -> K;
    fn it_next<T>(i: &mut It<T>) -> Option<T>;
    fn done<T, S>(r: T, s: S);
    fn list<T>(k: u8) -> Vec<T>;
    fn grow<T>(v: &mut Vec<T>, k: u8);
    fn vec_len<T>(v: &Vec<T>) -> usize;
    fn vec_at<T>(v: &Vec<T>, i: usize) -> &T;
    fn vec_at_mut<T>(v: &mut Vec<T>, i: usize) -> &mut T;
    fn vec_del<T>(v: &mut Vec<T>, i: usize) -> T;
    fn umap<T, R>(t: T) -> R;
    fn p_conv<T, R>(t: T) -> R;
    fn p_xe<T>(k: u8, t: T) -> Xe;
    fn p_xe_add(a: Xe, b: Xe) -> Xe;
    fn p_xe_at<P>(p: P, b: Xe) -> Xe;
}
/// incremental input
pub mod inc {
    use crate::env::*;
    use combine::stream::MaybePartialStream;
    use std::io;
    use std::task::Poll;
    opaque_fns! {
        fn mkz(i: MaybePartialStream<&[u8]>, p: Pos) -> Z;
        fn post(z: Z);
        fn prs(p: &mut Ps, z: &mut Z, s: &mut St) -> Result<U, Er>;
        fn read(r: &mut Rd, b: &mut [u8]) -> io::Result<usize>;
        fn aread(r: &mut Rd, b: &mut [u8]) -> Poll<io::Result<usize>>;
        fn aread_u(r: &mut Rd, b: &mut [u8]) -> Poll<io::Result<usize>>;
        fn prm<P, S, O>(p: P, z: S, s: &mut St) -> O;
        fn pending();
        fn awrite(r: &mut Rd, b: &[u8]) -> Poll<io::Result<usize>>;
        fn aflush(r: &mut Rd) -> Poll<io::Result<()>>;
        fn ashut(r: &mut Rd) -> Poll<io::Result<()>>;
        fn dst() -> &'static mut [u8];
        fn num() -> usize;
    }
}
