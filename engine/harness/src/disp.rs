use crate::env::{drive, St, V};
use crate::opq;
use crate::env::C as Kid;
use combine::{dispatch, Parser};
pub fn make(n: usize) -> impl Parser<St, Output = V> {
    dispatch!(n; 0 => Kid::<0>, 1 => Kid::<1>, _ => Kid::<2>)
}
