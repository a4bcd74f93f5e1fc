//! Library functions on lists, written with the primitives the analysis models (engine/shims.txt).
use crate::opq;
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let n = opq::vec_len(v);
    let mut i = 0;
    let mut k = 0;
    while k < n {
        if f(opq::vec_at(v, i)) { i += 1 } else { opq::vec_del(v, i); }
        k += 1;
    }
}
pub fn retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let n = opq::vec_len(v);
    let mut i = 0;
    let mut k = 0;
    while k < n {
        if f(opq::vec_at_mut(v, i)) { i += 1 } else { opq::vec_del(v, i); }
        k += 1;
    }
}
pub fn from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x) }
    v
}
pub fn extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(x) }
}
pub fn iter_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(mut it: core::slice::Iter<'a, T>, mut b: B, mut f: F) -> B {
    while let Some(x) = it.next() { b = f(b, x) }
    b
}
pub fn into_iter_fold<T, B, F: FnMut(B, T) -> B>(mut it: std::vec::IntoIter<T>, mut b: B, mut f: F) -> B {
    while let Some(x) = it.next() { b = f(b, x) }
    b
}
pub fn into_iter_count<T>(mut it: std::vec::IntoIter<T>) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1 }
    n
}
macro_rules! slice_iters { ($($m:ident $it:ty, $x:ty;)*) => { $( pub mod $m {
    pub fn all<'a, T, F: FnMut($x) -> bool>(it: &mut $it, mut f: F) -> bool {
        while let Some(x) = it.next() { if !f(x) { return false } }
        true
    }
    pub fn any<'a, T, F: FnMut($x) -> bool>(it: &mut $it, mut f: F) -> bool {
        while let Some(x) = it.next() { if f(x) { return true } }
        false
    }
    pub fn find<'a, T, P: FnMut(&$x) -> bool>(it: &mut $it, mut f: P) -> Option<$x> {
        while let Some(x) = it.next() { if f(&x) { return Some(x) } }
        None
    }
    pub fn find_map<'a, T, B, F: FnMut($x) -> Option<B>>(it: &mut $it, mut f: F) -> Option<B> {
        while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
        None
    }
    pub fn position<'a, T, P: FnMut($x) -> bool>(it: &mut $it, mut f: P) -> Option<usize> {
        let mut n = 0;
        while let Some(x) = it.next() { if f(x) { return Some(n) } n += 1 }
        None
    }
    pub fn for_each<'a, T, F: FnMut($x)>(mut it: $it, mut f: F) {
        while let Some(x) = it.next() { f(x) }
    }
} )* }; }
slice_iters! { iter core::slice::Iter<'a, T>, &'a T; iter_mut core::slice::IterMut<'a, T>, &'a mut T; }
pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut it = s.iter();
    while let Some(y) = it.next() { if y == x { return true } }
    false
}
pub fn into_iter_try_fold<T, B, F: FnMut(B, T) -> R, R: core::ops::Try<Output = B>>(it: &mut std::vec::IntoIter<T>, mut b: B, mut f: F) -> R {
    while let Some(x) = it.next() { b = f(b, x)? }
    R::from_output(b)
}
pub fn iter_try_fold<'a, T, B, F: FnMut(B, &'a T) -> R, R: core::ops::Try<Output = B>>(it: &mut core::slice::Iter<'a, T>, mut b: B, mut f: F) -> R {
    while let Some(x) = it.next() { b = f(b, x)? }
    R::from_output(b)
}
