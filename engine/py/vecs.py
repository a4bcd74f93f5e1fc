"""Models of Vec and String over labels (see lin.py).

A Vec is ('a', ty, 0, (pointer to a heap cell, unit)); the cell holds the elements as an array.  Lists coming from
the environment have up to N elements, each an uninterpreted label.
"""
from lin import *
import model

N = 3


def cell(it, st, v):
    """(region, path) of the elements of the Vec behind v (a Vec value or a pointer to one)"""
    for _ in range(4):
        if v[0] == 'a':
            p = it.unwrap_ptr(v)
            if p[0] == 'p' and p[1][0] == 'H':
                x = it.read(st, p[1], p[2])
                if x[0] == 'a' and x[1] is None:
                    return p[1]
            return None
        if v[0] != 'p' or v[1][0] == 'E':
            return None
        v = it.read(st, v[1], v[2])
    return None


def items(it, st, v):
    c = cell(it, st, v)
    return None if c is None else st.heap[c][3]


def put(st, c, xs):
    st.heap[c] = ('a', None, 0, tuple(xs))


def make(it, st, ty, xs=()):
    r = it.alloc(st, ('a', None, 0, tuple(xs)))
    return ('a', ty, 0, (('p', r, (), None), UNIT))


def m_list(it, st, b, args, ty, sp):
    out = []
    for n in range(N + 1):
        s = st.copy() if n < N else st
        s.w.learn(('len', args[0][1]), n)
        out.append((s, make(it, s, ty, [lab('elem', args[0][1], i) for i in range(n)])))
    return out


def m_new(it, st, b, args, ty, sp):
    return [(st, make(it, st, ty))]


def m_push(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None:
        return None
    put(st, c, st.heap[c][3] + (args[1],))
    st.w.prog = True
    return [(st, UNIT)]


def m_push_mut(it, st, b, args, ty, sp):
    r = m_push(it, st, b, args, ty, sp)
    if r is None:
        return None
    c = cell(it, st, args[0])
    return [(st, ('p', c, (len(st.heap[c][3]) - 1,), None))]


def m_pop(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None:
        return None
    xs = st.heap[c][3]
    st.w.prog = True
    if not xs:
        return [(st, model.variant(it, ty, 'None', []))]
    put(st, c, xs[:-1])
    return [(st, model.variant(it, ty, 'Some', [xs[-1]]))]


def m_len(it, st, b, args, ty, sp):
    xs = items(it, st, args[0])
    return None if xs is None else [(st, ('c', len(xs)))]


def m_is_empty(it, st, b, args, ty, sp):
    xs = items(it, st, args[0])
    return None if xs is None else [(st, ('c', int(not xs)))]


def m_clear(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None:
        return None
    put(st, c, ())
    return [(st, UNIT)]


def m_slice(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    return None if c is None else [(st, ('p', c, (), ('len', ('c', len(st.heap[c][3])))))]


def m_at(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None or args[1][0] != 'c':
        return None
    return [(st, ('p', c, (args[1][1],), None))]


def m_del(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None or args[1][0] != 'c':
        return None
    xs = st.heap[c][3]
    i = args[1][1]
    if i >= len(xs):
        it.panic(st, 'index out of bounds', True)
        return []
    if b['path'].endswith('swap_remove'):
        y = list(xs)
        x = y[i]
        y[i] = y[-1]
        put(st, c, y[:-1])
        return [(st, x)]
    put(st, c, xs[:i] + xs[i + 1:])
    st.w.prog = True
    return [(st, xs[i])]


def m_truncate(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None or args[1][0] != 'c':
        return None
    put(st, c, st.heap[c][3][:args[1][1]])
    return [(st, UNIT)]


def m_insert(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None or args[1][0] != 'c':
        return None
    xs = st.heap[c][3]
    if args[1][1] > len(xs):
        it.panic(st, 'index out of bounds', True)
        return []
    put(st, c, xs[:args[1][1]] + (args[2],) + xs[args[1][1]:])
    return [(st, UNIT)]


def m_append(it, st, b, args, ty, sp):
    c, d = cell(it, st, args[0]), cell(it, st, args[1])
    if c is None or d is None:
        return None
    put(st, c, st.heap[c][3] + st.heap[d][3])
    put(st, d, ())
    return [(st, UNIT)]


def m_into_iter(it, st, b, args, ty, sp):
    """the iterator owns the elements"""
    xs = items(it, st, args[0])
    return None if xs is None else [(st, make(it, st, ty, xs))]


def m_ref_iter(it, st, b, args, ty, sp):
    r = m_slice(it, st, b, args, ty, sp)
    return None if r is None else model.m_slice_iter(it, st, b, [r[0][1]], ty, sp)


def m_split_off(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None or args[1][0] != 'c':
        return None
    xs, n = st.heap[c][3], args[1][1]
    if n > len(xs):
        it.panic(st, 'index out of bounds', True)
        return []
    v = make(it, st, ty, xs[n:])
    put(st, c, xs[:n])
    return [(st, v)]


def m_drain(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None:
        return None
    xs = st.heap[c][3]
    n = len(xs)
    r = args[1]
    lo, hi = 0, n
    if r[0] == 'a' and r[1] is not None:
        name = (it.P.types[r[1]].get('n') or '').split('<')[0].split('::')[-1]
        if name not in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull'):
            return None
        f = [x[1] if x[0] == 'c' else None for x in r[3]]
        if None in f:
            return None
        lo, hi = {'Range': lambda: (f[0], f[1]), 'RangeTo': lambda: (0, f[0]), 'RangeFrom': lambda: (f[0], n), 'RangeFull': lambda: (0, n)}[name]()
    elif r[0] != 'a':
        return None
    if lo > hi or hi > n:
        it.panic(st, 'drain out of bounds', True)
        return []
    v = make(it, st, ty, xs[lo:hi])
    put(st, c, xs[:lo] + xs[hi:])
    return [(st, v)]


def m_next(back):
    def m(it, st, b, args, ty, sp):
        c = cell(it, st, args[0])
        if c is None:
            return None
        xs = st.heap[c][3]
        st.w.prog = True
        if not xs:
            return [(st, model.variant(it, ty, 'None', []))]
        put(st, c, xs[:-1] if back else xs[1:])
        return [(st, model.variant(it, ty, 'Some', [xs[-1] if back else xs[0]]))]
    return m


def m_hint(it, st, b, args, ty, sp):
    xs = items(it, st, args[0])
    if xs is None:
        return None
    n = ('c', len(xs))
    t = it.P.types[ty]
    if t['k'] == 'uint':
        return [(st, n)]
    o = t['f'][1]
    return [(st, ('a', ty, 0, (n, model.variant(it, o, 'Some', [n]))))]


def m_into_vec(it, st, b, args, ty, sp):
    """the elements of a boxed array"""
    p = it.unwrap_ptr(args[0])
    if p[0] != 'p':
        return None
    x = it.read(st, p[1], p[2])
    while x[0] == 'a' and x[1] is not None and it.P.types[x[1]]['k'] == 'adt' and x[3]:
        x = x[3][-1]       # MaybeUninit, ManuallyDrop
    return [(st, make(it, st, ty, x[3]))] if x[0] == 'a' else None


def m_new_uninit(it, st, b, args, ty, sp):
    """a box whose content is written field by field afterwards"""
    r = it.alloc(st, ('t', it.P.types[ty]['args'][0]))
    return [(st, ('p', r, (), None))]


# ------------------------------------------------------------------ strings
def text(it, st, v):
    for _ in range(6):
        if v[0] == 'p' and v[1][0] != 'E':
            v = it.read(st, v[1], v[2])
        else:
            break
    return v if v[0] in ('str',) or is_label(v) else None


def m_str_eq(neg=False):
    def m(it, st, b, args, ty, sp):
        x, y = text(it, st, args[0]), text(it, st, args[1])
        if x is None or y is None:
            return None
        if x == y or x[0] == y[0] == 'str':
            return [(st, ('c', int((x == y) != neg)))]
        v = lab('p_str_eq', None, tuple(sorted((x, y), key=str)))
        if not neg:
            return [(st, v)]
        return [(s, ('c', int(t))) for s, t in vcompare(it, st, v, 0, 'Eq', ty)]
    return m


def m_same(it, st, b, args, ty, sp):
    x = text(it, st, args[0])
    return None if x is None else [(st, x)]


def m_to_string(it, st, b, args, ty, sp):
    return [(st, lab('p_string', None, (freeze(it, st, args[0]),)))]


V = 'std::vec::Vec::<T, A>::'
M = {
    'opq::list': m_list, 'opq::vec_len': m_len, 'opq::vec_at': m_at, 'opq::vec_del': m_del, 'opq::vec_push': m_push,
    'std::vec::Vec::<T>::new': m_new, 'std::vec::Vec::<T>::with_capacity': m_new,
    V + 'push': m_push, V + 'push_mut': m_push_mut, V + 'pop': m_pop, V + 'len': m_len, V + 'is_empty': m_is_empty, V + 'clear': m_clear, V + 'as_slice': m_slice,
    V + 'as_mut_slice': m_slice, V + 'remove': m_del, V + 'swap_remove': m_del, V + 'truncate': m_truncate, V + 'insert': m_insert,
    V + 'append': m_append, V + 'split_off': m_split_off,
    "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": m_ref_iter,
    "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": m_ref_iter, V + 'drain': m_drain,
    '<std::vec::Vec<T, A> as std::ops::Deref>::deref': m_slice, '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut': m_slice,
    '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter': m_into_iter,
    '<std::vec::Vec<T> as std::default::Default>::default': m_new,
    'std::boxed::Box::<T>::new_uninit': m_new_uninit, 'std::boxed::box_new_uninit': m_new_uninit,
    "std::boxed::box_assume_init_into_vec_unsafe": m_into_vec, 'std::slice::<impl [T]>::into_vec': m_into_vec,
    "std::slice::<impl [T]>::into_vec": m_into_vec,
    'std::string::ToString::to_string': m_to_string,
    '<std::string::String as std::ops::Deref>::deref': m_same, 'std::string::String::as_str': m_same,
}
for _i in ("std::vec::IntoIter<T, A>", "std::vec::Drain<'_, T, A>"):
    M['<%s as std::iter::Iterator>::next' % _i] = m_next(False)
    M['<%s as std::iter::DoubleEndedIterator>::next_back' % _i] = m_next(True)
    M['<%s as std::iter::Iterator>::size_hint' % _i] = m_hint
    M['<%s as std::iter::ExactSizeIterator>::len' % _i] = m_hint
for _a, _n in (('eq', False), ('ne', True)):
    for _t in ('<std::string::String as std::cmp::PartialEq>::%s', '<std::string::String as std::cmp::PartialEq<str>>::%s',
               "<std::string::String as std::cmp::PartialEq<&'a str>>::%s", "<&'a str as std::cmp::PartialEq<std::string::String>>::%s",
               '<str as std::cmp::PartialEq<std::string::String>>::%s', '<str as std::cmp::PartialEq>::%s', 'core::str::traits::<impl std::cmp::PartialEq for str>::%s',
               "std::string::<impl std::cmp::PartialEq<std::string::String> for &'a str>::%s", "std::string::<impl std::cmp::PartialEq<str> for std::string::String>::%s",
               "std::string::<impl std::cmp::PartialEq<&'a str> for std::string::String>::%s", "std::string::<impl std::cmp::PartialEq<std::string::String> for str>::%s"):
        M[_t % _a] = m_str_eq(_n)


def m_grow(it, st, b, args, ty, sp):
    c = cell(it, st, args[0])
    if c is None:
        return None
    k = args[1][1]
    out = []
    for n in range(3):
        s = st.copy() if n < 2 else st
        put(s, c, s.heap[c][3] + tuple(lab('elem', k, i) for i in range(n)))
        s.w.learn(('len', k), n)
        s.w.tr = s.w.tr + (('grow', (freeze(it, s, args[0]),), ('',)),)
        out.append((s, UNIT))
    return out


M['opq::grow'] = m_grow


# ------------------------------------------------------------------ freezing
def shape(st, v):
    """a frozen value with everything known about its labels spelled out: (variant name, fields...) or the label"""
    if not is_label(v):
        return v
    n = st.w.fact(('D', v))
    if n is None:
        return v
    return (n, lambda j: lab(*(v[2] + (n, j))))


def m_err_eq(it, st, b, args, ty, sp):
    """equality of two errors of a list: a symmetric predicate (what it compares is decided where it is defined)"""
    x, y = (freeze(it, st, a) for a in args)
    if unknown(x) or unknown(y):
        return None
    if x == y:
        return [(st, ('c', 1))]
    m, n = (v[0] if not is_label(v) else st.w.fact(('D', v)) for v in (x, y))
    if m is not None and n is not None and m != n:
        return [(st, ('c', 0))]
    v = lab('p_err_eq', None, tuple(sorted((x, y), key=str)))
    return [(s, ('c', int(t))) for s, t in vcompare(it, st, v, 1, 'Eq', ty)]
