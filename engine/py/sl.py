"""Models of slices, strings and their iterators over a symbolic input (see lin.py).

A slice is a fat pointer ('p', ('E', p), (), ('len', q - p)) to the input between the positions p and q;
an iterator over it is the token ('k', 'it', p, q) inside std's own structures.
"""
from lin import *
import model


def fat(it, v):
    """(p, length) of a slice pointer into the input"""
    v = it.unwrap_ptr(v)
    if v[0] == 'p' and v[1][0] == 'E' and v[2] == () and v[3] is not None and v[3][0] == 'len':
        n = lin(v[3][1])
        if n is not None:
            return v[1][1], n
    return None


def slc(p, q):
    return ('p', ('E', p), (), ('len', dist(p, q)))


def cells(it, st, v):
    return it.read(st, v[1], v[2]) if v[0] == 'p' else v


def some(it, ty, *v):
    return model.variant(it, ty, 'Some', list(v))


def none(it, ty):
    return model.variant(it, ty, 'None', [])


def end_of(st, p, n):
    return resolve(st, add(({p: 1}, 0), n))


# ------------------------------------------------------------------ input
def m_all(it, st, b, args, ty, sp):
    w = st.w
    if not w.chain:
        w.chain = (w.newpos(), w.newpos())
        w.gap = ((0, None),)
        w.o = (('P', w.chain[0], 'B'), ('P', w.chain[-1], 'E'), ('P', w.chain[0], 'scan'), ('stop', 0), ('P', w.chain[0], 'N'))
        for p in w.chain:
            w.learn(('P', p, 'cb'), True)
    o = reg(w)
    return [(st, slc(o['B'], o['E']))]


def reg(w):
    out = {}
    for x in w.o:
        if x[0] == 'P':
            out[x[2]] = x[1]
        else:
            out[x[0]] = x[1]
    return out


def setreg(w, **kw):
    out = []
    for x in w.o:
        n = x[2] if x[0] == 'P' else x[0]
        if n in kw:
            v = kw.pop(n)
            out.append(('P', v, n) if x[0] == 'P' else (n, v))
        else:
            out.append(x)
    for n, v in kw.items():
        out.append((n, v))
    w.o = tuple(out)


def insert(st, i, lo1, lo2):
    """a new position splitting gap i into distances of at least lo1 and lo2"""
    w = st.w
    q = w.newpos()
    a, b = w.gap[i]
    w.chain = w.chain[:i + 1] + (q,) + w.chain[i + 1:]
    w.gap = w.gap[:i] + ((lo1, b), (lo2, b)) + w.gap[i + 1:]
    return q


def m_size(it, st, b, args, ty, sp):
    """any size: within the input or beyond its end"""
    m_all(it, st, b, args, ty, sp)
    out = []
    s2 = st.copy()
    q = insert(s2, 0, 0, 0)
    setreg(s2.w, N=q)
    out.append((s2, dist(reg(s2.w)['B'], q)))
    w = st.w
    q = w.newpos()
    w.chain += (q,)
    w.gap += ((1, None),)
    setreg(w, N=q)
    out.append((st, dist(reg(w)['B'], q)))
    return out


def m_rest(it, st, b, args, ty, sp):
    m_all(it, st, b, args, ty, sp)
    q = insert(st, 0, 0, 0)
    setreg(st.w, N=q)
    st.w.learn(('P', q, 'cb'), True)
    return [(st, slc(q, reg(st.w)['E']))]


def advance(it, st, p, q):
    """the element at p of the rest up to q: [(state, None | (element, next position))]"""
    w = st.w
    out = []
    for s2, emp in compare(it, st, ({q: 1, p: -1} if p != q else {}, 0), 'Le'):
        if emp:
            out.append((s2, None))
            continue
        w2 = s2.w
        nx = w2.fact(('P', p, 'end'))
        if nx is not None and nx[1] in w2.chain:
            out.append((s2, nx[1]))
            continue
        lo, hi = (1, 4) if w2.spec.text else (1, 1)
        if hi == 1:
            x = resolve(s2, ({p: 1}, 1))
            if x is not None:
                out.append((s2, x))
                continue
        i = w2.index(p)
        ins = None
        if i + 1 < len(w2.chain):
            ins = w2.after(s2, p, lo, hi)
        for s3, x in ins or ():
            s3.w.learn(('P', x, 'cb'), True)
            s3.w.learn(('P', p, 'end'), ('P', x))
            out.append((s3, x))
    return out


def m_upred(it, st, b, args, ty, sp):
    """the predicate is asked about the tokens in order, up to the first one it rejects"""
    w = st.w
    r = reg(w)
    v = args[0]
    p = v[2] if v[0] == 'k' and v[1] == 'tk' else v[1][1] if v[0] == 'p' and v[1][0] == 'E' else None
    w.prog = True
    if p is None:
        it.note('the predicate is applied to an unknown value')
        return []
    if r['stop']:
        return bad(it, st, 'predicate applied after it rejected a token', 'the predicate is applied again although it rejected a token')
    x = w.eq_pos(p, r['scan'])
    if x is not True:
        return bad(it, st, 'predicate applied to another token', 'the predicate is applied to another token than the next one')
    if w.rng({r['E']: 1, p: -1}, 0)[0] < 1:
        return bad(it, st, 'read beyond the end', 'an element beyond the end of the input is read')
    out = []
    s2 = st.copy()
    setreg(s2.w, stop=1)
    s2.log('reject')
    out.append((s2, ('c', 0)))
    nx = w.fact(('P', p, 'end'))
    if nx is not None and nx[1] in w.chain:
        x = nx[1]
    else:
        x = resolve(st, ({p: 1}, 1))
    if x is None:
        it.note('unknown end of a token')
        return out
    setreg(w, scan=x)
    setreg(w, acc=1)
    st.log('accept')
    return out + [(st, ('c', 1))]


# ------------------------------------------------------------------ slices and strings
def bound(it, st, x):
    """is x a character boundary: [(state, bool)]"""
    w = st.w
    if not w.spec.text:
        return [(st, True)]
    for y in w.chain:
        if w.eq_pos(x, y) is True and w.fact(('P', y, 'cb')) is not None:
            return [(st, w.fact(('P', y, 'cb')))]
    # the ends of the input are boundaries
    r = reg(w)
    out = []
    todo = [st]
    for e in ('B', 'E'):
        nt = []
        for s in todo:
            for s2, t in compare(it, s, ({x: 1, r[e]: -1} if x != r[e] else {}, 0), 'Eq'):
                if t:
                    out.append((s2, True))
                else:
                    nt.append(s2)
        todo = nt
    for s in todo:
        lo = s.w.rng({r['E']: 1, x: -1}, 0)[0]
        if lo is not None and lo < 0:
            out.append((s, False))
            continue
        for t in (True, False):
            s2 = s.copy()
            s2.w.learn(('P', x, 'cb'), t)
            out.append((s2, t))
    return out


def within(it, st, p, n, k):
    """split [p, p+n) at k: [(state, position | None when out of bounds | False when within a character)]"""
    out = []
    for s, ok in compare(it, st, add(k, n, -1), 'Le'):
        if not ok:
            out.append((s, None))
            continue
        x = resolve(s, add(({p: 1}, 0), k))
        if x is None:
            it.note('split at an unknown position')
            continue
        for s2, t in bound(it, s, x):
            out.append((s2, x if t else False))
    return out


def split(it, st, v, k, mode, ty):
    f = fat(it, v)
    k = lin(k)
    if f is None or k is None:
        return None
    p, n = f
    q = end_of(st, p, n)
    if q is None:
        return None
    out = []
    for s, x in within(it, st, p, n, k):
        if x is None or x is False:
            if mode == 'checked':
                out.append((s, none(it, ty)))
            elif mode == 'unchecked':
                it.violate(s, 'unchecked split out of bounds', 'an unchecked split is out of bounds or within a character (at %s)' % it.where(s))
            else:
                it.panic(s, 'split out of bounds', True)
            continue
        pair = ('a', None, 0, (slc(p, x), slc(x, q)))
        out.append((s, some(it, ty, pair) if mode == 'checked' else pair))
    return out


def m_split(mode):
    return lambda it, st, b, args, ty, sp: split(it, st, args[0], args[1], mode, ty)


RNG = {'Range': (0, 1, 0), 'RangeTo': (None, 0, 0), 'RangeFrom': (0, None, 0), 'RangeFull': (None, None, 0), 'RangeInclusive': (0, 1, 1),
       'RangeToInclusive': (None, 0, 1)}


def bounds_of(it, v, n):
    """(from, to) linear forms of a range value"""
    if v[0] != 'a' or v[1] is None:
        return None
    name = (it.P.types[v[1]].get('n') or '').split('<')[0].split('::')[-1]
    if name not in RNG:
        return None
    a, b, inc = RNG[name]
    lo = ({}, 0) if a is None else lin(v[3][a])
    hi = n if b is None else lin(v[3][b])
    if lo is None or hi is None:
        return None
    return lo, add(hi, ({}, inc))


def sub(it, st, v, idx, mode, ty):
    """get / get_unchecked / index"""
    f = fat(it, v)
    if f is None:
        return None
    p, n = f
    k = lin(idx)
    out = []

    def no(s):
        if mode == 'get':
            out.append((s, none(it, ty)))
        elif mode == 'unchecked':
            it.violate(s, 'unchecked access out of bounds', 'an unchecked access is out of bounds (at %s)' % it.where(s))
        else:
            it.panic(s, 'index out of bounds', True)
    def vague(*ds):
        # not a place relative to the input: what the comparison says may not be possible
        if any(isinstance(x, tuple) and is_label(x) and x[2][0] == 'rem' for d in ds for x in d[0]):
            it.guess(st)
    if k is not None:
        vague(k)
        for s, ok in compare(it, st, add(k, n, -1), 'Lt'):
            if not ok:
                no(s)
                continue
            x = resolve(s, add(({p: 1}, 0), k))
            if x is None:
                it.note('access to an unknown position')
                continue
            r = ('p', ('E', x), (), None)
            out.append((s, some(it, ty, r) if mode == 'get' else r))
        return out
    bs = bounds_of(it, idx, n)
    if bs is None:
        return None
    lo, hi = bs
    vague(lo, hi)
    for s, ok in compare(it, st, add(lo, hi, -1), 'Le'):
        if not ok:
            no(s)
            continue
        for s2, ok2 in compare(it, s, add(hi, n, -1), 'Le'):
            if not ok2:
                no(s2)
                continue
            x, y = resolve(s2, add(({p: 1}, 0), lo)), resolve(s2, add(({p: 1}, 0), hi))
            if x is None or y is None:
                it.note('access to an unknown position')
                continue
            for s3, t in bound(it, s2, x):
                for s4, u in (bound(it, s3, y) if t else [(s3, False)]):
                    if not u:
                        no(s4)
                    else:
                        out.append((s4, some(it, ty, slc(x, y)) if mode == 'get' else slc(x, y)))
    return out


def m_sub(mode, swap=False):
    if swap:
        return lambda it, st, b, args, ty, sp: sub(it, st, args[1], args[0], mode, ty)
    return lambda it, st, b, args, ty, sp: sub(it, st, args[0], args[1], mode, ty)


def m_first(it, st, b, args, ty, sp):
    f = fat(it, args[0])
    if f is None:
        return None
    p, n = f
    return [(s, none(it, ty) if e else some(it, ty, ('p', ('E', p), (), None))) for s, e in compare(it, st, n, 'Eq')]


def m_split_first(it, st, b, args, ty, sp):
    f = fat(it, args[0])
    if f is None:
        return None
    p, n = f
    out = []
    for s, e in compare(it, st, n, 'Eq'):
        if e:
            out.append((s, none(it, ty)))
            continue
        x = resolve(s, ({p: 1}, 1))
        q = end_of(s, p, n)
        if x is None or q is None:
            it.note('split_first of an unknown slice')
            continue
        out.append((s, some(it, ty, ('a', None, 0, (('p', ('E', p), (), None), slc(x, q))))))
    return out


def m_boundary(it, st, b, args, ty, sp):
    f = fat(it, args[0])
    k = lin(args[1])
    if f is None or k is None:
        return None
    p, n = f
    return [(s, ('c', int(x is not None and x is not False))) for s, x in within(it, st, p, n, k)]


def read_byte(it, st, v):
    return None


# ------------------------------------------------------------------ iterators
def m_iter(it, st, b, args, ty, sp):
    f = fat(it, args[0])
    if f is None:
        return model.m_slice_iter(it, st, b, args, ty, sp)
    p, n = f
    q = end_of(st, p, n)
    if q is None:
        return None
    return [(st, iter_val(it, ty, p, q))]


def iter_val(it, ty, p, q):
    """std's iterator structures over the input from p to q"""
    t = it.P.types[ty]
    if t['k'] != 'adt':
        return ('p', ('E', p), (), None)
    n = (t.get('n') or '').split('<')[0]
    fs = [f[1] for f in t['vs'][0]['f']]
    if n.endswith('slice::Iter'):
        return ('a', ty, 0, (iter_val(it, fs[0], p, q), ('p', ('E', q), (), None)) + (UNIT,) * (len(fs) - 2))
    return ('a', ty, 0, tuple(iter_val(it, f, p, q) for f in fs))


def m_chars(it, st, b, args, ty, sp):
    f = fat(it, args[0])
    if f is None:
        return None
    q = end_of(st, *f)
    return None if q is None else [(st, iter_val(it, ty, f[0], q))]


def tok(it, st, a):
    """the iterator behind a pointer to Iter or Chars (from, to), and how to store it back"""
    v = cells(it, st, a)
    w = v
    n = 0
    while w[0] == 'a' and w[3] and n < 4:
        if len(w[3]) >= 2:
            p, q = it.unwrap_ptr(w[3][0]), it.unwrap_ptr(w[3][1])
            if p[0] == 'p' and p[1][0] == 'E' and q[0] == 'p' and q[1][0] == 'E':
                def put(p2, v=v, w=w):
                    def wrap(x, q):
                        return ('a', x[1], x[2], (wrap(x[3][0], q),)) if x[0] == 'a' else ('p', ('E', q), (), None)
                    if v is w:
                        return ('a', v[1], v[2], (wrap(v[3][0], p2),) + v[3][1:])
                    return ('a', v[1], v[2], (put(p2, v[3][0], w),) + v[3][1:])
                return p[1][1], q[1][1], put
        w = w[3][0]
        n += 1
    return None


sit_next = model.m_sit_next(False)


def m_it_next(it, st, b, args, ty, sp):
    t = tok(it, st, args[0])
    if t is None:
        st.w.prog = True
        return sit_next(it, st, b, args, ty, sp)
    p, q, put = t
    chars = 'Chars' in b['path']
    st.w.prog = True
    if st.w.spec.text and not chars:
        return m_byte_next(it, st, args, ty, t)
    out = []
    for s, x in advance(it, st, p, q):
        if x is None:
            out.append((s, none(it, ty)))
            continue
        a = args[0]
        it.write(s, a[1], a[2], put(x))
        h = s.w.spec.on_char
        v = ('k', 'tk', p) if chars else ('p', ('E', p), (), None)
        for s2 in (h(it, s, p) if h else [s]):
            out.append((s2, some(it, ty, v)))
    return out


def m_byte_next(it, st, args, ty, t):
    """one byte of a text"""
    p, q, put = t
    out = []
    for s, emp in compare(it, st, ({q: 1, p: -1} if p != q else {}, 0), 'Le'):
        if emp:
            out.append((s, none(it, ty)))
            continue
        x = resolve(s, ({p: 1}, 1))
        if x is None:
            it.note('bytes of a text')
            continue
        a = args[0]
        it.write(s, a[1], a[2], put(x))
        h = s.w.spec.on_byte
        for s2 in (h(it, s, p, x) if h else [s]):
            out.append((s2, some(it, ty, ('p', ('E', p), (), None))))
    return out


def m_as_slice(it, st, b, args, ty, sp):
    t = tok(it, st, args[0])
    if t is None:
        return None
    return [(st, slc(t[0], t[1]))]


def m_it_len(it, st, b, args, ty, sp):
    t = tok(it, st, args[0])
    if t is None:
        return model.m_sit_hint(it, st, b, args, ty, sp)
    return [(st, dist(t[0], t[1]))]


def m_len_utf8(it, st, b, args, ty, sp):
    v = args[0]
    if v[0] == 'k' and v[1] == 'tk':
        x = st.w.fact(('P', v[2], 'end'))
        if x is not None and x[1] in st.w.chain:
            return [(st, dist(v[2], x[1]))]
    return [(st, ('t', ty))]


def m_offset(sign):
    def m(it, st, b, args, ty, sp):
        p, k = it.unwrap_ptr(args[0]), lin(args[1])
        if p[0] != 'p' or p[1][0] != 'E' or k is None:
            return None
        x = resolve(st, add(({p[1][1]: 1}, 0), k, sign))
        if x is None:
            it.note('unknown pointer')
            return [(st, ('t', ty))]
        return [(st, ('p', ('E', x), (), p[3]))]
    return m


def m_offset_from(it, st, b, args, ty, sp):
    p, q = it.unwrap_ptr(args[0]), it.unwrap_ptr(args[1])
    if p[0] == q[0] == 'p' and p[1][0] == q[1][0] == 'E':
        return [(st, dist(q[1][1], p[1][1]))]
    return None


def m_num(it, st, b, args, ty, sp):
    t = it.P.types[ty]
    k = args[0][1]
    if t['k'] in ('char',) or t['k'] == 'uint' and t['w'] == 8:
        return [(st, lab('num', k))]
    return [(st, sym('~%d' % k))]


M = {
    'opq::sl_all': m_all, 'opq::sl_size': m_size, 'opq::sl_rest': m_rest, 'opq::upred': m_upred, 'opq::num': m_num,
    'core::slice::<impl [T]>::split_at': m_split('panic'), 'core::str::<impl str>::split_at': m_split('panic'),
    'core::slice::<impl [T]>::split_at_checked': m_split('checked'), 'core::str::<impl str>::split_at_checked': m_split('checked'),
    'core::slice::<impl [T]>::split_at_unchecked': m_split('unchecked'), 'core::str::<impl str>::split_at_unchecked': m_split('unchecked'),
    'core::slice::<impl [T]>::get': m_sub('get'), 'core::str::<impl str>::get': m_sub('get'),
    'core::slice::<impl [T]>::get_unchecked': m_sub('unchecked'), 'core::str::<impl str>::get_unchecked': m_sub('unchecked'),
    'core::slice::index::<impl std::ops::Index<I> for [T]>::index': m_sub('index'),
    'core::str::traits::<impl std::ops::Index<I> for str>::index': m_sub('index'),
    'core::slice::<impl [T]>::first': m_first, 'core::slice::<impl [T]>::split_first': m_split_first,
    'core::str::<impl str>::is_char_boundary': m_boundary,
    'core::slice::<impl [T]>::iter': m_iter, 'core::str::<impl str>::chars': m_chars,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::next": m_it_next,
    "<std::str::Chars<'a> as std::iter::Iterator>::next": m_it_next,
    "std::slice::Iter::<'a, T>::as_slice": m_as_slice, "std::slice::Iter::<'a, T>::make_slice": m_as_slice,
    "std::str::Chars::<'a>::as_str": m_as_slice,
    "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len": m_it_len,
    'std::iter::ExactSizeIterator::len': m_it_len,
    'std::intrinsics::ptr_offset_from_unsigned': m_offset_from, 'std::intrinsics::ptr_offset_from': m_offset_from,
    'std::char::methods::<impl char>::len_utf8': m_len_utf8,
    'std::ptr::const_ptr::<impl *const T>::add': m_offset(1), 'std::ptr::const_ptr::<impl *const T>::sub': m_offset(-1),
}
for _q in ("&'a [T]",):
    M["core::slice::iter::<impl std::iter::IntoIterator for %s>::into_iter" % _q] = m_iter


def normal(w, it, st):
    """numbers that are the distance to the scan position are written that way; long known distances are forgotten"""
    r = reg(w)
    if 'scan' not in r:
        return
    B, S = r['B'], r['scan']
    if B != S and w.eq_pos(B, S) is not True:
        def fix(v, ty):
            k = it.P.types[ty] if ty is not None else None
            if k is not None and k['k'] == 'uint' and k['w'] == 64 and v[0] in ('c', 'k'):
                x = lin(v) if v[0] == 'k' and v[1] == 'ln' or v[0] == 'c' and isinstance(v[1], int) and v[1] > 0 else None
                if x is not None and w.rng(*add(x, ({S: 1, B: -1}, 0), -1)) == (0, 0):
                    return dist(B, S)
            if v[0] == 'a' and isinstance(v[3], tuple):
                return ('a', v[1], v[2], tuple(fix(x, it.fieldty(v[1], v[2], i)) for i, x in enumerate(v[3])))
            return v
        for f in st.fr:
            ls = it.P.insts[f.inst]['locals']
            for i, v in enumerate(f.loc):
                if v[0] in ('c', 'k', 'a'):
                    f.loc[i] = fix(v, ls[i])
        # how far it is from the start does not matter
        i, j = w.index(B), w.index(S)
        if j == i + 1 and w.gap[i][0] >= 2:
            w.gap = w.gap[:i] + ((2, None),) + w.gap[i + 1:]
