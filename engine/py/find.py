"""Searching the input: for bytes (memchr) and for matches of regular expressions (see lin.py and sl.py).

The input is memory of any length; what a search may answer is any position it can answer, so the parsers
are decided for every input, every needle and every expression at once.
"""
from lin import *
import model
from sl import reg, insert, slc, fat, end_of, some, none, M as SLM

TRIM = 2


def emit(it, name, fa, outs):
    """the event with its outcomes [(state, value, frozen outcome)]"""
    r = []
    for s, v, fz in outs:
        s.w.tr = s.w.tr + ((name, fa, fz),)
        s.w.prog = True
        s.log(name, show(fz))
        if judge(it, s):
            r.append((s, v))
    return r


def places(st, p, q, last):
    """[(state, x)] for every place p <= x < q (x <= q when last)"""
    w = st.w
    out = []
    i, j = w.index(p), w.index(q)
    for k in range(i, j):
        a, b = w.gap[k]
        if b == 0:
            continue
        s = st.copy()
        x = insert(s, k, 0, 1)
        if b is not None:
            s.w.restrict(k, None, b - 1)
        out.append((s, x))
    if last:
        s = st.copy()
        out.append((s, q))
    for s, x in out:
        if s.w.spec.text:
            s.w.learn(('P', x, 'cb'), True)
    return out


def m_off(it, st, b, args, ty, sp):
    """what was searched before: a part of the input"""
    q = insert(st, 0, 0, 0)
    st.w.o = st.w.o + (('P', q, 'S'),)
    return [(st, dist(reg(st.w)['B'], q))]


def m_needle(it, st, b, args, ty, sp):
    """bytes somewhere else in memory, as many as wanted"""
    import sl
    w = st.w
    p, q = w.newpos(), w.newpos()
    if not w.chain:
        sl.m_all(it, st, b, args, ty, sp)
    w.chain += (p, q)
    w.gap += ((1, None), (w.spec.needle, None))
    w.o = w.o + (('P', p, 'NB'), ('P', q, 'NE'))
    return [(st, slc(p, q))]


def span(it, st, v):
    f = fat(it, v)
    q = end_of(st, *f) if f else None
    return None if q is None else (f[0], q)


def frontier(w):
    """everything before it was found not to be what is searched for"""
    r = reg(w)
    return r.get('F', r.get('S', r['B']))


def put(w, name, q):
    w.o = tuple(x for x in w.o if x[0] != 'P' or x[2] != name) + ((('P', q, name),) if q is not None else ())


def hopeless(it, st):
    """the rest after the frontier is too short for the needle"""
    r = reg(st.w)
    if 'NB' not in r:
        return st.w.eq_pos(frontier(st.w), r['E']) is True
    F = frontier(st.w)
    d = add(({F: 1, r['E']: -1} if F != r['E'] else {}, 0), ({r['NE']: 1, r['NB']: -1}, 0))
    return all(x for _, x in compare(it, st.copy(), d, 'Gt'))


def wanted(it, st, vs):
    """are these the bytes which have to be searched for: all of them or the first of the needle"""
    r = reg(st.w)
    if 'NB' in r:
        v = vs[0]
        return len(vs) == 1 and (v == ('k', 'tk', r['NB']) or v[:3] == ('p', ('E', r['NB']), ()))
    return sorted(map(str, vs)) == sorted(map(str, st.w.spec.want))


def seek(it, st, p, q, vs):
    """a search of [p, q) for the bytes vs: [(state, place or None)]"""
    w = st.w
    ok = wanted(it, st, vs)
    out = []
    F = frontier(w)
    d = ({p: 1, F: -1} if p != F else {}, 0)
    ok = ok and all(x for _, x in compare(it, st.copy(), d, 'Le'))
    s = st.copy()
    if ok:
        put(s.w, 'F', q)
        put(s.w, 'X', None)
        put(s.w, 'M', None)
    out.append((s, None))
    for s, x in places(st, p, q, False):
        if ok:
            # the first one: nothing before it
            c = [t for _, t in compare(it, s.copy(), ({x: 1, F: -1} if x != F else {}, 0), 'Ge')]
            if c == [False]:
                continue            # before the frontier there is none
            put(s.w, 'F', x)
            put(s.w, 'X', x)
            r = reg(s.w)
            if 'NB' in r:
                put(s.w, 'M', resolve(s, ({r['NB']: 1}, 1)))
        out.append((s, x))
    for s, x in out:
        s.w.prog = True
        s.log('search', 'found' if x is not None else 'nothing')
    return out


def m_memchr(it, st, b, args, ty, sp):
    r = span(it, st, args[-1])
    if r is None:
        return None
    p, q = r
    vs = [freeze(it, st, v) for v in args[:-1]]
    return [(s, none(it, ty) if x is None else some(it, ty, dist(p, x))) for s, x in seek(it, st, p, q, vs)]


def m_memchr_iter(it, st, b, args, ty, sp):
    r = span(it, st, args[-1])
    if r is None:
        return None
    p, q = r
    return [(st, lab('memchr iter', None, (slc(p, q), ('P', p), freeze(it, st, args[0]))))]


def m_memmem(it, st, b, args, ty, sp):
    r, n = span(it, st, args[0]), span(it, st, args[1])
    g = reg(st.w)
    if r is None or n is None or 'NB' not in g:
        return None
    F = frontier(st.w)
    whole = st.w.eq_pos(n[0], g['NB']) is True and st.w.eq_pos(n[1], g['NE']) is True and st.w.eq_pos(r[1], g['E']) is True \
        and all(x for _, x in compare(it, st.copy(), ({r[0]: 1, F: -1} if r[0] != F else {}, 0), 'Le'))
    out = []
    for s, x in [(st.copy(), None)] + places(st, *r, True):
        if whole:
            put(s.w, 'F', g['E'] if x is None else x)
            put(s.w, 'X', x)
            put(s.w, 'M', None if x is None else g['NE'])
        s.w.prog = True
        s.log('search for the needle', 'nothing' if x is None else 'found')
        out.append((s, none(it, ty) if x is None else some(it, ty, dist(r[0], x))))
    return out


def iterator(it, st, a, name):
    p = it.unwrap_ptr(a)
    v = it.read(st, p[1], p[2]) if p[0] == 'p' else p
    return (p, v[2][2]) if is_label(v) and v[2][0] == name else (p, None)


def m_memchr_next(it, st, b, args, ty, sp):
    a, r = iterator(it, st, args[0], 'memchr iter')
    if r is None:
        return None
    hay, (_, cur), n = r
    p = hay[1][1]
    q = end_of(st, p, lin(hay[3][1]))
    outs = []
    for s, x in seek(it, st, cur, q, [n]):
        if x is None:
            outs.append((s, none(it, ty)))
            continue
        y = resolve(s, ({x: 1}, 1))
        it.write(s, a[1], a[2], lab('memchr iter', None, (hay, ('P', y), n)))
        outs.append((s, some(it, ty, dist(p, x))))
    return outs


def m_windows(it, st, b, args, ty, sp):
    r, n = span(it, st, args[0]), lin(args[1])
    if r is None or n is None:
        return None
    out = []
    for s, t in compare(it, st, n, 'Le'):
        if t:
            s.w.on_panic(it, s, it.P.insts[s.fr[-1].inst]['path'], 'window size of zero', True)
        else:
            out.append((s, lab('windows', None, (slc(*r), ('P', r[0]), args[1]))))
    return out


def m_window(it, st, b, args, ty, sp):
    a, r = iterator(it, st, args[0], 'windows')
    if r is None:
        return None
    hay, (_, cur), n = r
    q = end_of(st, hay[1][1], lin(hay[3][1]))
    L = add(({q: 1, cur: -1} if q != cur else {}, 0), lin(n), -1)
    outs = []
    for s, t in compare(it, st, L, 'Ge'):
        s.w.prog = True
        if not t:
            outs.append((s, none(it, ty)))
            continue
        e = resolve(s, add(({cur: 1}, 0), lin(n)))
        y = resolve(s, ({cur: 1}, 1))
        if e is None or y is None:
            return None
        it.write(s, a[1], a[2], lab('windows', None, (hay, ('P', y), n)))
        outs.append((s, some(it, ty, slc(cur, e))))
    return outs


def compared(it, st, y, q, z, e):
    """the bytes [y, q) of the input are compared with [z, e) of the needle: [(state, equal)]"""
    r = reg(st.w)
    n = ({e: 1, z: -1} if e != z else {}, 0)
    if st.w.rng(*n) == (0, 0):
        return [(st, True)]
    known = False
    if 'X' not in r and 'NB' in r and z == r['NB'] and st.w.eq_pos(y, frontier(st.w)) is True:
        put(st.w, 'X', y)           # the first place which is not excluded is looked at
        put(st.w, 'M', r['NB'])
        r = reg(st.w)
    if 'X' in r and r.get('M') is not None:
        X, NB, M = r['X'], r['NB'], r['M']
        off = add(({y: 1, X: -1} if y != X else {}, 0), ({z: 1, NB: -1} if z != NB else {}, 0), -1)
        known = st.w.rng(*off) == (0, 0)
    yes, no = st.copy(), st.copy()
    if known:
        if all(x for _, x in compare(it, st.copy(), ({z: 1, M: -1} if z != M else {}, 0), 'Le')) \
                and all(x for _, x in compare(it, st.copy(), ({e: 1, M: -1} if e != M else {}, 0), 'Ge')):
            put(yes.w, 'M', e)
        F = resolve(no, ({X: 1}, 1))
        put(no.w, 'X', None)
        put(no.w, 'M', None)
        if F is not None:
            put(no.w, 'F', F)
    out = []
    for s, t in ((yes, True), (no, False)):
        s.w.prog = True
        s.log('compare', t)
        out.append((s, t))
    return out


def m_starts_with(it, st, b, args, ty, sp):
    r, n = span(it, st, args[0]), span(it, st, args[1])
    if r is None or n is None:
        return None
    return [(s, ('c', int(t))) for s, t in compared(it, st, *r, *n)]


def m_slice_eq(it, st, b, args, ty, sp):
    r, n = span(it, st, deref2(it, st, args[0])), span(it, st, deref2(it, st, args[1]))
    if r is None or n is None:
        return None
    if 'NB' in reg(st.w) and r[0] in needle(st.w):
        r, n = n, r
    L = add(({r[1]: 1, r[0]: -1} if r[0] != r[1] else {}, 0), ({n[1]: 1, n[0]: -1} if n[0] != n[1] else {}, 0), -1)
    out = []
    for s, same_ in compare(it, st, L, 'Eq'):
        out += [(s2, ('c', int(t))) for s2, t in compared(it, s, *r, *n)] if same_ else [(s, ('c', 0))]
    return out


def needle(w):
    r = reg(w)
    return w.chain[w.index(r['NB']):] if 'NB' in r else ()


def deref2(it, st, v):
    f = fat(it, v)
    if f is None:
        p = it.unwrap_ptr(v)
        if p[0] == 'p' and p[1][0] != 'E':
            return it.read(st, p[1], p[2])
    return v


# ------------------------------------------------------------------ regular expressions
def m_is_match(it, st, b, args, ty, sp):
    r = span(it, st, args[1])
    if r is None:
        return None
    return emit(it, 'is_match', (slc(*r),), [(st.copy(), ('c', 1), ('c', 1)), (st, ('c', 0), ('c', 0))])


def m_matches(name):
    def m(it, st, b, args, ty, sp):
        r = span(it, st, args[1])
        if r is None:
            return None
        return [(st, lab(name, None, (slc(*r), ('P', r[0]))))]
    return m


def match(h, s, e):
    return lab('match', None, (slc(s, e), ('P', h)))


def matches_after(st, hay, cur):
    """[(state, match, its end)] for every match after cur"""
    h = hay[1][1]
    q = end_of(st, h, lin(hay[3][1]))
    for s, x in places(st, cur, q, True):
        for s2, y in places(s, x, q, True):
            yield s2, match(h, x, y), y


def m_match_next(name, what):
    def m(it, st, b, args, ty, sp):
        a, r = iterator(it, st, args[0], name)
        if r is None:
            return None
        hay, (_, cur) = r
        outs = [(st.copy(), none(it, ty), ('None',))]
        for s, m, y in matches_after(st, hay, cur):
            it.write(s, a[1], a[2], lab(name, None, (hay, ('P', y))))
            outs.append((s, some(it, ty, m if what == 'match' else lab('captures', None, m[2][2])), ('Some',) + m[2][2]))
        return emit(it, what, (hay, ('P', cur)), outs)
    return m


def m_first_match(what):
    def m(it, st, b, args, ty, sp):
        r = span(it, st, args[1])
        if r is None:
            return None
        hay = slc(*r)
        outs = [(st.copy(), none(it, ty), ('None',))]
        outs += [(s, some(it, ty, m if what == 'match' else lab('captures', None, m[2][2])), ('Some',) + m[2][2]) for s, m, y in matches_after(st, hay, r[0])]
        return emit(it, what, (hay, ('P', r[0])), outs)
    return m


def parts(it, st, a, *names):
    v = it.unwrap_ptr(a)
    if v[0] == 'p':
        v = it.read(st, v[1], v[2])
    return v[2][2] if is_label(v) and v[2][0] in names else None


def m_end(which):
    def m(it, st, b, args, ty, sp):
        r = parts(it, st, args[0], 'match')
        if r is None:
            return None
        s, (_, h) = r
        x = s[1][1]
        if which == 'end':
            x = end_of(st, x, lin(s[3][1]))
        return [(st, s[3][1] if which == 'len' else dist(h, x))]
    return m


def m_as(it, st, b, args, ty, sp):
    r = parts(it, st, args[0], 'match')
    return None if r is None else [(st, r[0])]


def m_cap_iter(it, st, b, args, ty, sp):
    r = parts(it, st, args[0], 'captures')
    return None if r is None else [(st, lab('groups', None, r + (0,)))]


def group(st, s, h):
    """[(state, match)] a part of the match s, ending with it (nothing depends on where a group ends)"""
    p = s[1][1]
    q = end_of(st, p, lin(s[3][1]))
    return [(s2, match(h, x, q)) for s2, x in places(st, p, q, True)]


def m_cap_next(it, st, b, args, ty, sp):
    a, r = iterator(it, st, args[0], 'groups')
    if r is None:
        return None
    s, (_, h), n = r
    t = it.P.types[ty]
    inner = next(f[1] for v in t['vs'] for f in v['f'])
    it.write(st, a[1], a[2], lab('groups', None, (s, ('P', h), 1)))
    if n == 0:
        return emit(it, 'group', (), [(st, some(it, ty, some(it, inner, lab('match', None, (s, ('P', h))))), ('Some', s))])
    outs = [(st.copy(), none(it, ty), ('None',)), (st.copy(), some(it, ty, none(it, inner)), ('Missing',))]
    outs += [(s2, some(it, ty, some(it, inner, m)), ('Some', m[2][2][0])) for s2, m in group(st, s, h)]
    return emit(it, 'group', (), outs)


def m_pick(it, st, b, args, ty, sp):
    return emit(it, 'pick', (freeze(it, st, args[0]),), [(st, UNIT, ('',))])


M = dict(SLM)
M.update({'opq::sl_off': m_off, 'opq::needle': m_needle, 'opq::pick': m_pick,
          'memchr::memchr::memchr_iter': m_memchr_iter, "<memchr::memchr::Memchr<'h> as std::iter::Iterator>::next": m_memchr_next,
          'core::slice::<impl [T]>::starts_with': m_starts_with})
for _n in ("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq",):
    M[_n] = m_slice_eq
M['memchr::memmem::find'] = m_memmem
M['core::slice::<impl [T]>::windows'] = m_windows
M["<std::slice::Windows<'a, T> as std::iter::Iterator>::next"] = m_window
for _n in ('memchr', 'memchr2', 'memchr3'):
    M['memchr::memchr::' + _n] = m_memchr
for _p in ('regex::', 'regex::bytes::'):
    M[_p + 'Regex::is_match'] = m_is_match
    M[_p + 'Regex::find_iter'] = m_matches('matches')
    M[_p + 'Regex::captures_iter'] = m_matches('all captures')
    M[_p + 'Regex::find'] = m_first_match('match')
    M[_p + 'Regex::captures'] = m_first_match('captures')
    M["<%sMatches<'r, 'h> as std::iter::Iterator>::next" % _p] = m_match_next('matches', 'match')
    M["<%sCaptureMatches<'r, 'h> as std::iter::Iterator>::next" % _p] = m_match_next('all captures', 'captures')
    M["<%sSubCaptureMatches<'c, 'h> as std::iter::Iterator>::next" % _p] = m_cap_next
    M[_p + "Captures::<'h>::iter"] = m_cap_iter
    for _k in ('end', 'start', 'len'):
        M[_p + "Match::<'h>::" + _k] = m_end(_k)
    M[_p + "Match::<'h>::as_str"] = M[_p + "Match::<'h>::as_bytes"] = m_as


# ------------------------------------------------------------------ oracles
def same(E, d):
    r = E.w.rng(*d)
    return r == (0, 0)


def is_slice(E, p, q):
    def f(v):
        if not (isinstance(v, tuple) and v and v[0] == 'p' and v[1][0] == 'E' and v[3] is not None):
            return False
        n = lin(v[3][1])
        return E.w.eq_pos(v[1][1], p) is True and n is not None and same(E, add(n, ({q: 1, p: -1} if p != q else {}, 0), -1))
    return f


def at_most(E, d):
    """d <= 0 whatever happens"""
    return all(x for _, x in compare(E.it, E.st.copy(), d, 'Le'))


def consumed(E, x, val, rest2=None):
    """success with val; everything before x is consumed"""
    r = reg(E.w)
    B, End = r['B'], r['E']
    kinds = ('PeekOk',) if E.w.eq_pos(B, x) is True else ('CommitOk',) if E.w.eq_pos(B, x) is False else ('PeekOk', 'CommitOk')
    rest = is_slice(E, x, End)
    E.ret(lambda v: v[0] in kinds and fits(val, v[1]), (lambda v: v[0] == '' and rest(v[1])) if rest2 else rest)


def untouched(E, kinds, state=None):
    r = reg(E.w)
    rest = is_slice(E, r['B'], r['E'])

    def right(v):
        return v[0] == '' and len(v) == 3 and rest(v[1]) and state(v[2])
    E.ret(lambda v: v[0] in kinds, right if state else rest)


def search(partial):
    def o(E):
        r = reg(E.w)
        B, End, S = r['B'], r['E'], r.get('S', r['B'])
        L = None
        if 'NB' in r:
            L = ({r['NE']: 1, r['NB']: -1}, 0)
            if [x for _, x in compare(E.it, E.st.copy(), L, 'Eq')] == [True]:
                return consumed(E, B, is_slice(E, B, B), True)
        E.peek()
        X = r.get('X')
        if X is not None and (L is None or r.get('M') is not None and E.w.eq_pos(r['M'], r['NE']) is True):
            return consumed(E, X, is_slice(E, B, X), True)
        if not hopeless(E.it, E.st):
            if E.peek()[1][0][0] in ('PeekOk', 'CommitOk'):
                raise Bad('a place is returned at which nothing was found')
            raise Bad('a part of the input is not searched')

        def state(v):
            d = lin(v)
            if d is None:
                raise Unknown()
            if not partial:
                return True
            # what is left out when the search goes on: nothing that could be the start of a match
            d = add(d, ({End: 1, B: -1} if End != B else {}, 0), -1)
            if L is not None:
                d2 = add(add(d, L), ({}, -1))
                if at_most(E, d2):
                    return True
                d = add(lin(v), ({S: 1, B: -1} if S != B else {}, 0), -1)
            return at_most(E, d)
        untouched(E, ('CommitErr',) if partial else ('PeekErr', 'CommitErr'), state)
    return o


def whole_input(E, hay):
    r = reg(E.w)
    if not is_slice(E, r['B'], r['E'])(hay):
        raise Bad('another part of the input than the rest is matched')


def o_match(E):
    n, a, _ = E.peek()
    r = reg(E.w)
    if E.ev('is_match') == ('c', 1):
        whole_input(E, a[0])
        rest = is_slice(E, r['B'], r['E'])
        return E.ret(lambda v: v[0] == 'PeekOk' and rest(v[1]), rest)
    whole_input(E, a[0])
    untouched(E, ('PeekErr',))


def ends(E, m):
    return end_of(E.st, m[1][1], lin(m[3][1]))


def like(E, m):
    return is_slice(E, m[1][1], ends(E, m))


def next_match(E, what):
    n, a, _ = E.peek()
    r = E.ev(what)
    whole_input(E, a[0])
    return None if r[0] == 'None' else r[1]


def o_find(E):
    m = next_match(E, 'match')
    if m is None:
        return untouched(E, ('PeekErr',))
    consumed(E, ends(E, m), like(E, m))


def o_find_many(E):
    end = reg(E.w)['B']
    while True:
        m = next_match(E, 'match')
        if m is None:
            break
        E.ev('pick', like(E, m))
        end = ends(E, m)
    E.ev('pick', ('',))
    consumed(E, end, ANY)


def groups(E, m):
    while True:
        g = E.ev('group')
        if g[0] == 'None':
            break
        if g[0] == 'Some':
            E.ev('pick', like(E, g[1]))
    E.ev('pick', ('',))


def o_captures(E):
    m = next_match(E, 'captures')
    if m is None:
        return untouched(E, ('PeekErr',))
    groups(E, m)
    consumed(E, ends(E, m), ANY)


def o_captures_many(E):
    end = reg(E.w)['B']
    while True:
        m = next_match(E, 'captures')
        if m is None:
            break
        groups(E, m)
        E.ev('pick')
        end = ends(E, m)
    E.ev('pick', ('',))
    consumed(E, end, ANY)


def trim(w, it, st):
    """one representative round of a loop is enough: the oracle accepted the others"""
    w.gap = tuple((a if b is not None or a < 3 else 2, b) for a, b in w.gap)
    for what in ('group', 'match', 'captures'):
        js = [j for j, e in enumerate(w.tr) if e[0] == what and e[2] != ('None',)]
        if what == 'group' and js:
            js = [j for j in js if j > max([k for k, e in enumerate(w.tr) if e[0] == 'captures'], default=-1)]
        n = TRIM
        if len(js) >= n:
            w.tr = w.tr[:js[n - 2]] + w.tr[js[n - 1]:]


def register(L):
    import sl
    def S(n, o, **kw):
        L[n] = LSpec(o, models=M, normal=trim, elem=1, needle=kw.pop('needle', 0), bound=sl.bound, **kw)
    for n, k in (('byte1', 1), ('byte2', 2), ('byte3', 3)):
        want = [lab('num', j + 1) for j in range(k)]
        for m, p in (('first', False), ('part', True), ('more', True), ('last', False)):
            S('fd::%s::%s' % (n, m), search(p), want=tuple(want))
    for m, p in (('first', False), ('part', True), ('more', True), ('last', False)):
        S('fd::bytes::' + m, search(p), needle=int(m in ('more', 'last')))
    for k, text in (('rx_str', True), ('rx_bytes', False)):
        for n, o in (('match_', o_match), ('find', o_find), ('find_many', o_find_many), ('captures', o_captures), ('captures_many', o_captures_many)):
            S('fd::%s::%s' % (k, n), o, text=text)
