"""Oracles of the event and label analyses (lin.py)."""
from lin import *

L = {}


def S(name, oracle, **kw):
    L[name] = LSpec(oracle, **kw)


Z, Q, N = lab('new', 0), lab('new', 1), lab('new', 9)
OK0 = ('Ok', ('',))


def err(conv, r, k='p_conv_se'):
    """the same result, its error converted where the adapter has its own error type"""
    if not conv or r[0] in ('Ok', 'CommitOk', 'PeekOk'):
        return r
    if r[0] == 'PeekErr':
        return ('PeekErr', ('', lab(k, None, (r[1][1],)), ANY))
    return (r[0], lab(k, None, (r[1],)))


def adapter(name, objs, conv=False, pos=False, partial=None, span=False):
    objs = frozenset(objs)

    def S_(m, f):
        S('%s::%s' % (name, m), f)

    def keeps(v):
        return labels(v) == objs

    def uncons(E):
        r = E.ev('z_uncons', Z)
        if pos and r[0] == 'Ok':
            E.ev('q_update', Q, r[1])
        E.ret(err(conv, r), keeps)

    def is_partial(E):
        E.ret(('c', int(partial)) if partial is not None else E.pure('p_is_partial', Z), keeps)

    def position(E):
        p = E.pure('p_qposition', Q) if pos else E.pure('p_position', Z)
        E.ret(('', p, p) if span else p, keeps)

    def checkpoint(E):
        ck, qk = E.pure('p_checkpoint', Z), E.pure('p_qcheckpoint', Q)
        r = E.ev('z_uncons', Z)
        if pos and r[0] == 'Ok':
            E.ev('q_update', Q, r[1])
        if pos and E.peek()[0] == 'q_reset':
            E.ev('q_reset', Q, qk)
            r = E.ev('z_reset', Z, ck)
        else:
            r = E.ev('z_reset', Z, ck)
            if pos and r[0] == 'Ok':
                E.ev('q_reset', Q, qk)
        E.ret(err(conv, r, 'p_conv_er'), keeps)

    def uncons_range(E):
        r = E.ev('z_uncons_range', Z, N)
        if pos and r[0] == 'Ok':
            E.ev('q_update_range', Q, r[1])
        E.ret(err(conv, r), keeps)

    def scan(E, one):
        """-> was a token tested, was one accepted"""
        tested = acc = False
        while True:
            k = E.ev('zw_next', Z, ('c', one))
            if k[0] == 'None':
                break
            tested = True
            b = E.ev('upred', k[1])
            if b[1] and pos:
                E.ev('q_update', Q, k[1])
            E.ev('zw_judge', b)
            if not b[1]:
                break
            acc = True
        return tested, acc

    def uncons_while(E):
        scan(E, 0)
        r = E.ev('zw_end', Z)
        E.ret(err(conv, r), keeps)

    def uncons_while1(E):
        one = E.peek()[1][1]
        if one == ('c', 1):
            scan(E, 1)
            r = E.ev('zw1_end', Z)
            return E.ret(err(conv, r), keeps)
        tested, acc = scan(E, 0)
        r = E.ev('zw_end', Z)
        if acc:
            E.ret(err(conv, ('CommitOk' if r[0] == 'Ok' else 'CommitErr', r[1])), keeps)
        else:
            E.ret(lambda v: v[0] == 'PeekErr', keeps)

    S_('uncons', uncons)
    S_('is_partial', is_partial)
    S_('position', position)
    S_('checkpoint', checkpoint)
    S_('uncons_range', uncons_range)
    S_('uncons_while', uncons_while)
    S_('uncons_while1', uncons_while1)
    S_('distance', lambda E: E.ret(E.pure('p_distance', Z, E.pure('p_checkpoint', Z)), keeps))
    S_('range', lambda E: E.ret(E.pure('p_range', Z), keeps))


adapter('a_ref', [Z])
adapter('a_partial', [Z], partial=True)
adapter('a_complete', [Z], partial=False)
adapter('a_maybe_partial', [Z], partial=True)
adapter('a_maybe_complete', [Z], partial=False)
adapter('a_state', [Z, lab('new', 2)])
adapter('a_position', [Z, Q], pos=True)
adapter('a_position_ref', [Z, Q], pos=True)
adapter('a_easy', [Z], conv=True)
adapter('a_span', [Z], conv=True, span=True)


# ---------------------------------------------------------------------- streams over memory
import sl
from sl import slc, reg, advance


def C(name, oracle, text=False, **kw):
    S(name, oracle, models=sl.M, normal=sl.normal, elem=1 if text else 8, text=text, objects=(), bound=sl.bound, on_char=None, on_byte=None, **kw)


def fatp(v):
    """frozen slice"""
    return v


def eqv(E, v, want):
    """do the two values denote the same part of the input / the same number"""
    w = E.w
    if v[0] == 'p' and want[0] == 'p':
        if v[1][0] != 'E' or w.eq_pos(v[1][1], want[1][1]) is not True:
            return False
        if (v[3] is None) != (want[3] is None):
            return False
        return v[3] is None or eqv(E, v[3][1], want[3][1])
    x, y = lin(v), lin(want)
    if x is not None and y is not None:
        return E.w.rng(*add(x, y, -1)) == (0, 0)
    return v == want


def memory(name, text, wrap):
    errs = ('UnexpectedParse', 'Unexpected')

    def M_(m, f):
        C('%s::%s' % (name, m), f, text)

    def fin(E, r, rest, what='the result'):
        """done(r, stream)"""
        n, a, o = E.peek()
        if n != 'done':
            raise Bad('%s although everything was done' % n)
        v, s = a
        if wrap and s[0] == '' and len(s) == 2:
            s = s[1]
        if unknown(a):
            raise Unknown()
        if not eqv(E, s, rest):
            raise Bad('the input is left at another place than required')
        if not same(E, v, r):
            raise Bad('%s is not the required one: %s' % (what, show(v)))
        E.i += 1

    def same(E, v, r):
        if callable(r):
            return r(v)
        if isinstance(r, tuple) and r and r[0] in ('c', 'k', 'p'):
            return eqv(E, v, r)
        if r == ANY:
            return True
        if isinstance(r, tuple):
            return isinstance(v, tuple) and len(v) == len(r) and all(same(E, x, y) for x, y in zip(v, r))
        return v == r

    def empty(E):
        """is the input empty: the analysis must have found out"""
        g = reg(E.w)
        x = E.w.eq_pos(g['B'], g['E'])
        if x is None:
            raise Bad('the end of the input is not looked at')
        return x

    EOI = ('Err', ('Eoi',))

    def uncons(E):
        E.peek()
        g = reg(E.w)
        all_ = slc(g['B'], g['E'])
        if empty(E):
            return fin(E, EOI, all_)
        nx = E.w.fact(('P', g['B'], 'end'))
        x = nx[1] if nx else resolve(E.st, ({g['B']: 1}, 1))
        if x is None or x not in E.w.chain:
            raise Unknown()
        t = ('k', 'tk', g['B']) if name != 'c_sstream' else ('p', ('E', g['B']), (), None)
        fin(E, ('Ok', t), slc(x, g['E']))

    def checkpoint(E):
        E.peek()
        g = reg(E.w)
        fin(E, OK0, slc(g['B'], g['E']))

    def uncons_range(E):
        E.peek()
        w = E.w
        g = reg(w)
        over = w.rng({g['N']: 1, g['E']: -1}, 0)
        if over[0] is not None and over[0] >= 1:
            return fin(E, EOI, slc(g['B'], g['E']))
        cb = (not text) or any(w.eq_pos(g['N'], y) is True and w.fact(('P', y, 'cb')) for y in w.chain)
        if not cb:
            if any(w.eq_pos(g['N'], y) is True and w.fact(('P', y, 'cb')) is False for y in w.chain):
                return fin(E, ('Err', ('CharacterBoundary',)), slc(g['B'], g['E']))
            raise Bad('whether the size ends within a character is not looked at')
        fin(E, ('Ok', slc(g['B'], g['N'])), slc(g['N'], g['E']))

    def scanned(E):
        w = E.w
        g = reg(w)
        if not g['stop'] and w.eq_pos(g['scan'], g['E']) is not True:
            raise Bad('the scan ends before the predicate rejected a token')
        return g

    def uncons_while(E):
        E.peek()
        g = scanned(E)
        fin(E, ('Ok', slc(g['B'], g['scan'])), slc(g['scan'], g['E']))

    def uncons_while1(E):
        E.peek()
        g = scanned(E)
        if g.get('acc'):
            return fin(E, ('CommitOk', slc(g['B'], g['scan'])), slc(g['scan'], g['E']))
        fin(E, lambda v: v[0] == 'PeekErr' and (v[1][1][0] == 'Eoi') == (not g['stop']), slc(g['B'], g['E']))

    def obs(f):
        def o(E):
            E.peek()
            f(E, reg(E.w))
        return o
    M_('uncons', uncons)
    M_('is_partial', obs(lambda E, g: fin(E, ('c', 0), slc(g['B'], g['E']))))
    M_('position', obs(lambda E, g: fin(E, addr(g['B'], E.w.spec.elem), slc(g['B'], g['E']))))
    M_('translate', obs(lambda E, g: fin(E, dist(g['B'], g['N'], E.w.spec.elem), slc(g['B'], g['E']))))

    def order(E, g):
        x = E.w.eq_pos(g['B'], g['N'])
        if x is None:
            raise Bad('positions compare without being looked at')
        lt, gt = (('Equal',), ('Equal',)) if x else (('Less',), ('Greater',))
        fin(E, ('', lt, ('c', int(x)), ('Some', lt), gt, ('c', 1)), slc(g['B'], g['E']))
    M_('order', obs(order))
    M_('checkpoint', checkpoint)
    M_('uncons_range', uncons_range)
    M_('uncons_while', uncons_while)
    M_('uncons_while1', uncons_while1)
    M_('distance', obs(lambda E, g: fin(E, dist(g['B'], g['N']), slc(g['N'], g['E']))))
    M_('range', obs(lambda E, g: fin(E, slc(g['B'], g['E']), slc(g['B'], g['E']))))
    M_('len', obs(lambda E, g: fin(E, ('', dist(g['B'], g['E']), lambda v: v[0] == 'c' and bool(v[1]) == empty(E)), slc(g['B'], g['E']))))

    def emp(E, g):
        x = E.w.eq_pos(g['N'], g['E'])
        if x is None:
            raise Bad('the end of the input is not looked at')
        fin(E, ('c', int(x)), slc(g['N'], g['E']))
    M_('empty', obs(emp))


memory('c_str', True, False)
memory('c_slice', False, False)
memory('c_sstream', False, True)


# ---------------------------------------------------------------------- position trackers
def lines(sign_first=True):
    pass


def pspec(name, f, **kw):
    def o(E):
        E.peek()
        f(E)
    S('pos::' + name, o, models=sl.M, normal=None, elem=None, objects=(Z, Q), bound=sl.bound, **kw)


def want(E, r, s=ANY):
    n, a, o = E.peek()
    if n != 'done':
        raise Bad('%s although everything was done' % n)
    if unknown(a):
        raise Unknown()
    if not match(E, a[0], r):
        raise Bad('the result is not the required one: %s' % show(a[0]))
    if s != ANY and not match(E, a[1], s):
        raise Bad('what is left is not the required: %s' % show(a[1]))
    E.i += 1


def match(E, v, r):
    if r == ANY:
        return True
    if callable(r):
        return r(v)
    if isinstance(v, str) or isinstance(r, str):
        return v == r
    if isinstance(r, tuple) and isinstance(v, tuple) and r and v and r[0] not in ('k', 'c', 'p') and v[0] not in ('k', 'c', 'p'):
        return len(v) == len(r) and all(match(E, x, y) for x, y in zip(v, r))
    return eqv(E, v, r)


def nl(E, v):
    """is the label a newline: the analysis must have found out"""
    vs = E.w.fact(vkey(v))
    if vs == ((10, 10),):
        return True
    if vs is not None and not cut(vs, 10, 10):
        return False
    raise Bad('whether the token is a newline is not looked at')


def source(E):
    t = lab('num', 3)
    r = ('', sym('~1', 1), ('c', 1)) if nl(E, t) else ('', sym('~1'), sym('~2', 1))
    want(E, r)


SP, SQ = ('', sym('~1'), sym('~2')), ('', sym('~3'), sym('~4'))
pspec('source_char', source)
pspec('source_byte', source)
for _t in ('char', 'byte'):
    pspec('source_read_' + _t, lambda E: want(E, ('', SP, SP), SP))
    pspec('source_reset_' + _t, lambda E: want(E, SQ))


def sgn(E, a, b):
    """-1, 0, 1: how the two compare (None when not looked at)"""
    d = mk(*add(({a: 1}, 0), ({b: 1}, 0), -1))
    x = E.w.fact(('S', d))
    if x is None:
        y = E.w.fact(('S', mk(*add(({b: 1}, 0), ({a: 1}, 0), -1))))
        x = None if y is None else tuple(None if g is None else -g for g in y[::-1])
    if x is None:
        return None
    lo, hi = x
    return 0 if lo == hi == 0 else 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else None


def s_order(E):
    l, c = sgn(E, '~1', '~3'), sgn(E, '~2', '~4')
    n, a, o = E.peek()
    if l is None or l == 0 and c is None:
        raise Bad('positions compare without being looked at')
    d = l or c
    want(E, ('', ({-1: 'Less', 0: 'Equal', 1: 'Greater'}[d],), ('c', int(d == 0))))


pspec('source_order', s_order)
pspec('index', lambda E: want(E, sym('~1', 1)))
pspec('index_range', lambda E: want(E, mk({'~1': 1, lab('p_rg_len', None, (lab('new', 3),)): 1}, 0)))
pspec('index_reset', lambda E: want(E, sym('~1')))
ONE = ('', ('c', 1), ('c', 1))
pspec('start', lambda E: want(E, ('', ONE, ONE, ('c', 0), ('c', 0))))
pspec('start_str', lambda E: want(E, ONE, slc(reg(E.w)['B'], reg(E.w)['E'])))
pspec('start_slice', lambda E: want(E, ('c', 0), slc(reg(E.w)['B'], reg(E.w)['E'])))
pspec('with', lambda E: want(E, Q, Z))


def r_update(name, *args):
    def o(E):
        E.ev(name, *args)
        want(E, ANY, Q)
    return o


pspec('ref_update', r_update('q_update', Q, lab('new', 3)))
pspec('ref_update_range', r_update('q_update_range', Q, lab('new', 3)))
pspec('ref_reset', r_update('q_reset', Q, lab('new', 3)))
pspec('ref_read', lambda E: want(E, ('', E.pure('p_qposition', Q), E.pure('p_qcheckpoint', Q)), Q))


# source_range: the fold of the newlines over the text
def on_char(it, st, p):
    out = []
    for s, y in vcompare(it, st, ('k', 'tk', p), 10, 'Eq', it.P.name2ty['char']):
        fold(s.w, 'nl' if y else 'char')
        out.append(s)
    return out


def on_byte(it, st, p, x):
    """bytes of a text: newline, another start of a character, or inside one"""
    out = []
    for s, cb in sl.bound(it, st, p):
        if not cb:
            s.w.learn(('P', p, 'vs'), ((128, 191),))
            out.append(s)
            continue
        for y in (True, False):
            s2 = s.copy()
            s2.w.learn(('P', p, 'vs'), ((10, 10),) if y else ((0, 9), (11, 127), (194, 244)))
            fold(s2.w, 'nl' if y else 'char')
            out.append(s2)
    return out


def fold(w, k):
    r = reg(w)
    l, c = r.get('line', sym('~1')), r.get('col', sym('~2'))
    if k == 'nl':
        l, c = mk(*add(lin(l), ({}, 1))), ('c', 1)
    else:
        c = mk(*add(lin(c), ({}, 1)))
    sl.setreg(w, line=l, col=c)


def fold_normal(w, it, st):
    """counters are compared with what they should be, not with numbers"""
    r = reg(w)
    c = r.get('col')
    if c is not None and c[0] == 'c' and c[1] > 2:
        e = sym('~9')

        def fix(v, ty):
            k = it.P.types[ty] if ty is not None else None
            if v == c and k is not None and k['k'] == 'int' and k['w'] == 32:
                return e
            if v[0] == 'a' and isinstance(v[3], tuple):
                return ('a', v[1], v[2], tuple(fix(x, it.fieldty(v[1], v[2], i)) for i, x in enumerate(v[3])))
            return v
        for f in st.fr:
            ls = it.P.insts[f.inst]['locals']
            for i, v in enumerate(f.loc):
                f.loc[i] = fix(v, ls[i])
        sl.setreg(w, col=e)


def s_range(E):
    r = reg(E.w)
    want(E, ('', r.get('line', sym('~1')), r.get('col', sym('~2'))))


S('pos::source_range', s_range, models=sl.M, normal=fold_normal, elem=1, text=True, objects=(), bound=sl.bound, on_char=on_char, on_byte=on_byte)

for _m in ('uncons', 'next'):
    def _it(E, m=_m):
        r = E.ev('it_next', Z)
        t = {'uncons': {'None': ('Err', ('Eoi',))}, 'next': {}}[m].get(r[0], r if m == 'next' else ('Ok',) + r[1:])
        want(E, t, ('', Z))
    S('c_iter::' + _m, _it, models=sl.M)
S('c_iter::is_partial', lambda E: (E.peek(), want(E, ('c', 0), ('', Z))))


# ---------------------------------------------------------------------- errors
import vecs
EM = dict(sl.M)
EM.update(vecs.M)
LM = dict(EM)       # lists of errors: equality of two errors is a predicate
LM['<combine::easy::Error<T, R> as std::cmp::PartialEq>::eq'] = vecs.m_err_eq


def espec(name, f, models=EM, **kw):
    S('er::' + name, f, models=models, objects=(), **kw)


def name_of(E, v):
    """variant of a frozen value, as far as it was looked at"""
    if is_label(v):
        return E.w.fact(('D', v))
    return v[0] if isinstance(v, tuple) and v and v[0] not in ('c', 'k', 'p', 't', 'u') else None


def field(E, v, j=0):
    n = name_of(E, v)
    if is_label(v):
        return lab(*(v[2] + (n or '.', j)))
    return v[1 + j]


def both(*xs):
    """three-valued conjunction"""
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def asked(E, n, a, b):
    """what an equality test was found to answer"""
    if a == b:
        return True
    if a[0] == 'str' and b[0] == 'str':
        return False
    vs = E.w.fact(vkey(lab(n, None, tuple(sorted((a, b), key=str)))))
    return None if vs is None or len(vs) != 1 or vs[0][0] != vs[0][1] else bool(vs[0][0])


def same_info(E, a, b):
    x, y = name_of(E, a), name_of(E, b)
    if a == b:
        return True
    if x is None or y is None:
        return None
    s = ('Static', 'Owned')
    if x in s and y in s:
        return asked(E, 'p_str_eq', field(E, a), field(E, b))
    if x != y:
        return False
    return asked(E, {'Token': 'p_tk_eq', 'Range': 'p_rg_eq'}[x], field(E, a), field(E, b))


def same_err(E, a, b):
    x, y = name_of(E, a), name_of(E, b)
    if x == 'Other' or y == 'Other':
        return False
    if x is None or y is None:
        return None
    if x != y:
        return False
    return same_info(E, field(E, a), field(E, b))


EOI_ERR = ('Unexpected', ('Static', ('str', b'end of input')))


def same(E, a, b):
    """were two errors of a list found to be equal?"""
    x, y = name_of(E, a), name_of(E, b)
    if x is not None and y is not None and x != y:
        return False
    return asked(E, 'p_err_eq', a, b)


def elems(E, k):
    return [lab('elem', k, i) for i in range(E.w.fact(('len', k)) or 0)]


def added(E, xs, e, got):
    """xs with e added unless it is there; got says whether the result has it (to judge what was not looked at)"""
    r = [same(E, x, e) for x in xs]
    if any(t is True for t in r):
        return list(xs)
    if all(t is False for t in r):
        return list(xs) + [e]
    # not enough was looked at to tell
    if got == len(xs) + 1:
        raise Bad('an error is added without having been compared with those there')
    raise Bad('an error is dropped without having been compared with those there')


def lst(xs):
    return ('', ('',) + tuple(xs), ('',))


def result(E):
    n, a, o = E.peek()
    if n != 'done':
        raise Bad('%s although everything was done' % n)
    if unknown(a):
        raise Unknown()
    return a


def took(E, pos, xs, what='the errors are'):
    p, v = result(E)
    if p not in (pos if isinstance(pos, tuple) and pos and isinstance(pos[0], tuple) else (pos,)):
        raise Bad('the position is not the required one')
    have(E, v, xs, what)
    E.i += 1


def have(E, v, xs, what='the errors are'):
    got = list(v[1][1:]) if isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], tuple) else None
    if got is None:
        raise Unknown()
    for x in got:
        if x not in xs:
            raise Bad('%s not the required ones: %s is there' % (what, show(x)))
    for x in xs:
        if x not in got:
            raise Bad('%s not the required ones: %s is lost' % (what, show(x)))
    if got != list(xs):
        raise Bad('%s not in the required order or not there exactly once' % what)


def size(E):
    v = result(E)[1]
    return len(v[1]) - 1 if isinstance(v, tuple) and len(v) == 3 else -1


P0, P1, E2 = lab('new', 0), lab('new', 1), lab('new', 2)


def e_merge(E):
    E.peek()
    a, b = elems(E, 0), elems(E, 1)
    o = name_of(E, lab('p_pos_cmp', None, (P0, P1)))
    if o is None:
        x = name_of(E, lab('p_pos_cmp', None, (P1, P0)))
        o = {'Less': 'Greater', 'Greater': 'Less'}.get(x, x)
    if o is None:
        raise Bad('the positions are not compared')
    if o == 'Less':
        return took(E, P1, b)
    if o == 'Greater':
        return took(E, P0, a)
    xs = a
    n = size(E)
    for e in b:
        xs = added(E, xs, e, n)
    took(E, (P0, P1), xs)


def e_add(e):
    def o(E):
        E.peek()
        took(E, P0, added(E, elems(E, 0), e, size(E)))
    return o


def not_expected(E, xs):
    out = []
    for x in xs:
        n = name_of(E, x)
        if n is None:
            raise Bad('an error is kept or dropped without looking at what it is')
        if n != 'Expected':
            out.append(x)
    return out


def e_set_expected(E):
    E.peek()
    took(E, P0, not_expected(E, elems(E, 0)) + [('Expected', E2)])


def e_set_expected_trait(E):
    E.ev('grow')
    E.peek()
    xs = elems(E, 0) + not_expected(E, elems(E, 1))
    took(E, P0, added(E, xs, E2, size(E)))


def e_is_eoi(E):
    E.peek()
    b, v = result(E)
    rs = [same(E, x, EOI_ERR) for x in elems(E, 0)]
    t = True if any(r is True for r in rs) else None if any(r is None for r in rs) else False
    if t is None:
        raise Bad('an error is not looked at')
    if b != ('c', int(t)):
        raise Bad('the answer is wrong')
    have(E, v, elems(E, 0))
    E.i += 1


espec('merge', e_merge, models=LM)
espec('merge_trait', e_merge, models=LM)
espec('add_error', e_add(E2), models=LM)
espec('add', e_add(E2), models=LM)
espec('add_expected', e_add(('Expected', ('Token', E2))), models=LM)
espec('add_unexpected', e_add(('Unexpected', ('Token', E2))), models=LM)
espec('add_message', e_add(('Message', ('Token', E2))), models=LM)
espec('set_expected', e_set_expected, models=LM)
espec('set_expected_trait', e_set_expected_trait, models=LM)
espec('clear_expected', lambda E: (E.peek(), took(E, P0, not_expected(E, elems(E, 0)))), models=LM)
espec('is_eoi', e_is_eoi, models=LM)
espec('empty', lambda E: took(E, P0, []))
espec('empty_inh', lambda E: took(E, P0, []))
espec('from_error', lambda E: took(E, P0, [E2]))
espec('new', lambda E: took(E, P0, [E2]))
espec('from_errors', lambda E: (E.peek(), took(E, P0, elems(E, 0))))
espec('end_of_input', lambda E: took(E, P0, [EOI_ERR]))
espec('position', lambda E: (E.peek(), took(E, P0, elems(E, 0))))
espec('set_position', lambda E: (E.peek(), took(E, E2, elems(E, 0))))
espec('map_position', lambda E: (lambda p: took(E, p, elems(E, 0)))(E.ev('umap', P0)))


def mapped(E, v, kind):
    """the error or info v with its token or range replaced by what the function returned"""
    n = name_of(E, v)
    if n in ('Unexpected', 'Expected', 'Message'):
        x = mapped(E, field(E, v), kind)
        return v if x == field(E, v) else (n, x)
    if n == kind:
        return (n, E.ev('umap', field(E, v)))
    return v


def seen(E, v):
    """every level of the error was looked at"""
    n = name_of(E, v)
    return n is not None and (n == 'Other' or n not in ('Unexpected', 'Expected', 'Message') or name_of(E, field(E, v)) is not None)


def alike(E, v, want_):
    """equal up to how far the value was taken apart"""
    if v == want_:
        return True
    n = name_of(E, want_)
    if is_label(v) or n is None or name_of(E, v) != n:
        return False
    if not is_label(want_):
        return len(v) == len(want_) and all(alike(E, a, b) for a, b in zip(v[1:], want_[1:]))
    return all(alike(E, a, lab(*(want_[2] + (n, j)))) for j, a in enumerate(v[1:]))


def e_map(kind):
    def o(E):
        E.peek()
        out = []
        for x in elems(E, 0):
            if not seen(E, x):
                # looked at later
                raise Pending()
            out.append(mapped(E, x, kind))
        p, v = result(E)
        if p != P0:
            raise Bad('the position is not the required one')
        got = v[1][1:]
        if len(got) != len(out) or not all(alike(E, a, b) for a, b in zip(got, out)):
            raise Bad('the errors are not the required ones')
        E.i += 1
    return o


espec('map_token', e_map('Token'))
espec('map_range', e_map('Range'))


def e_map1(kind):
    def o(E):
        E.peek()
        x = mapped(E, P0, kind)
        v = result(E)[0]
        if not alike(E, v, x):
            raise Bad('the result is not the required one: %s' % show(v))
        E.i += 1
    return o


for _n in ('one', 'info'):
    for _k in ('Token', 'Range'):
        espec('%s_map_%s' % (_n, _k.lower()), e_map1(_k))


def e_eq(f):
    def o(E):
        E.peek()
        r, ab = result(E)
        t = f(E, P0, P1)
        if t is None:
            raise Bad('the answer does not depend on everything it has to')
        if r != ('c', int(t)) and not (is_label(r) and E.w.fact(vkey(r)) == ((int(t), int(t)),)):
            raise Bad('the answer is wrong')
        E.i += 1
    return o


def decided(f):
    """the answer is a label when the comparison itself is returned: then it has to be that comparison"""
    def o(E):
        E.peek()
        r, ab = result(E)
        if is_label(r) and r[2][0].endswith('_eq') and E.w.fact(vkey(r)) is None:
            E2_ = Replay(E.it, E.st)
            oks = 0
            for t in (0, 1):
                E.w.learn(vkey(r), ((t, t),))
                try:
                    x = f(E, P0, P1)
                finally:
                    E.w.facts = tuple(k for k in E.w.facts if k[0] != vkey(r))
                oks += x is bool(t)
            if oks != 2:
                raise Bad('the answer is wrong')
            E.i += 1
            return
        e_eq(f)(E)
    return o


espec('one_eq', decided(same_err))
espec('info_eq', decided(same_info))
espec('one_eoi', decided(lambda E, a, b: same_err(E, a, EOI_ERR)))


XE = {('Unexpected', 'Token'): 0, ('Unexpected', 'Range'): 1, ('Unexpected', 'Owned'): 2, ('Unexpected', 'Static'): 3,
      ('Expected', 'Token'): 4, ('Expected', 'Range'): 5, ('Expected', 'Owned'): 6, ('Expected', 'Static'): 7,
      ('Message', 'Token'): 8, ('Message', 'Range'): 9, ('Message', 'Owned'): 10, ('Message', 'Static'): 11}


def xe(k, v):
    return lab('p_xe', None, (('c', k), v))


def converted(E, v, conv):
    """what an error has to become: (kind, content); a message may be handed on as text of either sort"""
    n = name_of(E, v)
    if n is None:
        raise Pending()
    if n == 'Other':
        return frozenset((xe(10, field(E, v)), xe(13, field(E, v))))
    i = field(E, v)
    m = name_of(E, i)
    if m is None:
        raise Bad('the content of the error is not looked at')
    x = field(E, i)
    if conv and m in ('Token', 'Range'):
        x = lab('p_conv', None, (x,))
    return frozenset((xe(XE[n, m], x),))


def e_conv(conv):
    def o(E):
        E.peek()
        r = result(E)[0]
        if r not in converted(E, P0, conv):
            raise Bad('the error is not converted to one of the same kind and content: %s' % show(r))
        E.i += 1
    return o


espec('one_into_other', e_conv(False))
espec('one_into_other_error', e_conv(True))


def e_conv_list(E):
    E.peek()
    r = result(E)[0]
    acc = [xe(14, lab('p_conv', None, (P0,)))]
    for x in elems(E, 0):
        cs = converted(E, x, True)
        acc = [lab('p_xe_add', None, (a, c)) for a in acc for c in cs]
    if r not in acc:
        raise Bad('the errors are not all converted, in order and at the same position: %s' % show(r))
    E.i += 1


espec('into_other_error', e_conv_list)


def e_conv_one(E):
    E.peek()
    r = result(E)[0]
    if r not in [lab('p_xe_at', None, (P0, c)) for c in converted(E, E2, False)]:
        raise Bad('the error is not converted to one of the same kind and content: %s' % show(r))
    E.i += 1


espec('into_other_one', e_conv_one)
espec('one_end_of_input', lambda E: E.ret(EOI_ERR))
STR = lab('p_string', None, (P0,))
for _k, _v in (('unexpected', 'Unexpected'), ('expected', 'Expected'), ('message', 'Message')):
    espec('mk_' + _k, lambda E, v=_v: E.ret(('', (v, ('Token', P0)), (v, ('Range', P0)), (v, ('Static', P0)), (v, ('Owned', STR))) +
                                            ((EOI_ERR,) if v == 'Unexpected' else ())))

    def _gen(E, o={'Unexpected': 0, 'Expected': 4, 'Message': 8}[_v]):
        E.peek()
        n = name_of(E, P0)
        if n is None:
            raise Bad('the content is not looked at')
        E.ret(xe(o + {'Token': 0, 'Range': 1, 'Format': 2, 'Static': 3}[n], field(E, P0)))
    espec('gen_' + _k, _gen)
espec('gen_parts', lambda E: E.ret(('', xe(4, P0), xe(5, P0), xe(6, P0), xe(7, P0), xe(4, lab('num', 0)), xe(4, lab('num', 0)))))

SMALL = {'unexpected_parse': ('Unexpected', 'Eoi'), 'string_stream': ('UnexpectedParse', 'Eoi'), 'read': ('Unexpected', 'EndOfInput')}
for _n, (_u, _e) in SMALL.items():
    espec('%s::mk' % _n, lambda E, u=_u, e=_e: E.ret(('',) + ((u,),) * 9 + ((e,),)))

    def _eoi(E, e=_e):
        E.peek()
        (r, v) = result(E)
        n = name_of(E, P0)
        if n is None:
            raise Bad('the error is not looked at')
        E.ret(('', ('c', int(n == e)), ('c', int(n == e))), ANY)
    espec('%s::eoi' % _n, _eoi)

    def _add(E, e=_e):
        E.peek()
        n = name_of(E, P0)
        if n is None:
            raise Bad('the error is not looked at')
        v = result(E)[0]
        if not (alike(E, v, P0) if n == e else alike(E, v, P1)):
            raise Bad('adding to an error gives %s' % show(v))
        E.i += 1
    espec('%s::add' % _n, _add)
    espec('%s::merge' % _n, lambda E: E.ret(P1))
    espec('%s::from_error' % _n, lambda E: E.ret(P1))

    def _into(E, e=_e, at=None):
        E.peek()
        n = name_of(E, P0)
        if n is None:
            raise Bad('the error is not looked at')
        v = result(E)[0]
        if at is not None:
            if not (is_label(v) and v[2][0] == 'p_xe_at' and v[2][2][0] == at):
                raise Bad('the error is not converted to one at the default position')
            v = v[2][2][1]
        if not (is_label(v) and v[2][0] == 'p_xe'):
            raise Bad('the error is not converted')
        k, x = v[2][2]
        if n == e and k != ('c', 12) or n != e and k == ('c', 12):
            raise Bad('an error is taken for an end of input error or the other way round')
        if n == 'Io' and (k not in (('c', 13), ('c', 10)) or x != field(E, P0)):
            raise Bad('the error of the reader is lost')
        E.i += 1
    espec('%s::into_other' % _n, _into)
    espec('%s::p_into_other' % _n, lambda E, f=_into: f(E, at=lab('new', 7)))
    if _n != 'read':
        espec('%s2::s_into_other' % _n, _into)
        espec('%s2::p_into_other' % _n, lambda E, f=_into: f(E, at=lab('p_conv', None, (lab('new', 7),))))


# ---------------------------------------------------------------------- results
def pspec(name, f, **kw):
    S('pr::' + name, f, models=EM, objects=(), **kw)


def committed(E, v):
    """what a Commit value says: True, False or the label nobody looked at"""
    n = name_of(E, v)
    return {'Commit': True, 'Peek': False}.get(n, v)


def outcome(E, v):
    """(succeeded, committed, payload) of a result in any of its forms; the payload of an uncommitted error has its offset"""
    n = name_of(E, v)
    if n is None:
        raise Bad('the result is not looked at')
    x = field(E, v)
    if n in ('CommitOk', 'PeekOk'):
        return True, n == 'CommitOk', x
    if n == 'CommitErr':
        return False, True, x
    if n == 'PeekErr':
        return False, False, (field(E, x), field(E, x, 1))
    if n == 'Ok':
        if name_of(E, x) in ('Commit', 'Peek'):
            return True, name_of(E, x) == 'Commit', field(E, x)
        return True, committed(E, field(E, x, 1)), field(E, x)
    if n == 'Err':
        c = committed(E, x)
        if c is x:
            return False, c, x
        t = field(E, x)
        return False, c, field(E, t) if c else (field(E, t), field(E, t, 1))
    raise Unknown()


def gives(E, want):
    """the result has to be this"""
    r = result(E)[0]
    got = outcome(E, r)
    if got[0] != want[0]:
        raise Bad('a success is turned into an error or the other way round')
    if got[1] != want[1]:
        raise Bad('the result is %scommitted' % ('not ' if want[1] is True else ''))
    if not same_payload(E, got[2], want[2]):
        raise Bad('the value or the error is not the required one: %s' % show(got[2]))
    E.i += 1


def same_payload(E, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], tuple) and isinstance(b[0], tuple):
        return len(a) == len(b) and all(alike(E, x, y) or callable(y) and y(x) for x, y in zip(a, b))
    return a == b or alike(E, a, b)


def src(E):
    """the argument, as far as it was looked at"""
    if name_of(E, P0) is None:
        if E.peek()[0] != 'umap':
            raise Bad('the result is not looked at')
        raise Pending()
    return outcome(E, P0)


def p_map(E):
    E.peek()
    ok, c, x = src(E)
    if ok:
        x = E.ev('umap', x)
    gives(E, (ok, c, x))


def p_map_err(E):
    E.peek()
    ok, c, x = src(E)
    if not ok:
        x = E.ev('umap', x) if c else (E.ev('umap', x[0]), x[1])
    gives(E, (ok, c, x))


def chained(E, c, r):
    """a continuation's result after an input that was (c) committed"""
    ok2, c2, x = outcome(E, r)
    if c is True:
        if ok2 is False and c2 is False:
            x = x[0]
        elif c2 is not True and c2 is not False and ok2 is False:
            raise Pending() if E.i < len(E.tr) and False else Bad('the outcome of the continuation is not looked at')
        c2 = True
    return ok2, c2, x


def p_and_then(E):
    E.peek()
    ok, c, x = src(E)
    if ok:
        r = E.ev('umap', x)
        E.peek()
        return gives(E, chained(E, c, r))
    gives(E, (ok, c, x))


def p_same(E):
    E.peek()
    gives(E, src(E))


def p_is(E):
    E.peek()
    ok = src(E)[0]
    E.ret(('', ('c', int(ok)), ('c', int(not ok))), ANY)


pspec('map', p_map)
pspec('map_err', p_map_err)
pspec('and_then', p_and_then)
pspec('is', p_is)
for _n in ('as_ref', 'into_result', 'into', 'from'):
    pspec(_n, p_same)
pspec('tracked', lambda E: E.ret(lambda v: isinstance(v, tuple) and len(v) == 3 and v[1] == P0))


def p_ctry(E):
    E.peek()
    ok, c, x = src(E)
    if not ok:
        return gives(E, (ok, c, x))
    E.ret(('', x, ('Commit' if c else 'Peek', ('',))))


pspec('ctry', p_ctry)


def looked(E, v):
    n = name_of(E, v)
    if n is None:
        raise Bad('whether it is committed is not looked at')
    return n == 'Commit'


def c_of(c, x):
    return ('Commit' if c else 'Peek', x)


def c_ret(E, c, x):
    v = result(E)[0]
    if committed(E, v) is not c:
        raise Bad('the result is %scommitted' % ('' if not c else 'not '))
    if field(E, v) != x:
        raise Bad('the value is not the required one: %s' % show(v))
    E.i += 1


V0 = lambda E: field(E, P0)


def c_any(E):
    """the value inside, whether or not anybody asked if it is committed"""
    return [lab('new', 0, n, 0) for n in ('Commit', 'Peek')]


def c_map(E):
    E.peek()
    n, a, o = E.peek()
    if n != 'umap':
        raise Bad('the function is not called')
    c = looked(E, P0)
    x = E.ev('umap', V0(E))
    c_ret(E, c, x)


def c_merge(E):
    E.peek()
    a = looked(E, P0)
    v = result(E)[0]
    if not a:
        if not alike(E, v, P1):
            raise Bad('the result is not the other one although this one is not committed')
    else:
        n = name_of(E, P1)
        if n is None and v != P1 or committed(E, v) is not True:
            raise Bad('the result is not committed although this one is')
        if field(E, v) != field(E, P1):
            raise Bad('the value is not the required one: %s' % show(v))
    E.i += 1


def c_combine(E):
    n, a, o = E.peek()
    if n != 'umap':
        raise Bad('the function is not called')
    c = looked(E, P0)
    r = E.ev('umap', V0(E))
    E.peek()
    if not c:
        v = result(E)[0]
        if not alike(E, v, r):
            raise Bad('the outcome of the continuation is changed: %s' % show(v))
        E.i += 1
        return
    ok, c2, x = outcome(E, r)
    v = outcome(E, result(E)[0])
    if v[0] != ok:
        raise Bad('a success is turned into an error or the other way round')
    if v[1] is not True:
        raise Bad('the result is not committed')
    if not ok and c2 is not True:
        # the offset of a committed error says nothing
        x = x[0] if c2 is False else None
    if x is None or not (v[2] == x or alike(E, v[2], x)):
        raise Bad('the value or the error is not the required one: %s' % show(v[2]))
    E.i += 1


def c_set(want_c):
    def o(E):
        E.peek()
        looked(E, P0)
        c_ret(E, want_c, V0(E))
    return o


pspec('c_is', lambda E: (E.peek(), E.ret(('c', int(not looked(E, P0))), ANY)))
pspec('c_inner', lambda E: (E.peek(), looked(E, P0), E.ret(V0(E))))
pspec('c_commit', c_set(True))
pspec('c_peek', c_set(False))
pspec('c_map', c_map)
pspec('c_merge', c_merge)
pspec('c_combine', c_combine)
pspec('c_combine_commit', c_combine)
pspec('c_as_ref', lambda E: (E.peek(), looked(E, P0), E.ret(V0(E))))
pspec('c_as_mut', lambda E: (E.peek(), c_ret(E, looked(E, P0), P1)))


# ---------------------------------------------------------------------- incremental decoding
import inc
inc.register(L)

import buf
buf.register(L)

import cls
cls.register(L)

import find
find.register(L)
