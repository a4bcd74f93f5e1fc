"""The buffering stream: its ring of tokens in any state its operations can leave it in (see lin.py).

A state is four positions of the input, zero <= base <= off <= end: the tokens base..end are in the ring,
off is the next token to hand out.  Token and start of the token at position p are labels of p, so the
operations are decided for any number of tokens, any lookahead and any history at once.
"""
from lin import *
import model
from sl import reg, insert

Z = lab('new', 0)
CAP = lab('cap', None, ())


def at(p):
    return addr(p, 1)


def m_ring(it, st, b, args, ty, sp):
    w = st.w
    w.chain = tuple(w.newpos() for _ in range(4))
    w.gap = ((0, None),) * 3
    w.o = tuple(('P', p, n) for p, n in zip(w.chain, ('zero', 'base', 'off', 'end')))
    o = reg(w)
    t = it.P.types[ty]
    v = []
    for n, fty in t['vs'][0]['f']:
        nm = it.P.types[fty].get('n') or ''
        if n == 'offset':
            v.append(at(o['off']))
        elif n == 'buffer_offset':
            v.append(at(o['end']))
        elif 'VecDeque' in nm:
            v.append(lab('ring', None, (0, ())))
        elif nm.endswith('::Z'):
            v.append(Z)
        else:
            it.note('unknown field %s' % n)
            return []
    # the ring never holds more than it has room for
    for s, ok in compare(it, st, add(lin(length(st, (0, ()))), lin(CAP), -1), 'Le'):
        if ok:
            return [(s, ('a', ty, 0, tuple(v)))]
    return []


def m_mark(it, st, b, args, ty, sp):
    """a checkpoint: somewhere between the start and the end"""
    w = st.w
    o = reg(w)
    out = []
    for i in range(3):
        s = st.copy()
        w = s.w
        q = w.newpos()
        w.chain = w.chain[:i + 1] + (q,) + w.chain[i + 1:]
        w.gap = w.gap[:i] + (((0, None), (0 if i == 2 else 1, None))) + w.gap[i + 1:]
        w.o = w.o + (('P', q, 'mark'),)
        out.append((s, at(q)))
    return out


def ringof(it, st, v):
    p = it.unwrap_ptr(v)
    x = it.read(st, p[1], p[2]) if p[0] == 'p' else p
    return (p, x[2][2]) if x[0] == 'k' and x[1] == 'o' and x[2][0] == 'ring' else (p, None)


def length(st, r):
    o = reg(st.w)
    pops, pushed = r
    if 'end' not in o:
        return ('c', len(pushed) - pops)
    return mk({o['end']: 1, o['base']: -1} if o['end'] != o['base'] else {}, len(pushed) - pops)


def ringm(f):
    def m(it, st, b, args, ty, sp):
        p, r = ringof(it, st, args[0])
        if r is None:
            it.note('unknown ring in ' + b['path'])
            return [(st, ('t', ty))]
        return f(it, st, p, r, args, ty)
    return m


def put(it, st, p, r):
    it.write(st, p[1], p[2], lab('ring', None, r))


@ringm
def m_len(it, st, p, r, args, ty):
    return [(st, length(st, r))]


@ringm
def m_is_empty(it, st, p, r, args, ty):
    return [(s, ('c', int(x))) for s, x in compare(it, st, lin(length(st, r)), 'Eq')]


@ringm
def m_cap(it, st, p, r, args, ty):
    return [(st, CAP)]


def element(it, st, r, k):
    """[(state, element or None)] number k of the ring"""
    o = reg(st.w)
    pops, pushed = r
    n = length(st, r)
    out = []
    if lin(k) is None:
        it.note('element of the ring not determined')
        return []
    for s, ok in compare(it, st, add(lin(k), lin(n), -1), 'Lt'):
        if not ok:
            out.append((s, None))
            continue
        j = add(add(lin(k), lin(n), -1), ({}, len(pushed)))      # distance from the old end
        jr = s.w.rng(*j)
        if jr is not None and jr[0] == jr[1] and jr[0] >= 0:
            out.append((s, pushed[jr[0]]))
            continue
        q = resolve(s, add(add(({o['base']: 1}, pops), lin(k)), ({}, 0)))
        if q is None:
            it.note('element of the ring not determined')
            continue
        # an element that was there from the start
        out.append((s, (lab('tok', None, (at(q),)), lab('start', None, (at(q),)))))
    return out


def refto(it, st, e, ty):
    t = it.pointee(ty) if it.P.types[ty]['k'] != 'adt' else it.pointee(model.variant_fty(it, ty, 'Some'))
    return ('p', it.alloc(st, ('a', t, 0, e)), (), None)


@ringm
def m_index(it, st, p, r, args, ty):
    out = []
    for s, e in element(it, st, r, args[1]):
        if e is None:
            it.panic(s, 'index beyond the ring', True)
        else:
            out.append((s, refto(it, s, e, ty)))
    return out


def opt(it, st, e, ty):
    return model.variant(it, ty, 'None', []) if e is None else model.variant(it, ty, 'Some', [refto(it, st, e, ty)])


@ringm
def m_get(it, st, p, r, args, ty):
    return [(s, opt(it, s, e, ty)) for s, e in element(it, st, r, args[1])]


@ringm
def m_front(it, st, p, r, args, ty):
    return [(s, opt(it, s, e, ty)) for s, e in element(it, st, r, ('c', 0))]


@ringm
def m_back(it, st, p, r, args, ty):
    return [(s, opt(it, s, e, ty)) for s, e in element(it, st, r, mk(*add(lin(length(st, r)), ({}, 1), -1)))] if r[1] else None


@ringm
def m_pop_front(it, st, p, r, args, ty):
    out = []
    for s, e in element(it, st, r, ('c', 0)):
        if e is None:
            out.append((s, model.variant(it, ty, 'None', [])))
        else:
            pops, pushed = r
            put(it, s, p, (pops + 1, pushed))
            out.append((s, model.variant(it, ty, 'Some', [('a', model.variant_fty(it, ty, 'Some'), 0, e)])))
    return out


@ringm
def m_push_back(it, st, p, r, args, ty):
    v = args[1]
    e = v[3] if v[0] == 'a' and len(v[3]) == 2 else None
    if e is None:
        it.note('unknown element pushed')
        return []
    put(it, st, p, (r[0], r[1] + (e,)))
    return [(st, UNIT)]


def m_with_capacity(it, st, b, args, ty, sp):
    setcap = args[0]
    st.w.learn(('cap',), setcap)
    return [(st, lab('ring', None, (0, ())))]


VD = 'std::collections::VecDeque::<T'
def both(n, f):
    return {'%s%s>::%s' % (VD, a, n): f for a in ('', ', A')}


M = {
    'opq::ring': m_ring, 'opq::mark': m_mark,
    **both('len', m_len), **both('is_empty', m_is_empty), **both('capacity', m_cap), **both('front', m_front), **both('back', m_back),
    **both('get', m_get), **both('pop_front', m_pop_front), **both('push_back', m_push_back), **both('with_capacity', m_with_capacity),
    '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index': m_index,
}


# ------------------------------------------------------------------ oracles
def zero(E, d):
    return E.w.rng(*d) == (0, 0)


def state(E, fz):
    """(off, end, pops, pushed, capacity room known) of the frozen stream"""
    ty = next(t for t in E.it.P.types if t['k'] == 'adt' and (t.get('n') or '').startswith('combine::stream::buffered::Stream<'))
    if any(lin(v) is None for v in fz[1:]):
        raise Unknown()
    f = dict(zip([n for n, _ in ty['vs'][0]['f']], fz[1:]))
    ring = next((v for v in fz[1:] if is_label(v) and v[2][0] == 'ring'), None)
    if ring is None or Z not in fz[1:]:
        raise Bad('the stream or its buffer is replaced')
    return f['offset'], f['buffer_offset'], ring[2][2]


def after(E, off, pops=0, pushed=()):
    """the required state"""
    def ok(v):
        o = reg(E.w)
        a, b, r = state(E, v)
        n = add(({o['end']: 1}, 0), ({}, len(pushed)))
        return zero(E, add(lin(a), off, -1)) and zero(E, add(lin(b), n, -1)) and r == (pops, pushed)
    return ok


def pos_of(E, p):
    """where the token at position p starts"""
    o = reg(E.w)
    r = E.w.rng(*add(({p: 1}, 0), ({o['end']: 1}, 0), -1)) if p != o['end'] else (0, 0)
    if r == (0, 0):
        return E.pure('p_position', Z)
    if r is None or r[1] is None or r[1] >= 0:
        raise Bad('whether the token was handed out before is not looked at')
    return same(E, 'start', p)


def same(E, name, p):
    def ok(v):
        return is_label(v) and v[2][0] == name and zero(E, add(({p: 1}, 0), lin(v[2][2][0]), -1))
    return ok


def uncons(E):
    n, a, _ = E.peek()
    o = reg(E.w)
    d = E.w.rng({o['off']: 1, o['end']: -1} if o['off'] != o['end'] else {}, 0)
    if n == 'z_uncons':
        if d != (0, 0):
            raise Bad('a new token is read although the next one was handed out before')
        p = E.pure('p_position', Z)
        r = E.ev('z_uncons', Z)
        if r[0] == 'Err':
            return E.ret(r, after(E, ({o['end']: 1}, 0)))
        full = [x for _, x in compare(E.it, E.st.copy(), add(lin(length(E.st, (0, ()))), lin(CAP), -1), 'Eq')]
        E.peek()
        ln = E.w.rng(*lin(length(E.st, (0, ()))))
        if full == [True] and ln[0] > 0:
            pops = 1
        elif full == [True] and ln != (0, 0):
            raise Bad('whether the buffer is empty is not looked at')
        elif full == [False] or full == [True]:
            pops = 0
        else:
            raise Bad('whether the buffer is full is not looked at')
        return E.ret(('Ok', r[1]), after(E, ({o['end']: 1}, 1), pops, ((r[1], p),)))
    if d == (0, 0):
        raise Bad('no token is read although all buffered ones were handed out')
    if d is None or d[1] is None or d[1] >= 0:
        raise Bad('whether the next token is in the buffer is not looked at')
    E.ret(lambda v: v[0] == 'Ok' and same(E, 'tok', o['off'])(v[1]), after(E, ({o['off']: 1}, 1)))


def position(E):
    E.peek()
    o = reg(E.w)
    E.ret(pos_of(E, o['off']), after(E, ({o['off']: 1}, 0)))


def checkpoint(E):
    E.peek()
    o = reg(E.w)
    E.ret(at(o['off']), after(E, ({o['off']: 1}, 0)))


def is_partial(E):
    E.peek()
    o = reg(E.w)
    E.ret(E.pure('p_is_partial', Z), after(E, ({o['off']: 1}, 0)))


def reset(E):
    E.peek()
    o = reg(E.w)
    lo, hi = E.w.rng(*add(({o['mark']: 1}, 0), ({o['base']: 1}, 0), -1)) if o['mark'] != o['base'] else (0, 0)
    if lo is not None and lo >= 0:
        return E.ret(('Ok', ('',)), after(E, ({o['mark']: 1}, 0)))
    if hi is None or hi >= 0:
        raise Bad('whether the token is still buffered is not looked at')
    p = pos_of(E, o['off'])
    E.ret(lambda v: v[0] == 'Err' and is_label(v[1]) and v[1][2][0] == 'p_er_from' and fits(p, v[1][2][2][0]), after(E, ({o['off']: 1}, 0)))


def new(E):
    E.peek()

    def ok(v):
        a, b, r = state(E, v)
        return a == b == ('c', 0) and r == (0, ()) and E.w.fact(('cap',)) == lab('num', None, ())
    E.ret(('',), ok)


def m_num(it, st, b, args, ty, sp):
    return [(st, lab('num', None, ()))]


def r_uncons(E):
    r = E.ev('io_next', lab('new', 0))
    E.ret({'None': ('Err', ('EndOfInput',))}.get(r[0]) or (('Ok', r[1][1]) if r[1][0] == 'Ok' else ('Err', ('Io', r[1][1]))))


def m_io_next(it, st, b, args, ty, sp):
    p = it.unwrap_ptr(args[0])
    i = len(st.w.tr)
    rty = model.variant_fty(it, ty, 'Some')
    a, e = lab('io_next', i, 'Ok', 0), lab('io_next', i, 'Err', 0)
    rd = sorted(labels(freeze(it, st, args[0])), key=str)
    out = []
    for v, fz in ((model.variant(it, ty, 'None', []), ('None',)), (model.variant(it, ty, 'Some', [model.variant(it, rty, 'Ok', [a])]), ('Some', ('Ok', a))),
                  (model.variant(it, ty, 'Some', [model.variant(it, rty, 'Err', [e])]), ('Some', ('Err', e)))):
        s = st.copy()
        s.w.tr = s.w.tr + (('io_next', tuple(rd), fz),)
        s.w.prog = True
        if judge(it, s):
            out.append((s, v))
    return out


RM = {'<std::io::Bytes<R> as std::iter::Iterator>::next': m_io_next}


def register(L):
    M['opq::num'] = m_num
    for n, f in (('uncons', uncons), ('position', position), ('checkpoint', checkpoint), ('is_partial', is_partial), ('reset', reset), ('new', new)):
        L['bf::' + n] = LSpec(f, models=M, objects=(Z,))
    L['rd::uncons'] = LSpec(r_uncons, models=RM, objects=())
    L['rd::is_partial'] = LSpec(lambda E: E.ret(('c', 0)), models=RM, objects=())
