"""Parsers of single tokens out of a class, and of binary numbers: value sets of the tokens (see lin.py).

A token is a label with the set of values it can have; tests narrow the set.  What the Unicode tables say about
a character beyond ASCII is a label of its own.  At the end the set must lie inside the class of the
parser when the token was accepted, and outside when it was not.
"""
import functools

from lin import *

Z = lab('new', 0)
CH = 0x10FFFF
TOP7 = ((0, 127),)


def rs(*xs):
    return tuple(sorted((ord(x[0]), ord(x[-1])) for x in xs))


DIG, UP, LOW = rs('09'), rs('AZ'), rs('az')
WS = ((9, 13), (32, 32))
BWS = ((9, 10), (12, 13), (32, 32))
HEX = rs('09', 'AF', 'af')
OCT = rs('07')


def inter(a, b):
    return tuple(sorted(x for lo, hi in b for x in cut(a, lo, hi)))


def minus(a, b):
    for lo, hi in b:
        a = tuple(sorted(cut(a, -1, lo - 1) + cut(a, hi + 1, 1 << 130)))
    return a


def uni(name, v):
    return lab('uni ' + name, None, (v,))


CLASSES = {
    'is_alphabetic': (UP + LOW, ('alphabetic',)), 'is_alphanumeric': (DIG + UP + LOW, ('alphabetic', 'numeric')),
    'is_numeric': (DIG, ('numeric',)), 'is_uppercase': (UP, ('uppercase',)), 'is_lowercase': (LOW, ('lowercase',)),
    'is_whitespace': (WS, ('white_space',)), 'is_control': (((0, 31), (127, 127)), ('control',)),
}


def decide(it, st, v, ascii, tables):
    """[(state, bool)] is the character v in the class"""
    ty = it.P.name2ty.get('char')
    vs = vset(it, st, v, ty) or ((0, CH),)
    out = []
    for part, truth in ((inter(vs, ascii), True), (minus(inter(vs, TOP7), ascii), False)):
        if part:
            s = st.copy()
            s.w.learn(vkey(v), part)
            out.append((s, truth))
    part = cut(vs, 128, CH)
    if part:
        s = st.copy()
        s.w.learn(vkey(v), part)
        todo = [s]
        for t in tables:
            nxt = []
            for s in todo:
                for s2, no in vcompare(it, s, uni(t, v), 0, 'Eq', it.P.name2ty.get('bool')):
                    (nxt.append(s2) if no else out.append((s2, True)))
            todo = nxt
        out += [(s, False) for s in todo]
    return out


def m_class(name):
    def m(it, st, b, args, ty, sp):
        v = it.unwrap_ptr(args[0])
        if v[0] == 'p':
            v = it.read(st, v[1], v[2])
        if not is_label(v):
            return None
        return [(s, ('c', int(x))) for s, x in decide(it, st, v, *CLASSES[name])]
    return m


def digits(radix):
    d = ((48, 47 + min(radix, 10)),)
    if radix > 10:
        d += ((65, 54 + radix), (97, 86 + radix))
    return d


def m_is_digit(it, st, b, args, ty, sp):
    v, r = args
    if not is_label(v) or r[0] != 'c':
        return None
    return [(s, ('c', int(x))) for s, x in decide(it, st, v, digits(r[1]), ())]


def m_bytes(be, k):
    def m(it, st, b, args, ty, sp):
        v = freeze(it, st, args[0])
        fs = tuple(v[1:]) if v[0] == '' else tuple(v[3]) if v[0] == 'a' else None
        if fs is None:
            return [(st, ('t', ty))]
        return [(st, lab('number', None, (k,) + (fs if be else fs[::-1])))]
    return m


# ------------------------------------------------------------------ values computed from a token
OPS = {'BitAnd': lambda x, n: x & n, 'BitOr': lambda x, n: x | n, 'BitXor': lambda x, n: x ^ n, 'Add': lambda x, n: x + n, 'Sub': lambda x, n: x - n,
       'Mul': lambda x, n: x * n, 'Div': lambda x, n: x // n if n else 0, 'Rem': lambda x, n: x % n if n else 0, 'Shr': lambda x, n: x >> n, 'Shl': lambda x, n: x << n}
CMP = {'Eq': lambda x, n: x == n, 'Ne': lambda x, n: x != n, 'Lt': lambda x, n: x < n, 'Le': lambda x, n: x <= n, 'Gt': lambda x, n: x > n, 'Ge': lambda x, n: x >= n}


def derived(base, op, n, width):
    """the value op(base, n) modulo 2^width"""
    if base[2][0] == 'fn':
        return ('k', 'o', ('fn', None, base[2][2], base[2][3] + ((op, n, width),)))
    return ('k', 'o', ('fn', None, base, ((op, n, width),)))


def ev(x, ops):
    for op, n, w in ops:
        x = OPS[op](x, n) & ((1 << w) - 1)
    return x


@functools.lru_cache(maxsize=None)
def holds(vs, ops, cmp_, n):
    """the values of the token for which the comparison holds, and the others"""
    yes, no = [], []
    f = CMP[cmp_]
    for lo, hi in vs:
        for x in range(lo, hi + 1):
            o = yes if f(ev(x, ops), n) else no
            if o and o[-1][1] == x - 1:
                o[-1] = (o[-1][0], x)
            else:
                o.append((x, x))
    return tuple(yes), tuple(no)


def token_of(v):
    return v[2][2] if v[2][0] == 'fn' else v


def split(st, a, base, n):
    tk = token_of(a)
    vs = st.w.fact(vkey(tk)) or ((0, st.w.spec.top),)
    out = []
    for part, truth in zip(holds(vs, a[2][3], base, n), (1, 0)):
        if part:
            s = st.copy()
            s.w.learn(vkey(tk), part)
            out.append((s, ('c', truth)))
    return out


def cast(it, st, a, s, d):
    t = it.P.types[d]
    return derived(a, 'BitAnd', (1 << t['w']) - 1, t['w']) if t['k'] == 'uint' and token_of(a)[2][0] == 'zt_uncons' else None


def binop(it, st, base, ck, a, b, ty):
    if base in SWAP and a[0] == 'c':
        a, b, base = b, a, SWAP[base]
    elif a[0] == 'c' and base in ('BitAnd', 'BitOr', 'BitXor', 'Add', 'Mul', 'Eq', 'Ne'):
        a, b = b, a
    if not (is_label(a) and b[0] == 'c' and isinstance(b[1], int)):
        return None
    t = it.P.types[ty] if ty is not None else {}
    w = {'uint': t.get('w'), 'char': 32}.get(t.get('k'))
    if not w or token_of(a)[2][0] != 'zt_uncons':
        return None
    if base in CMP:
        return split(st, a, base, b[1]) if a[2][0] == 'fn' else None
    if ck and base in ('Add', 'Sub', 'Mul'):
        r = derived(a, base, b[1], w)
        wide = derived(a, base, b[1], 130)
        return [(s, ('a', None, 0, (r, x))) for s, x in split(st, wide, 'Ge', 1 << w)]
    if base in OPS and (base not in ('Shr', 'Shl') or b[1] < w):
        return derived(a, base, b[1], w)
    return None


def m_wrapping(op):
    def m(it, st, b, args, ty, sp):
        r = binop(it, st, op, False, args[0], args[1], ty) if is_label(args[0]) or is_label(args[1]) else None
        return [(st, r)] if r is not None else [(st, ('t', ty))]
    return m


M = {'std::char::methods::<impl char>::' + n: m_class(n) for n in CLASSES}
M['std::char::methods::<impl char>::is_digit'] = m_is_digit
for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
    M['std::intrinsics::wrapping_' + _n] = m_wrapping(_o)
for w in (16, 32, 64, 128):
    for k in 'ui':
        for e in ('be', 'le', 'ne'):
            M['core::num::<impl %s%d>::from_%s_bytes' % (k, w, e)] = m_bytes(e == 'be', '%s%d' % (k, w) + ' of this machine' * (e == 'ne'))
for k in ('f32', 'f64'):
    for e in ('be', 'le', 'ne'):
        M['core::%s::<impl %s>::from_%s_bytes' % (k, k, e)] = m_bytes(e == 'be', k + ' of this machine' * (e == 'ne'))


# ------------------------------------------------------------------ oracles
def known(E, l):
    vs = E.w.fact(vkey(l))
    return None if vs is None else False if vs == ((0, 0),) else True if not cut(vs, 0, 0) else None


def member(E, t, cls, acc):
    """the values t can have here are all in (or all outside) the class"""
    if callable(cls):
        return cls(E, t, acc)
    ascii, tables, top = cls
    vs = E.w.fact(vkey(t)) or ((0, top),)
    low = inter(vs, TOP7) if tables is not None else vs
    wrong = minus(low, ascii) if acc else inter(low, ascii)
    if wrong:
        raise Bad('%s is %s' % (', '.join('%#x..%#x' % w for w in wrong[:3]), 'accepted' if acc else 'refused'))
    if tables is not None and cut(vs, 128, CH):
        ks = [known(E, uni(x, t)) for x in tables]
        is_ = True if True in ks else None if None in ks else False
        if is_ is None:
            raise Bad('whether a character beyond ASCII is in the class is not looked at')
        if is_ != acc:
            raise Bad('a character beyond ASCII is %s' % ('accepted although it is not in the class' if acc else 'refused although it is in the class'))


def keeps(v):
    return labels(v) == {Z}


def ends(E, kinds, val=ANY):
    E.ret(lambda v: v[0] in kinds and (not v[0].endswith('Ok') or fits(val, v[1], E.w)), keeps)


def seq(*classes):
    """one token of each class; an error is committed after the first token and promises no place in the input"""
    def o(E):
        while E.peek()[0] != 'done':
            E.i += 1
        n = E.i
        kind = E.peek()[1][0][0]
        lost = any(e[0] == 'zt_reset' and e[2][0] == 'Err' for e in E.tr[:n])
        for j, c in enumerate(classes):
            E.i = j
            if j >= n:
                raise Bad('decided without the token')
            r = E.ev('zt_uncons', Z)
            if r[0] == 'Err':
                E.i = n
                return ends(E, ('CommitErr', 'PeekErr'))
            t = r[1]
            if kind.endswith('Ok'):
                member(E, t, c, True)
                continue
            try:
                member(E, t, c, True)
                if j + 1 < len(classes):
                    continue
            except Bad:
                pass
            member(E, t, c, False)
            E.i = n
            return ends(E, ('CommitErr', 'PeekErr') if lost else ('CommitErr',) if j else ('PeekErr',))
        ends(E, ('CommitOk',), t)
    return o


def many(cls):
    """tokens as long as they are in the class; the first one that is not is put back"""
    def o(E):
        got = False
        while True:
            ck = E.pure('p_zt_checkpoint', Z)
            r = E.ev('zt_uncons', Z)
            n, a, _ = E.peek()
            if r[0] == 'Ok' and n == 'zt_uncons':
                member(E, r[1], cls, True)
                got = True
                continue
            if r[0] == 'Ok':
                member(E, r[1], cls, False)
                if n == 'done':
                    raise Bad('a refused token is not put back')
            while E.peek()[0] == 'zt_reset':
                if E.ev('zt_reset', Z, ck)[0] == 'Err':
                    return ends(E, ('CommitErr', 'PeekErr'))
            ok = ('CommitOk',) if got else ('PeekOk',)
            return ends(E, ok if r[0] == 'Ok' else ok + ('CommitErr',))
    return o


def equal(E, t, acc):
    """t is the token asked for"""
    d = add(lin(t), lin(lab('num', None, ())), -1)
    if [x for _, x in compare(E.it, E.st.copy(), d, 'Eq')] != [acc]:
        raise Bad('%s token than the required one is %s' % ('another' if acc else 'no other', 'accepted' if acc else 'refused'))


def number(k, n, be):
    def o(E):
        ck = E.pure('p_zt_checkpoint', Z)
        ts = []
        for i in range(n):
            r = E.ev('zt_uncons', Z)
            if r[0] == 'Err':
                if i or E.peek()[0] == 'zt_reset':
                    E.ev('zt_reset', Z, ck)
                return ends(E, ('CommitErr', 'PeekErr'))
            ts.append(r[1])
        ends(E, ('CommitOk',), lab('number', None, (k,) + tuple(ts if be else ts[::-1])))
    return o


def m_num(it, st, b, args, ty, sp):
    return [(st, lab('num', None, ()))]


def trim(w, it, st):
    """forget all but the last accepted tokens of a long run: the oracle accepted them"""
    js = [j for j, e in enumerate(w.tr) if e[0] == 'zt_uncons']
    if len(js) >= 3:
        forget(st, js[1])


def register(L):
    M['opq::num'] = m_num

    def S(n, o, **kw):
        L[n] = LSpec(o, models=M, objects=(Z,), prebinop=binop, precast=cast, top=top, **kw)
    nl, cr, tab = ((10, 10),), ((13, 13),), ((9, 9),)
    for k, top, c in (
            ('k_char', CH, dict(digit=(DIG, ()), space=(WS, ('white_space',)), upper=(UP, ('uppercase',)), lower=(LOW, ('lowercase',)),
                                alpha_num=(DIG + UP + LOW, ('alphabetic', 'numeric')), letter=(UP + LOW, ('alphabetic',)), oct_digit=(OCT, ()), hex_digit=(HEX, ()))),
            ('k_byte', 255, dict(digit=(DIG, None), space=(BWS, None), upper=(UP, None), lower=(LOW, None), alpha_num=(DIG + UP + LOW, None),
                                 letter=(UP + LOW, None), oct_digit=(OCT, None), hex_digit=(HEX, None)))):
        for n, (a, t) in c.items():
            S('%s::%s' % (k, n), seq((a, t, top)))
        t = () if k == 'k_char' else None
        S(k + '::newline', seq((nl, t, top)))
        S(k + '::tab', seq((tab, t, top)))
        S(k + '::crlf', seq((cr, t, top), (nl, t, top)))
        S(k + '::spaces', many(c['space'] + (top,)), normal=trim)
        S('%s::%s' % (k, k[2:]), seq(equal))
    for k in ('u16', 'u32', 'u64', 'i16', 'i32', 'i64', 'f32', 'f64'):
        for e in ('be', 'le'):
            S('k_byte::%s_%s' % (e, k), number(k, int(k[1:]) // 8, e == 'be'))
