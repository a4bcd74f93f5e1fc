"""Event and label dataflow: what flows where, and in which order the environment is asked.

Used for code that is straight-line apart from its loops over input: stream adapters, concrete
streams, position trackers, error containers, decoders.  Every value coming from the environment is
an uninterpreted label; numbers are linear forms over input positions and named quantities.

LWorld  ghost state: the events so far (loops are collapsed to one representative iteration once the
        oracle has accepted it), the chain of known input positions with bounds on their distances,
        branch facts.
oracle  a function E -> None per root, replayed over the events: it says which event has to come
        next, with which arguments, and what the result has to be.
"""
from absint import *

MAXGAP = 40
ANY = ('any',)


class LWorld:
    __slots__ = ('spec', 'tr', 'chain', 'gap', 'facts', 'o', 'prog', 'nid', 'fuzz')

    def __init__(self, spec):
        self.spec = spec
        self.tr = ()
        self.chain = ()       # known input positions, in order
        self.gap = ()         # distance bounds between neighbours
        self.facts = ()       # sorted tuple of (fact, value)
        self.o = ()           # oracle registers
        self.prog = True
        self.nid = 0
        self.fuzz = False     # a branch was taken on an unknown value

    def copy(self):
        w = LWorld(self.spec)
        for k in LWorld.__slots__:
            if k != 'spec':
                setattr(w, k, getattr(self, k))
        return w

    def roots(self):
        return ()

    def on_panic(self, it, st, path, what, certain):
        if certain:
            it.violate(st, 'panic: %s in %s' % (what, path), 'a panic is reachable: %s in %s' % (what, it.where(st)))

    def on_unreachable(self, it, st):
        b = it.P.insts[st.fr[-1].inst]
        if 'unreachable_unchecked' in b['path']:
            it.violate(st, 'unreachable_unchecked', 'unreachable_unchecked is reached from %s' % it.where(st))

    # ------------------------------------------------------------------ facts
    def fact(self, k):
        for a, v in self.facts:
            if a == k:
                return v
        return None

    def learn(self, k, v):
        self.facts = tuple(sorted(tuple(f for f in self.facts if f[0] != k) + ((k, v),), key=str))

    # ------------------------------------------------------------------ positions
    def newpos(self):
        self.nid += 1
        return self.nid

    def index(self, p):
        return self.chain.index(p)

    def leftmost(self, x, have):
        """the combination x of positions in terms of the first ones (of `have`) at known distances: (x', k), x = x' + k"""
        out, k = {}, 0
        for p, f in x.items():
            if isinstance(p, int):
                if p not in self.chain:
                    return None, 0
                i = j = self.chain.index(p)
                best, n, m = (p, 0) if p in have else (None, 0), 0, 0
                while i > 0 and self.gap[i - 1][0] == self.gap[i - 1][1]:
                    n += self.gap[i - 1][0]
                    i -= 1
                    if self.chain[i] in have:
                        best = (self.chain[i], n)
                while best[0] is None and j < len(self.gap) and self.gap[j][0] == self.gap[j][1]:
                    m -= self.gap[j][0]
                    j += 1
                    if self.chain[j] in have:
                        best = (self.chain[j], m)
                if best[0] is None:
                    return None, 0
                p, n = best
                k += f * n
            out[p] = out.get(p, 0) + f
        return {p: f for p, f in out.items() if f}, k

    def rename_facts(self, have):
        """facts about combinations of positions, in terms of positions which are kept"""
        if not any(k[0] == 'S' for k, _ in self.facts):
            return
        out = {}
        for key, v in self.facts:
            if key[0] == 'S' and key[1][0] == 'k' and key[1][1] == 'ln' and any(isinstance(p, int) for p, _ in key[1][2]):
                x, k = self.leftmost(dict(key[1][2]), have)
                if not x:
                    continue
                lo, hi = v
                if sorted(x.items(), key=str)[0][1] < 0:
                    x, k, lo, hi = {p: -f for p, f in x.items()}, -k, None if hi is None else -hi, None if lo is None else -lo
                key = ('S', mk(x, 0))
                v = (None if lo is None else lo - k, None if hi is None else hi - k)
                if key in out:
                    v = (_max(v[0], out[key][0]), _min(v[1], out[key][1]))
                if v == (None, None):
                    continue
            out[key] = v
        self.facts = tuple(out.items())

    def rng(self, terms, c):
        """bounds of c + sum(coef * position); None when it is no combination of distances"""
        if any(not isinstance(s, int) for s in terms) or sum(terms.values()) != 0:
            if not terms:
                return (c, c)
            return None
        lo = hi = c
        wt = 0
        for i in range(len(self.chain) - 1, 0, -1):
            wt += terms.get(self.chain[i], 0)
            a, b = self.gap[i - 1]
            if wt > 0:
                lo = None if lo is None else lo + wt * a
                hi = None if hi is None or b is None else hi + wt * b
            elif wt < 0:
                hi = None if hi is None else hi + wt * a
                lo = None if lo is None or b is None else lo + wt * b
        return (lo, hi)

    def weights(self, terms):
        out = []
        wt = 0
        for i in range(len(self.chain) - 1, 0, -1):
            wt += terms.get(self.chain[i], 0)
            if wt:
                out.append((i - 1, wt))
        return out

    def restrict(self, i, lo, hi):
        """narrow gap i; False when impossible"""
        a, b = self.gap[i]
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        if b is not None and a > b:
            return False
        self.gap = self.gap[:i] + ((a, b),) + self.gap[i + 1:]
        return True

    def after(self, st, p, lo, hi):
        """states with a fresh position q at a distance lo..hi after p: [(state, q)]; only positions inside the chain"""
        i = self.index(p)
        out = []
        if i + 1 < len(self.chain):
            a, b = self.gap[i]
            q = self.newpos()
            s2 = st.copy()
            w = s2.w
            # q strictly inside or at the end of gap i
            w.chain = w.chain[:i + 1] + (q,) + w.chain[i + 1:]
            na = max(0, a - hi)
            nb = None if b is None else b - lo
            if nb is None or nb >= 0:
                w.gap = w.gap[:i] + ((lo, hi), (na, nb)) + w.gap[i + 1:]
                out.append((s2, q))
        return out

    def eq_pos(self, p, q):
        """are p and q the same position: True / False / None"""
        r = self.rng({p: 1, q: -1} if p != q else {}, 0)
        if r == (0, 0):
            return True
        if r is None:
            return None
        lo, hi = r
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return None

    # ------------------------------------------------------------------ canonical form
    def canon(self, it, st):
        used = set()
        toks = set()
        if self.spec.normal:
            self.spec.normal(self, it, st)

        def scan(v):
            if not isinstance(v, tuple):
                return
            if v and v[0] == 'k':
                k = v[1]
                if k == 'ln':
                    for s, _ in v[2]:
                        if isinstance(s, int):
                            used.add(s)
                    return
                if k == 'tk':
                    used.add(v[2])
                    toks.add(v[2])
                    return
            if v and v[0] == 'P':
                used.add(v[1])
                return
            if v and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'E':
                used.add(v[1][1])
                if v[3] is None:
                    toks.add(v[1][1])
                else:
                    scan(v[3])
                return
            for x in v:
                if isinstance(x, tuple):
                    scan(x)
        for f in st.fr:
            for v in f.loc:
                scan(v)
        for v in st.heap.values():
            scan(v)
        scan(self.tr)
        scan(self.o)
        # what is known about elements nothing holds any more is forgotten
        self.facts = tuple((k, v) for k, v in self.facts if not (k[0] == 'P' and (k[2] in ('end', 'vs') and k[1] not in toks)))
        for k, v in self.facts:
            if k[0] == 'P' and k[2] == 'end':
                scan(v)
        if self.chain:
            # forget positions nothing refers to
            keep = [i for i, p in enumerate(self.chain) if p in used or i in (0, len(self.chain) - 1)]
            gaps = []
            for a, b in zip(keep, keep[1:]):
                lo, hi = 0, 0
                for j in range(a, b):
                    lo += self.gap[j][0]
                    hi = None if hi is None or self.gap[j][1] is None else hi + self.gap[j][1]
                gaps.append((min(lo, MAXGAP), None if hi is None or hi > 2 * MAXGAP else hi))
            self.rename_facts({self.chain[i] for i in keep})
            self.chain = tuple(self.chain[i] for i in keep)
            self.gap = tuple(gaps)
        self.facts = tuple((k, v) for k, v in self.facts if not (k[0] == 'P' and k[1] not in used))
        m = {p: i for i, p in enumerate(self.chain)}
        base = {}

        def R(v):
            if not isinstance(v, tuple):
                return v
            if v and v[0] == 'k':
                k = v[1]
                if k == 'ln':
                    c = v[3]
                    ts = []
                    free = [s for s, f in v[2] if not isinstance(s, int)]
                    if len(v[2]) == 1 and len(free) == 1 and v[2][0][1] == 1 and free[0][0] == '~':
                        # a running counter: only differences to other uses matter
                        b = base.setdefault(free[0], c)
                        return ('k', 'ln', v[2], c - b)
                    for s, f in v[2]:
                        ts.append((m.get(s, s) if isinstance(s, int) else s, f))
                    return ('k', 'ln', tuple(sorted(ts, key=str)), c)
                if k == 'tk':
                    return ('k', 'tk', m.get(v[2], -1)) + v[3:]
            if v and v[0] == 'P':
                return ('P', m.get(v[1], -1)) + v[2:]
            if v and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'E':
                return ('p', ('E', m.get(v[1][1], -1))) + tuple(R(x) if isinstance(x, tuple) else x for x in v[2:])
            return tuple(R(x) if isinstance(x, tuple) else x for x in v)
        out = []
        for f in st.fr:
            out.append(tuple([R(x) for x in f.loc]))
        if st.heap:
            out.append(tuple(sorted(((k, R(v)) for k, v in st.heap.items()), key=lambda kv: str(kv[0]))))
        return (tuple(out), R(self.tr), R(self.o), R(self.facts), self.gap, tuple(i for i in range(len(self.chain))), self.fuzz)


# ---------------------------------------------------------------------- linear forms
def lin(v):
    if v[0] == 'c' and isinstance(v[1], int):
        return {}, v[1]
    if v[0] == 'k' and v[1] == 'ln':
        return dict(v[2]), v[3]
    if v[0] == 'k' and v[1] == 'o':
        return {v: 1}, 0
    return None


def mk(terms, c):
    t = tuple(sorted(((s, f) for s, f in terms.items() if f), key=str))
    if not t:
        return ('c', c)
    if c == 0 and len(t) == 1 and t[0][1] == 1 and isinstance(t[0][0], tuple):
        return t[0][0]
    return ('k', 'ln', t, c)


def addr(p, size):
    """the address of the input position p"""
    return ('k', 'ln', ((p, size),), 0)


def add(a, b, k=1):
    t = dict(a[0])
    for s, f in b[0].items():
        t[s] = t.get(s, 0) + k * f
    return {s: f for s, f in t.items() if f}, a[1] + k * b[1]


def dist(p, q, scale=1):
    return mk({q: scale, p: -scale}, 0) if p != q else ('c', 0)


def sym(name, c=0):
    return ('k', 'ln', ((name, 1),), c)


def compare(it, st, d, base):
    """d = (terms, c) compared with 0 by base: [(state, bool)] with what the outcome tells"""
    w = st.w
    r = w.rng(*d)
    def dec(lo, hi):
        if base == 'Eq':
            return True if lo == hi == 0 else False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
        if base == 'Ne':
            x = dec_(lo, hi, 'Eq')
            return None if x is None else not x
        return dec_(lo, hi, base)
    def dec_(lo, hi, b):
        if b == 'Eq':
            return True if lo == hi == 0 else False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
        if b == 'Lt':
            return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        if b == 'Le':
            return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
        if b == 'Gt':
            x = dec_(lo, hi, 'Le')
        else:
            x = dec_(lo, hi, 'Lt')
        return None if x is None else not x
    if r is not None:
        x = dec(*r)
        if x is not None:
            return [(st, x)]
        ws = w.weights(d[0])
        c = d[1] + sum(f * w.gap[i][0] for i, f in ws if w.gap[i][0] == w.gap[i][1])
        ws = [(i, f) for i, f in ws if w.gap[i][0] != w.gap[i][1]]
        if len(ws) == 1:
            i, f = ws[0]
            out = []
            for truth in (True, False):
                s2 = st.copy()
                if narrow(s2.w, i, f, c, base, truth):
                    out.append((s2, truth))
            return out
    t = sorted(d[0].items(), key=str)
    if len(t) == 1 and abs(t[0][1]) == 1 and isinstance(t[0][0], tuple) and is_label(t[0][0]):
        # a label compared with a number
        x = vcompare(it, st, t[0][0], -d[1] * t[0][1], base if t[0][1] > 0 else SWAP.get(base, base), None)
        if x is not None:
            return x
    # nothing known about the difference: the bounds of the combination are remembered as a fact
    x, c = d
    if any(isinstance(p, int) for p in x):
        w.rename_facts(set(w.chain))
        y, k = w.leftmost(x, set(w.chain))
        if y:
            x, c = y, c + k
    if sorted(x.items(), key=str)[0][1] < 0:
        x, c, base = {k: -f for k, f in x.items()}, -c, SWAP.get(base, base)
        if r is not None:
            ws = [(i, -f) for i, f in ws]
    key = ('S', mk(x, 0))
    lo, hi = w.fact(key) or (None, None)
    if r is not None:
        a, b = w.rng(x, 0)
        lo, hi = _max(lo, a), _min(hi, b)
    out = []
    for truth in (True, False):
        op = base if truth else NEG[base]
        for lo2, hi2 in {'Lt': ((None, -c - 1),), 'Le': ((None, -c),), 'Gt': ((1 - c, None),), 'Ge': ((-c, None),), 'Eq': ((-c, -c),),
                         'Ne': ((None, -c - 1), (1 - c, None))}[op]:
            l, h = _max(lo, lo2), _min(hi, hi2)
            if l is not None and h is not None and l > h:
                continue
            s2 = st.copy()
            if r is not None and (h is not None and h == a and not pin(s2.w, ws, 0) or l is not None and l == b and not pin(s2.w, ws, 1)):
                continue
            s2.w.learn(key, (l if l is None or abs(l) <= MAXGAP else None, h if h is None or abs(h) <= MAXGAP else None))
            out.append((s2, truth))
    return out


def _max(a, b):
    return b if a is None else a if b is None else max(a, b)


def _min(a, b):
    return b if a is None else a if b is None else min(a, b)


def pin(w, ws, up):
    """the combination has its least (greatest) value: so has every part of it"""
    for i, f in ws:
        v = w.gap[i][1 if (f > 0) == bool(up) else 0]
        if v is None or not w.restrict(i, v, v):
            return False
    return True


# ---------------------------------------------------------------------- sets of values a label can have
def domain(it, ty):
    t = it.P.types[ty] if ty is not None else {'k': 'uint', 'w': 64}
    if t['k'] == 'bool':
        return ((0, 1),)
    if t['k'] == 'char':
        return ((0, 0xD7FF), (0xE000, 0x10FFFF))
    if t['k'] == 'uint':
        return ((0, (1 << t['w']) - 1),)
    if t['k'] == 'int':
        return ((-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1),)
    return None


def vkey(v):
    return ('P', v[2], 'vs') + v[3:] if v[1] == 'tk' else ('V', v)


def vset(it, st, v, ty=None):
    return st.w.fact(vkey(v)) or domain(it, ty)


def cut(vs, lo, hi):
    return tuple((max(a, lo), min(b, hi)) for a, b in vs if max(a, lo) <= min(b, hi))


def is_label(v):
    return v[0] == 'k' and v[1] in ('o', 'tk')


def vcompare(it, st, v, n, base, ty):
    """[(state, truth)] of v base n"""
    t = it.P.types[ty] if ty is not None else {}
    if v[1] == 'tk' and st.w.spec.text and t.get('k') == 'uint' and t['w'] == 8 and vkey(v) not in dict(st.w.facts):
        # a byte of a text: where characters start decides what it can be
        out = []
        for s, cb in st.w.spec.bound(it, st, v[2]):
            s = s.copy()
            s.w.learn(vkey(v), ((0, 127), (194, 244)) if cb else ((128, 191),))
            out += vcompare(it, s, v, n, base, ty)
        return out
    vs = vset(it, st, v, ty)
    if vs is None:
        return None
    big = 1 << 130
    yes = {'Eq': [(n, n)], 'Ne': [(-big, n - 1), (n + 1, big)], 'Lt': [(-big, n - 1)], 'Le': [(-big, n)],
           'Gt': [(n + 1, big)], 'Ge': [(n, big)]}
    out = []
    for truth, rs in ((True, yes[base]), (False, yes[NEG[base]])):
        nv = tuple(sorted(x for lo, hi in rs for x in cut(vs, lo, hi)))
        if nv:
            s2 = st.copy()
            s2.w.learn(vkey(v), nv)
            out.append((s2, truth))
    return out


SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}


def narrow(w, i, f, c, base, truth):
    """f * gap_i + c  base  0"""
    if not truth:
        base = NEG[base]
    if f < 0:
        f, c = -f, -c
        base = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(base, base)
    # f > 0:  gap base -c/f
    n, rem = divmod(-c, f)        # gap compared with n + rem/f
    if base == 'Lt':
        return w.restrict(i, None, n - 1 if rem == 0 else n)
    if base == 'Le':
        return w.restrict(i, None, n)
    if base == 'Gt':
        return w.restrict(i, n + 1, None)
    if base == 'Ge':
        return w.restrict(i, n if rem == 0 else n + 1, None)
    if base == 'Eq':
        return rem == 0 and w.restrict(i, n, n)
    a, b = w.gap[i]
    if rem == 0 and a == n:
        return w.restrict(i, n + 1, None)
    if rem == 0 and b == n:
        return w.restrict(i, None, n - 1)
    return True


def binop(it, st, base, ck, a, b, ty):
    if st.w.spec.prebinop and (a[0] == 'k' or b[0] == 'k'):
        r = st.w.spec.prebinop(it, st, base, ck, a, b, ty)
        if r is not None:
            return r
    if a[0] != 'k' and b[0] != 'k':
        if a[0] == b[0] == 'p' and base in ('Eq', 'Ne') and a[1][0] != 'E' and a[1:3] == b[1:3]:
            return ('c', int(base == 'Eq'))
        if a[0] == 'p' and a[1][0] == 'E':
            if base == 'Offset' and lin(b) is not None:
                x = resolve(st, add(({a[1][1]: 1}, 0), lin(b)))
                if x is not None:
                    return ('p', ('E', x), (), a[3])
            elif b[0] == 'p' and b[1][0] == 'E' and base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                x, y = a[1][1], b[1][1]
                return [(s, ('c', int(v))) for s, v in compare(it, st, ({x: 1, y: -1} if x != y else {}, 0), base)]
        return None
    if a[0] == 'p' and a[1][0] == 'E' and base == 'Offset' and lin(b) is not None:
        x = resolve(st, add(({a[1][1]: 1}, 0), lin(b)))
        return ('p', ('E', x), (), a[3]) if x is not None else None
    if base in ('Eq', 'Ne') and a == b and a[0] == 'k':
        return ('c', int(base == 'Eq'))
    cmp_ = base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')
    if cmp_ and is_label(a) and b[0] == 'c' or cmp_ and is_label(b) and a[0] == 'c':
        r = vcompare(it, st, a, b[1], base, ty) if b[0] == 'c' else vcompare(it, st, b, a[1], SWAP.get(base, base), ty)
        if r is not None:
            return [(s, ('c', int(v))) for s, v in r]
    x, y = lin(a), lin(b)
    if x is None or y is None:
        h = st.w.spec.binop
        return h(it, st, base, ck, a, b, ty) if h else None
    if cmp_:
        return [(s, ('c', int(v))) for s, v in compare(it, st, add(x, y, -1), base)]
    if base == 'Cmp':
        out = []
        for s, v in compare(it, st, add(x, y, -1), 'Lt'):
            if v:
                out.append((s, ('a', it.P.name2ty.get('std::cmp::Ordering'), 0, ())))
            else:
                for s2, e in compare(it, s, add(x, y, -1), 'Eq'):
                    out.append((s2, ('a', it.P.name2ty.get('std::cmp::Ordering'), 1 if e else 2, ())))
        return out
    if base == 'Add':
        r = add(x, y)
    elif base == 'Sub':
        r = add(x, y, -1)
    elif base == 'Mul' and (not x[0] or not y[0]):
        k, z = (x[1], y) if not x[0] else (y[1], x)
        r = ({s: f * k for s, f in z[0].items()}, z[1] * k)
    elif base == 'Div' and not y[0] and y[1] and all(f % y[1] == 0 for f in x[0].values()) and x[1] % y[1] == 0:
        r = ({s: f // y[1] for s, f in x[0].items()}, x[1] // y[1])
    elif not y[0] and x[0] and (base == 'Rem' and y[1] > 0 or base == 'BitAnd' and y[1] > 0 and y[1] & (y[1] + 1) == 0):
        # any remainder is possible
        n = y[1] if base == 'Rem' else y[1] + 1
        t = it.P.types[ty] if ty is not None else {}
        v = lab('rem', None, (mk(*x), n))
        if t.get('k') == 'uint' and st.w.fact(vkey(v)) is None:
            st.w.learn(vkey(v), ((0, n - 1),))
        return v
    else:
        h = st.w.spec.binop
        return h(it, st, base, ck, a, b, ty) if h else None
    v = mk(*r)
    if not ck:
        return v
    t = it.P.types[ty]
    if base == 'Sub' and t['k'] == 'uint' and st.w.rng(*r) is not None:
        return [(s, ('a', None, 0, (v, ('c', int(o))))) for s, o in compare(it, st, r, 'Lt')]
    return ('a', None, 0, (v, ('c', 0)))     # counters do not overflow (assumption)


def resolve(st, d):
    """the input position that the linear form d (one position plus distances) denotes, or None"""
    w = st.w
    if any(not isinstance(s, int) for s in d[0]) or sum(d[0].values()) != 1:
        return None
    for y in w.chain:
        if w.rng(*add(d, ({y: 1}, 0), -1)) == (0, 0):
            return y
    # a known number of elements away from a known position
    for i, y in enumerate(w.chain):
        r = w.rng(*add(d, ({y: 1}, 0), -1))
        if r is None or r[0] != r[1] or r[0] is None:
            continue
        c = r[0]
        if c > 0 and i < len(w.gap) and w.gap[i][0] >= c:
            a, b = w.gap[i]
            q = w.newpos()
            w.chain = w.chain[:i + 1] + (q,) + w.chain[i + 1:]
            w.gap = w.gap[:i] + ((c, c), (a - c, None if b is None else b - c)) + w.gap[i + 1:]
            return q
        if c < 0 and i > 0 and w.gap[i - 1][0] >= -c:
            a, b = w.gap[i - 1]
            q = w.newpos()
            w.chain = w.chain[:i] + (q,) + w.chain[i:]
            w.gap = w.gap[:i - 1] + ((a + c, None if b is None else b + c), (-c, -c)) + w.gap[i:]
            return q
    return None


# ---------------------------------------------------------------------- labels and events
class Bad(Exception):
    pass


class Pending(Exception):
    pass


def lab(*t):
    return ('k', 'o', t)


def freeze(it, st, v, d=0):
    if v[0] == 'p':
        if d > 8:
            return ANY
        if v[1][0] == 'E':
            return v
        x = it.read(st, v[1], v[2])
        return freeze(it, st, x, d + 1)
    if v[0] == 'a':
        fs = tuple(freeze(it, st, x, d) for x in v[3])
        n = ''
        if v[1] is not None:
            t = it.P.types[v[1]]
            if t['k'] == 'adt' and t.get('ak') == 'enum':
                n = t['vs'][v[2]]['n']
            elif t['k'] == 'adt' and t.get('n', '').startswith('std::marker::PhantomData'):
                return ('',)
        b = whole(fs, n or '.', st)
        if b is not None:
            return b
        return (n,) + fs
    if v[0] == 'u':
        return ('',)
    return v


def whole(fs, name, st):
    """the label whose fields these are"""
    if not fs:
        return None
    b = None
    for j, x in enumerate(fs):
        if x == ('',):
            continue
        if not (x[0] == 'k' and x[1] == 'o' and len(x[2]) > 2 and x[2][-2:] == (name, j)):
            return None
        c = x[2][:-2]
        if b is not None and c != b:
            return None
        b = c
    if b is None or name != '.' and st.w.fact(('D', ('k', 'o', b))) != name:
        return None
    return ('k', 'o', b)


def labels(v, out=None):
    """the environment objects inside a frozen value"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == 'k':
            out.add(v)
        else:
            for x in v:
                labels(x, out)
    return out


def unknown(v):
    """does the frozen value contain something the analysis does not know"""
    if isinstance(v, tuple):
        if v and v[0] == 't':
            return True
        if v and v[0] == 'k':
            return False
        return any(unknown(x) for x in v)
    return False


def fits(e, v, w=None):
    if e == ANY:
        return True
    if w is not None and isinstance(e, tuple) and isinstance(v, tuple) and e and v and (is_label(e) and v[0] == 'c' or e[0] == 'c' and is_label(v)):
        l, n = (e, v[1]) if is_label(e) else (v, e[1])
        return w.fact(vkey(l)) == ((n, n),)
    if callable(e):
        return e(v)
    if isinstance(e, frozenset):
        return v in e
    if isinstance(e, tuple) and isinstance(v, tuple) and e and e[0] != 'k' and v and v[0] != 'k':
        return len(e) == len(v) and all(fits(x, y, w) for x, y in zip(e, v))
    return e == v


class Replay:
    """runs an oracle against the recorded events"""

    def __init__(self, it, st):
        self.it = it
        self.st = st
        self.w = st.w
        self.tr = st.w.tr
        self.i = 0

    def peek(self):
        if self.i == len(self.tr):
            raise Pending()
        return self.tr[self.i]

    def ev(self, name, *args):
        n, a, o = self.peek()
        if n != name:
            raise Bad('%s instead of %s' % (say(n), say(name)))
        if len(args) > len(a) or not all(fits(x, y, self.w) for x, y in zip(args, a)):
            if any(unknown(y) for y in a):
                raise Unknown()
            raise Bad('%s with other values than required' % say(n))
        self.i += 1
        return o

    def any(self, *evs):
        """the given events in any order; outcomes in the order given"""
        out = {}
        todo = list(range(len(evs)))
        while todo:
            n = self.peek()[0]
            k = next((j for j in todo if evs[j][0] == n), None)
            if k is None:
                raise Bad('%s instead of %s' % (say(n), ' / '.join(say(evs[j][0]) for j in todo)))
            out[k] = self.ev(*evs[k])
            todo.remove(k)
        return [out[j] for j in range(len(evs))]

    def pure(self, name, *args):
        """what an observation would answer now"""
        return lab(name, self.i if args and args[0] in self.w.spec.objects else None, args)

    def ret(self, *vals):
        n, a, o = self.peek()
        if n != 'done':
            raise Bad('%s although everything was done' % say(n))
        for e, v in zip(vals, a):
            if not fits(e, v, self.w):
                if unknown(v):
                    raise Unknown()
                raise Bad('the result is not the required one: %s' % show(v))
        self.i += 1


class Unknown(Exception):
    pass


def say(n):
    return n


def show(v):
    if isinstance(v, tuple):
        if v and v[0] == 'k':
            return '<%s>' % ' '.join(str(x) for x in v[2:])[:120]
        if v and v[0] == 'c':
            return str(v[1])
        return '%s(%s)' % (v[0] if v and isinstance(v[0], str) else '', ', '.join(show(x) for x in v[1:]))
    return str(v)


def bad(it, st, rule, msg):
    it.violate(st, rule, '%s (at %s)' % (msg, it.where(st)))
    return []


def judge(it, st):
    """does the oracle accept the events so far?"""
    e = Replay(it, st)
    try:
        st.w.spec.oracle(e)
    except Pending:
        return True
    except Bad as x:
        it.violate(st, str(x).split(': ')[0][:80], '%s (at %s)' % (x, it.where(st)))
        return False
    except Unknown:
        it.note('a value the analysis does not know is passed on')
        return False
    if e.i != len(e.tr):
        it.violate(st, 'unexpected %s' % say(e.tr[e.i][0]), 'unexpected %s (at %s)' % (say(e.tr[e.i][0]), it.where(st)))
        return False
    return True


def outcomes(it, ty, name, i):
    """(value, frozen outcome) for every way an event can end"""
    t = it.P.types[ty]
    if t['k'] == 'bool':
        return [(('c', 1), ('c', 1)), (('c', 0), ('c', 0))]
    if t['k'] == 'tuple' and not t['f']:
        return [(UNIT, ('',))]
    if t['k'] == 'adt' and t.get('ak') == 'enum' and not (t.get('n') or '').startswith(('combine::easy', 'easy::')):
        out = []
        for k, v in enumerate(t['vs']):
            fs, fr = [], []
            for j, (fn, fty) in enumerate(v['f']):
                x, y = fill(it, fty, lab(name, i, v['n'], j))
                fs.append(x)
                fr.append(y)
            out.append((('a', ty, k, tuple(fs)), (v['n'],) + tuple(fr)))
        return out
    v = lab(name, i)
    return [(v, v)]


def fill(it, ty, l):
    t = it.P.types[ty]
    if t['k'] == 'tuple' and not t['f']:
        return UNIT, ('',)
    if t['k'] == 'adt' and t.get('ak') == 'struct' and (t.get('n') or '').startswith('combine::error::Tracked'):
        v = ('a', ty, 0, (l, ('a', t['vs'][0]['f'][1][1], 0, (('c', 1),))))
        return v, ('', l, ('', ('c', 1)))
    return l, l


def m_event(it, st, b, args, ty, sp):
    name = b['path'].split('::')[-1]
    w = st.w
    fa = tuple(freeze(it, st, a) for a in args)
    if name.startswith('p_'):
        if name.endswith('_eq'):
            fa = tuple(sorted(fa, key=str))
        v = lab(name, len(w.tr) if fa and fa[0] in w.spec.objects else None, fa)
        return [(st, v)]
    if name == 'new':
        v = lab('new', args[0][1])
        return [(st, v)]
    out = []
    outs = outcomes(it, ty, name, len(w.tr))
    if name == 'zw_next':
        # one representative iteration of the loop is enough: the oracle accepted the others
        js = [j for j, e in enumerate(w.tr) if e[0] == name]
        if len(js) >= 3:
            w.tr = w.tr[:js[1]] + w.tr[js[2]:]
            outs = outcomes(it, ty, name, len(w.tr))
    for k, (v, fz) in enumerate(outs):
        s2 = st.copy() if k + 1 < len(outs) else st
        s2.w.tr = s2.w.tr + ((name, fa, fz),)
        s2.w.prog = True
        s2.log(name, show(fz))
        if judge(it, s2):
            if name == 'done':
                it.ret_kinds.add(show(fa[0])[:60])
            else:
                out.append((s2, v))
    return out


def fork_switch(it, st, v, t):
    """a switch on a label: the label is known to have the value afterwards"""
    out = []
    rest = st
    for (x, tg) in t[2]:
        n = x
        if it.P.types[t[4]]['k'] == 'int' and x >= 1 << 63:
            n = x - (1 << 64) if x < 1 << 64 else x - (1 << 128)
        r = vcompare(it, rest, v, n, 'Eq', t[4])
        if r is None:
            return None
        rest = None
        for s2, truth in r:
            if truth:
                if it.enter(s2, tg):
                    out.append(s2)
            else:
                rest = s2
        if rest is None:
            break
    if rest is not None and not it.dead_otherwise(rest, t[3]) and it.enter(rest, t[3]):
        out.append(rest)
    return out if out else []


def payload(it, ty, v, name, j):
    """field j of (variant name of) the label v"""
    if ty is not None:
        t = it.P.types[ty]
        if t['k'] == 'tuple' and not t['f']:
            return UNIT
        if t['k'] == 'adt' and (t.get('n') or '').startswith('std::marker::PhantomData'):
            return ('a', ty, 0, ())
    return lab(*(v[2] + (name, j)))


class LInterp(Interp):
    def child(self, v, e, ty, variant):
        if v[0] == 'k' and v[1] == 'o' and v[2][0] != 'new0':
            t = self.P.types[ty] if ty is not None else None
            name = '.'
            if t is not None and t['k'] == 'adt' and t.get('ak') == 'enum':
                if variant is None:
                    return TOP
                name = t['vs'][variant]['n']
            if t is not None and t['k'] in ('adt', 'tuple'):
                return payload(self, self.fieldty(ty, variant or 0, e), v, name, e)
        return Interp.child(self, v, e, ty, variant)

    def expand(self, v, ty, variant=0):
        return Interp.expand(self, v, ty, variant)

    def _put(self, v, path, k, val, ty, variant):
        # writing into a label: make its fields explicit
        if v[0] == 'k' and v[1] == 'o' and k < len(path) and not isinstance(path[k], tuple):
            x = self.unfold(v, ty, variant)
            if x is not None:
                v = x
        return Interp._put(self, v, path, k, val, ty, variant)

    def unfold(self, v, ty, variant):
        t = self.P.types[ty] if ty is not None else None
        if t is None:
            return None
        if t['k'] == 'adt' and t.get('ak') == 'enum':
            if variant is None:
                return None
            return ('a', ty, variant, tuple(payload(self, f[1], v, t['vs'][variant]['n'], j) for j, f in enumerate(t['vs'][variant]['f'])))
        if t['k'] == 'adt' and t.get('ak') == 'struct':
            return ('a', ty, 0, tuple(payload(self, f[1], v, '.', j) for j, f in enumerate(t['vs'][0]['f'])))
        if t['k'] == 'tuple':
            return ('a', ty, 0, tuple(payload(self, f, v, '.', j) for j, f in enumerate(t['f'])))
        return None

    @staticmethod
    def switch_hook(it, st, v, t):
        return fork_switch(it, st, v, t) if is_label(v) else None

    def place(self, st, p):
        d = len(st.fr) - 1
        for j, e in enumerate(p[1:], 1):
            if e != '*' and e[0] in 'ic':
                y = Interp.place(self, st, p[:j])
                if y is not None and y[1] == () and y[0][0] == 'E':
                    if e[0] == 'i':
                        i = lin(st.fr[d].loc[e[1]])
                    elif e[2]:
                        n = self.fatlen(st, p[:j])
                        i = None if n is None else add(n, ({}, e[1]), -1)
                    else:
                        i = ({}, e[1])
                    x = None if i is None else resolve(st, add(({y[0][1]: 1}, 0), i))
                    if x is None:
                        return None
                    # elements have no inner structure
                    return ('E', x), ()
        return Interp.place(self, st, p)

    def fatlen(self, st, p):
        """length of the slice the place p (ending in a dereference) denotes"""
        if p[-1] != '*':
            return None
        y = Interp.place(self, st, p[:-1]) if len(p) > 2 else (('L', len(st.fr) - 1, p[0]), ())
        v = self.unwrap_ptr(self.read(st, *y)) if y is not None else None
        return lin(v[3][1]) if v is not None and v[0] == 'p' and v[3] is not None and v[3][0] == 'len' else None

    def rvalue(self, st, r, sp):
        if r[0] == 'disc':
            x = self.place(st, r[1])
            v = self.read(st, *x) if x is not None else None
            t = self.P.types[r[2]]
            if v is not None and v[0] == 'k' and v[1] == 'o' and t['k'] == 'adt' and t.get('ak') == 'enum':
                known = st.w.fact(('D', v))
                ks = [k for k, vv in enumerate(t['vs']) if known is None or vv['n'] == known]
                out = []
                for i, k in enumerate(ks):
                    s2 = st.copy() if i + 1 < len(ks) else st
                    s2.w.learn(('D', v), t['vs'][k]['n'])
                    self.write(s2, x[0], x[1], self.unfold(v, r[2], k))
                    out.append((s2, ('c', t['vs'][k]['d'])))
                return out
        if r[0] == 'ref' and isinstance(r[1][-1], list) and r[1][-1][0] == 's':
            p = r[1][:-1]
            y = self.place(st, p)
            if y is not None and y[0][0] == 'E' and y[1] == ():
                n = self.fatlen(st, p)
                _, a, b, fe = r[1][-1]
                x = resolve(st, ({y[0][1]: 1}, a))
                if n is not None and x is not None:
                    end = add(n, ({}, b), -1) if fe else ({}, b)
                    return [(st, ('p', ('E', x), (), ('len', mk(*add(end, ({}, a), -1)))))]
        if r[0] == 'cast' and ('Expose' in r[1] or r[1].startswith('Transmute')) and self.P.types[r[4]]['k'] == 'uint':
            a = self.unwrap_ptr(self.op(st, r[2]))
            if a[0] == 'p' and a[1][0] == 'E' and st.w.spec.elem:
                return [(st, addr(a[1][1], st.w.spec.elem))]
        return Interp.rvalue(self, st, r, sp)

    @staticmethod
    def cast_hook(it, st, a, s, d):
        if is_label(a) or a[0] == 'k' and a[1] == 'ln':
            x, y = domain(it, s), domain(it, d)
            vs = vset(it, st, a, s) if is_label(a) else x
            if vs and y and y[0][0] <= vs[0][0] and vs[-1][1] <= y[-1][1]:
                return a          # the value stays the same
        if st.w.spec.precast and is_label(a):
            return st.w.spec.precast(it, st, a, s, d)
        return None

    def rootval(self, st, region):
        if region[0] == 'E':
            return ('k', 'tk', region[1])
        return Interp.rootval(self, st, region)

    def setroot(self, st, region, v):
        if region[0] == 'E':
            return
        Interp.setroot(self, st, region, v)


def rename(v, d):
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == 'k' and v[1] == 'o':
        t = v[2]
        i = t[1] if len(t) > 1 else None
        if t[0] != 'new' and isinstance(i, int) and not isinstance(i, bool):
            i = i - d if i >= d else 'old'
            t = (t[0], i) + t[2:]
        return ('k', 'o', t[:2] + tuple(rename(x, d) for x in t[2:]))
    return tuple(rename(x, d) if isinstance(x, tuple) else x for x in v)


def used(st, k):
    l = k[1]
    return any(contains(v, l) for f in st.fr for v in f.loc) or any(contains(v, l) for v in st.heap.values()) or contains(st.w.o, l)


def contains(v, l):
    return v == l or isinstance(v, tuple) and any(contains(x, l) for x in v if isinstance(x, tuple))


def forget(st, d):
    """the first d events are forgotten"""
    w = st.w
    for f in st.fr:
        f.loc = [rename(v, d) for v in f.loc]
    st.heap = {k: rename(v, d) for k, v in st.heap.items()}
    w.tr = rename(w.tr[d:], d)
    w.facts = tuple(sorted(((rename(k, d), v) for k, v in w.facts), key=str))
    w.facts = tuple((k, v) for k, v in w.facts if "'old'" not in str(k) or used(st, k))
    w.o = rename(w.o, d)


class LSpec:
    prog = 'streams'
    kind = 'lin'
    elem = None     # size of one element in memory
    text = False    # the input is UTF-8 text
    budget = 40000
    cost = 1
    binop = None
    prebinop = None
    precast = None
    normal = None
    objects = (lab('new', 0), lab('new', 1))
    models = {}

    def __init__(self, oracle, **kw):
        self.oracle = oracle
        for k, v in kw.items():
            setattr(self, k, v)


def interp(P, sp, **kw):
    import model
    m = {k: v for k, v in model.MODELS.items() if not k.startswith('opq::')}
    m.update(MODELS)
    m['*'] = (('opq::', m_event),)
    m.update(sp.models)
    it = LInterp(P, m, LWorld(sp), **kw)
    it.binop_hook = binop
    if sp.prog == 'incr':
        import inc
        it.ptrmeta_hook = inc.ptrmeta
        it.not_hook = inc.notl
    return it


def m_minmax(base):
    def m(it, st, b, args, ty, sp):
        x, y = lin(args[0]), lin(args[1])
        if x is None or y is None:
            import model
            return (model.m_int_min if base == 'Le' else model.m_int_max)(it, st, b, args, ty, sp)
        return [(s, args[0] if t else args[1]) for s, t in compare(it, st, add(x, y, -1), base)]
    return m


def m_satsub(it, st, b, args, ty, sp):
    x, y = lin(args[0]), lin(args[1])
    if x is None or y is None:
        return [(st, ('t', ty))]
    d = add(x, y, -1)
    return [(s, ('c', 0) if t else mk(*d)) for s, t in compare(it, st, d, 'Le')]


MODELS = {
    'std::intrinsics::integer_min': m_minmax('Le'), 'std::intrinsics::integer_max': m_minmax('Ge'),
    'std::intrinsics::saturating_sub': m_satsub,
}
