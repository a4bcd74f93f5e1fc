"""The modelled environment of combine's combinators (engine/harness/src/opq.rs).

World is the ghost state of one abstract path: where the stream is, what the contract says about
the child parsers, and the state of the specification automaton (specs.py) the combinator under
analysis has to follow.  Everything the analysed code can observe of a child parser, of the stream
or of a user function goes through the functions registered in MODELS.

Contract assumed of a child parser (and, by the same rules, demanded of the combinator itself):
  first call at L, clean slot   CommitOk -> later position; PeekOk -> same position;
                                PeekErr  -> anywhere, slot clean, never end-of-input on a partial stream;
                                CommitErr (fatal) -> anywhere, slot unusable;
                                CommitErr (needs input, partial stream only) -> slot holds a resume
                                  point at r, r == L or later
  resumed call                  only through parse_partial, on that slot, at r;
                                after input was consumed only CommitOk / CommitErr
"""
from absint import *

TOKK = ('pos', 'ck', 'v', 'tk', 'er', 'coll', 'ps', 'se')


class World:
    __slots__ = ('spec', 's', 'pos', 'L', 'start', 'partial', 'susp', 'snaps', 'gt', 'coll', 'dead', 'round', 'entry', 'phase', 'dirty', 'used', 'moved', 'succ', 'rfail', 'nsusp', 'floor', 'env', 'lens', 'noroom', 'fact', 'end', 'prog', 'fuzz')

    def __init__(self, spec):
        self.spec = spec
        self.s = None
        self.pos = 0
        self.L = 0
        self.start = 0
        self.partial = None
        self.susp = None      # (child, r, consumed)
        self.snaps = ()       # (pos, spec state as tuple)
        self.gt = frozenset()
        self.coll = None
        self.dead = False     # a stream reset failed
        self.round = 0
        self.entry = None
        self.phase = 'idle'
        self.dirty = frozenset()
        self.rfail = False        # a stream reset failed during this run
        self.nsusp = 0
        self.floor = 0            # what the caller was told is parsed: may be gone
        self.env = None
        self.lens = frozenset()   # (p, size, q): a range of that size reaches from p to q
        self.noroom = frozenset() # (p, size): the buffer ends before
        self.fact = None          # (p, what is known to follow there)
        self.end = None           # end of the buffer
        self.fuzz = False         # a branch was taken on an unknown value
        self.prog = True          # the specification made a step since the last join
        self.used = frozenset()   # collections of abandoned or finished runs
        self.moved = False        # the caller saw a suspension after the start position
        self.succ = frozenset()   # exact successor facts (roots with unit steps)

    def copy(self):
        w = World(self.spec)
        for k in World.__slots__:
            if k == 's':
                w.s = dict(self.s) if self.s is not None else None
            elif k != 'spec':
                setattr(w, k, getattr(self, k))
        return w

    def roots(self):
        return ()

    # ------------------------------------------------------------------ canonical form
    def canon(self, it, st):
        pm = {}
        vm = {}
        cm = {}
        em = {}

        def P(i):
            r = pm.get(i)
            if r is None:
                r = pm[i] = len(pm)
            return r

        def R(v):
            k = v[0]
            if k == 'a':
                return ('a', v[1], v[2], tuple([R(x) if x[0] in 'akpc' and x[0] != 'c' else x for x in v[3]]))
            if k == 'k':
                kk = v[1]
                if kk == 'pos' or kk == 'ck' or kk == 'tk':
                    return ('k', kk, P(v[2]))
                if kk == 'v':
                    key = (kk, v[2])
                    r = vm.get(key)
                    if r is None:
                        r = vm[key] = len(vm)
                    return ('k', kk, r) + v[3:]
                if kk == 'er':
                    return ('k', 'er', P(v[2]), v[3], v[4])
                if kk == 'coll':
                    r = cm.get(v[2])
                    if r is None:
                        r = cm[v[2]] = len(cm)
                    return ('k', 'coll', r)
                if kk == 'ps':
                    if v[2] == 'susp':
                        return ('k', 'ps', 'susp', v[3], P(v[4]), v[5])
                    return v
                if kk in ('dist', 'rg'):
                    return ('k', kk, P(v[2]), P(v[3]))
                return v
            if k == 'p':
                return ('p', v[1], v[2], v[3])
            return v
        S = tuple(sorted((k, self.R2(R, P, v)) for k, v in self.s.items())) if self.s is not None else None
        out = [P(self.pos), P(self.L), P(self.start), P(self.floor), self.env]
        for f in st.fr:
            out.append(tuple([R(x) if x[0] in 'ak' or x[0] == 'co' else x for x in f.loc]))
        if st.heap:
            out.append(tuple(sorted(((k, R(v)) for k, v in st.heap.items()), key=lambda kv: str(kv[0]))))
        if self.susp:
            out.append((self.susp[0], P(self.susp[1]), self.susp[2]))
        # snapshots matter only while their position can be reached again
        sc = {a: b for a, b in self.succ}
        for a in list(pm):
            chain = []
            x = a
            while x in sc and sc[x] not in pm and len(chain) < 6:
                x = sc[x]
                chain.append(x)
            if x in sc and sc[x] in pm:
                for y in chain:
                    P(y)
        live = dict(pm)
        sn = []
        keep = []
        for (p, lst, co) in self.snaps:
            if p in live and (co is None or co in cm) and all(x in vm for x in tokens_of(lst)):
                sn.append((P(p), tuple(sorted((k, self.R2(R, P, v)) for k, v in lst)), None if co is None else cm.get(co, -1)))
                keep.append((p, lst, co))
        self.snaps = tuple(keep)
        self.gt = frozenset((a, b) for a, b in self.gt if a in pm and b in pm)
        self.dirty = frozenset(a for a in self.dirty if a in pm)
        g = frozenset((pm[a], pm[b]) for a, b in self.gt)
        d = frozenset(pm[a] for a in self.dirty)
        c = cm.get(self.coll, None if self.coll is None else -1)
        self.used = frozenset(a for a in self.used if a in cm)
        self.succ = frozenset((a, b) for a, b in self.succ if a in pm and b in pm)
        self.lens = frozenset(x for x in self.lens if x[0] in pm and x[2] in pm)
        self.noroom = frozenset(x for x in self.noroom if x[0] in pm)
        if self.fact is not None and self.fact[0] not in pm:
            self.fact = None
        if self.end is not None and self.end not in pm:
            self.end = None
        rx = (frozenset((pm[a], z, pm[b]) for a, z, b in self.lens), frozenset((pm[a], z) for a, z in self.noroom),
              None if self.fact is None else (pm[self.fact[0]], self.fact[1]), None if self.end is None else pm[self.end])
        ex = (rx, frozenset(cm[a] for a in self.used), self.moved, self.rfail, self.nsusp, frozenset((pm[a], pm[b]) for a, b in self.succ))
        return (S, tuple(out), tuple(sn), g, d, c, ex, self.partial, self.dead, min(self.round, 1), self.entry, self.phase, self.fuzz)

    def R2(self, R, P, v):
        if isinstance(v, tuple):
            if v and v[0] == 'k':
                return R(v)
            if v and v[0] == '@':
                return ('@', P(v[1]))
            return tuple(self.R2(R, P, x) for x in v)
        return v

    # ------------------------------------------------------------------ positions
    def ids(self, st):
        """all position ids in use"""
        out = {self.pos, self.L, self.start, self.floor}

        def go(v):
            k = v[0]
            if k == 'a':
                for x in v[3]:
                    go(x)
            elif k == 'k':
                if v[1] in ('pos', 'ck', 'er', 'tk'):
                    out.add(v[2])
                elif v[1] in ('dist', 'rg'):
                    out.add(v[2])
                    out.add(v[3])
                elif v[1] == 'ps' and v[2] == 'susp':
                    out.add(v[4])
            elif k == 'co':
                for _, x in v[3]:
                    go(x)
        for f in st.fr:
            for v in f.loc:
                go(v)
        for v in st.heap.values():
            go(v)

        def go2(v):
            if isinstance(v, tuple):
                if v and v[0] == '@':
                    out.add(v[1])
                elif v and v[0] == 'k':
                    go(v)
                else:
                    for x in v:
                        go2(x)
        if self.s is not None:
            for v in self.s.values():
                go2(v)
        if self.susp:
            out.add(self.susp[1])
        for p, l, _ in self.snaps:
            out.add(p)
            go2(l)
        for a, _, b in self.lens:
            out.add(a)
            out.add(b)
        for a, _ in self.noroom:
            out.add(a)
        if self.fact is not None:
            out.add(self.fact[0])
        if self.end is not None:
            out.add(self.end)
        for a, b in self.succ:
            out.add(a)
            out.add(b)
        return out

    def fresh(self, st, after=None, dirty=False):
        u = self.ids(st)
        n = 0
        while n in u:
            n += 1
        self.gt = frozenset((a, b) for a, b in self.gt if a != n and b != n)
        self.succ = frozenset((a, b) for a, b in self.succ if a != n and b != n)
        self.dirty = self.dirty - {n}
        if after is not None:
            anc = {a for a, b in self.gt if b == after} | {after}
            self.gt = self.gt | {(a, n) for a in anc}
        if dirty:
            self.dirty = self.dirty | {n}
        return n

    def step(self, st, p, n=1):
        """the position n tokens after p (roots with unit steps)"""
        for _ in range(n):
            q = next((b for a, b in self.succ if a == p), None)
            if q is None:
                q = self.fresh(st, after=p)
                self.succ = frozenset((a, b) for a, b in self.succ if a != q and b != q) | {(p, q)}
            p = q
        return p

    def consumed(self, st, p):
        """positions a child may have reached after consuming input from p: [(state, pos)]"""
        if not self.spec.steps:
            s2 = st.copy()
            return [(s2, s2.w.fresh(s2, after=p))]
        out = []
        for n in self.spec.steps:
            s2 = st.copy()
            out.append((s2, s2.w.step(s2, p, n)))
        return out

    def freshtok(self, st, kind):
        used = set()

        def go(v):
            if v[0] == 'a':
                for x in v[3]:
                    go(x)
            elif v[0] == 'k' and v[1] == kind:
                used.add(v[2])

        def go2(v):
            if isinstance(v, tuple):
                if v and v[0] == 'k':
                    go(v)
                else:
                    for x in v:
                        go2(x)
        for f in st.fr:
            for v in f.loc:
                go(v)
        for v in st.heap.values():
            go(v)
        if self.s is not None:
            for v in self.s.values():
                go2(v)
        for p, l, co in self.snaps:
            go2(l)
            if kind == 'coll' and co is not None:
                used.add(co)
        if kind == 'coll':
            used |= self.used
            if self.coll is not None:
                used.add(self.coll)
        n = 0
        while n in used:
            n += 1
        return ('k', kind, n)

    def unify(self, st, a, b):
        """position id a turned out to be equal to b"""
        def go(v):
            if v[0] == 'a':
                return ('a', v[1], v[2], tuple(go(x) for x in v[3]))
            if v[0] == 'k':
                if v[1] in ('pos', 'ck', 'er', 'tk') and v[2] == a:
                    return v[:2] + (b,) + v[3:]
                if v[1] == 'ps' and v[2] == 'susp' and v[4] == a:
                    return v[:4] + (b,) + v[5:]
                if v[1] in ('dist', 'rg') and a in (v[2], v[3]):
                    return v[:2] + tuple(b if x == a else x for x in v[2:4])
            return v

        def go2(v):
            if isinstance(v, tuple):
                if v and v[0] == 'k':
                    return go(v)
                if v and v[0] == '@':
                    return ('@', b) if v[1] == a else v
                return tuple(go2(x) for x in v)
            return v
        for f in st.fr:
            f.loc = [go(v) for v in f.loc]
        st.heap = {k: go(v) for k, v in st.heap.items()}
        if self.s is not None:
            self.s = {k: go2(v) for k, v in self.s.items()}
        self.pos = b if self.pos == a else self.pos
        self.L = b if self.L == a else self.L
        self.start = b if self.start == a else self.start
        self.floor = b if self.floor == a else self.floor
        if self.susp and self.susp[1] == a:
            self.susp = (self.susp[0], b, self.susp[2])
        self.snaps = tuple((b if p == a else p, go2(l), co) for p, l, co in self.snaps)
        self.succ = frozenset((b if x == a else x, b if y == a else y) for x, y in self.succ)
        self.lens = frozenset((b if x == a else x, z, b if y == a else y) for x, z, y in self.lens)
        self.noroom = frozenset((b if x == a else x, z) for x, z in self.noroom)
        if self.fact is not None and self.fact[0] == a:
            self.fact = (b, self.fact[1])
        self.end = b if self.end == a else self.end
        g = set()
        for x, y in self.gt:
            x = b if x == a else x
            y = b if y == a else y
            if x != y:
                g.add((x, y))
        self.gt = frozenset(g)
        self.dirty = self.dirty - {a}

    # ------------------------------------------------------------------ reports
    def on_panic(self, it, st, path, what, certain):
        if certain:
            it.violate(st, 'panic: %s in %s' % (what, path), 'a panic is reachable: %s in %s' % (what, it.where(st)))

    def on_unreachable(self, it, st):
        b = it.P.insts[st.fr[-1].inst]
        if 'unreachable_unchecked' in b['path']:
            it.violate(st, 'unreachable_unchecked', 'unreachable_unchecked is reached from %s' % it.where(st))


def bad(it, st, rule, msg):
    it.violate(st, rule, '%s (at %s)' % (msg, it.where(st)))
    return []


# ---------------------------------------------------------------------- values
def variant(it, ty, name, fields):
    t = it.P.types[ty]
    for i, v in enumerate(t['vs']):
        if v['n'] == name:
            return ('a', ty, i, tuple(fields))
    raise KeyError(name)


def vname(it, v):
    return it.P.types[v[1]]['vs'][v[2]]['n']


def variant_fty(it, ty, name, i=0):
    t = it.P.types[ty]
    for v in t['vs']:
        if v['n'] == name:
            return v['f'][i][1]


def result(it, ty, ok, v):
    return variant(it, ty, 'Ok' if ok else 'Err', [v])


def tracked(it, ty, er):
    """Tracked { error, offset } with the default offset"""
    return ('a', ty, 0, (er, ('a', it.P.types[ty]['vs'][0]['f'][1][1], 0, (('c', 1),))))


def mk_er(pos, items, eoi):
    return ('k', 'er', pos, frozenset(items), bool(eoi))


def deref(it, st, v):
    v = it.unwrap_ptr(v)
    if v[0] == 'p':
        return it.read(st, v[1], v[2])
    return TOP


def store(it, st, p, v):
    p = it.unwrap_ptr(p)
    if p[0] == 'p':
        it.write(st, p[1], p[2], v)


# ---------------------------------------------------------------------- specification steps
def spec_allowed(w):
    return w.spec.next(w.s)


def snap(w):
    """remember the specification state at the current logical position"""
    if w.s is None:
        return
    e = (w.L, tuple(sorted(w.s.items(), key=lambda kv: kv[0])), w.coll)
    if e not in w.snaps:
        w.snaps = w.snaps + (e,)


def set_s(w, s):
    if '@L' in s:
        s = dict(s)
        w.L = s.pop('@L')[1]
    w.s = s
    w.prog = True
    snap(w)


def actions_at(w, pred):
    for a in spec_allowed(w):
        if pred(a):
            return a
    return None


def live_tokens(st):
    out = set()

    def go(v):
        if v[0] == 'a':
            for x in v[3]:
                go(x)
        elif v[0] == 'co':
            for _, x in v[3]:
                go(x)
        elif v[0] == 'k' and len(v) > 2:
            out.add((v[1], v[2]))
    for f in st.fr:
        for v in f.loc:
            go(v)
    for v in st.heap.values():
        go(v)
    return out


def tokens_of(l):
    out = set()

    def go(v):
        if isinstance(v, tuple):
            if len(v) > 2 and v[0] == 'k' and v[1] == 'v':
                out.add((v[1], v[2]))
            else:
                for x in v:
                    go(x)
    for k, v in l:
        if k != 'pend':
            go(v)
        else:
            go(v)
    return out


def find_action(it, st, pred):
    """the pending specification action matching the event, possibly after restarting from an
    earlier specification state at the position the stream has been put back to"""
    w = st.w
    if w.susp is None:
        a = actions_at(w, pred)
        if a is not None and w.pos == w.L:
            return a
    if w.susp is not None and w.phase == 'run':
        live = None
        for p, l, co in reversed(w.snaps):
            if p == w.pos:
                s = dict(l)
                if live is None:
                    live = live_tokens(st)
                if (co is not None and ('coll', co) not in live) or not all(x in live for x in tokens_of(l)):
                    continue       # what this point had parsed is gone: parsing starts over
                for a in w.spec.next(s):
                    if pred(a):
                        w.s = s
                        if w.coll != co:
                            w.used = w.used | {w.coll}
                            w.coll = co
                        w.L = p
                        w.susp = None
                        return a
    return actions_at(w, pred)


def rs(w):
    """clear the suspension: the resumed point has been reached again"""
    w.susp = None


# ---------------------------------------------------------------------- stream
def m_stream(it, st, b, args, ty, sp):
    if st.w.spec.complete:
        st.w.partial = False
        return [(st, ('k', 'st'))]
    s2 = st.copy()
    st.w.partial = False
    s2.w.partial = True
    return [(st, ('k', 'st')), (s2, ('k', 'st'))]


def m_is_partial(it, st, b, args, ty, sp):
    return [(st, ('c', int(st.w.partial)))]


def m_position(it, st, b, args, ty, sp):
    return [(st, ('k', 'pos', st.w.pos))]


def m_checkpoint(it, st, b, args, ty, sp):
    return [(st, ('k', 'ck', st.w.pos))]


def m_reset(it, st, b, args, ty, sp):
    ck = args[1]
    if ck[0] != 'k':
        it.note('reset to unknown checkpoint')
        return []
    out = []
    if not st.w.spec.infallible_reset:
        s2 = st.copy()
        s2.log('reset fails')
        s2.w.pos = s2.w.fresh(s2, dirty=True)
        s2.w.dead = s2.w.rfail = True
        out.append((s2, result(it, ty, False, mk_er(ck[2], ['reset'], False))))
    if (ck[2], st.w.floor) in st.w.gt:
        return bad(it, st, 'reset before the resume point', 'the stream is reset to a point before the one the suspended parser was resumed at, which the caller may have discarded')
    st.w.pos = ck[2]
    st.w.dead = False
    st.log('reset to', 'p%d' % ck[2])
    out.append((st, result(it, ty, True, UNIT)))
    return out


def m_uncons(it, st, b, args, ty, sp):
    return uncons(it, st, lambda ok, v: result(it, ty, ok, v))


def uncons(it, st, ret):
    w = st.w
    if w.dead:
        return bad(it, st, 'use of the stream after a failed reset', 'uncons after a failed reset')
    act = None
    if w.phase == 'run' and w.s is not None:
        act = find_action(it, st, lambda a: a[0] == 'uncons')
        if act is not None and w.pos != w.L:
            act = None
    out = []
    fact = w.fact[1] if w.fact is not None and w.fact[0] == w.pos else None
    if any(p == w.pos for p, _, _ in w.lens):
        fact = 'tok'
    # a token
    s1 = st.copy()
    w1 = s1.w
    tk = ('k', 'tk', w1.pos)
    known = any(a == w1.pos for a, b in w1.succ)
    q = w1.step(s1, w1.pos) if w1.spec.steps else w1.fresh(s1, after=w1.pos)
    w1.pos = q
    w1.prog = w1.prog or not known
    s1.log('uncons -> token', tk)
    if act is not None:
        rs(w1)
        w1.L = q
        set_s(w1, w1.spec.feed(w1.s, act, ('tok', tk)))
    if fact != 'eoi':
        out.append((s1, ret(True, tk)))
    # end of input / other stream error
    for eoi in (True, False):
        if not eoi and w.spec.stream_errors is not True:
            continue
        if known or w.spec.feed_tokens and w.s is not None and w.s.get('pc') == 'cfail':
            continue        # reading again what a parser already went past
        if fact == 'tok':
            continue
        s2 = st.copy()
        w2 = s2.w
        s2.log('uncons -> end of input' if eoi else 'uncons -> stream error')
        if w2.spec.ranges and eoi:
            w2.fact = (w2.pos, 'eoi')
        if act is not None:
            if w2.partial and eoi and not w2.spec.eoi_err:
                w2.susp = ('stream', w2.L, False)
                snap(w2)
            else:
                w2.susp = None
                set_s(w2, w2.spec.feed(w2.s, act, ('err', eoi)))
        out.append((s2, ret(False, ('k', 'se', 'eoi' if eoi else 'io', eoi))))
    return out


def m_pos_eq(it, st, b, args, ty, sp):
    x, y = deref(it, st, args[0]), deref(it, st, args[1])
    if x[0] != 'k' or y[0] != 'k':
        return [(st, ('c', 0)), (st.copy(), ('c', 1))]
    return pos_eq(it, st, x[2], y[2])


def pos_eq(it, st, x, y):
    w = st.w
    if x == y:
        return [(st, ('c', 1))]
    if 'far' in (x, y):
        return [(st, ('c', 0))]
    if (x, y) in w.gt or (y, x) in w.gt:
        return [(st, ('c', 0))]
    s2 = st.copy()
    if x in w.dirty:
        s2.w.unify(s2, x, y)
    elif y in w.dirty:
        s2.w.unify(s2, y, x)
    else:
        s2.w.unify(s2, x, y)
    return [(st, ('c', 0)), (s2, ('c', 1))]


def m_pos_cmp(it, st, b, args, ty, sp):
    x, y = deref(it, st, args[0]), deref(it, st, args[1])
    def o(n):
        return ('a', ty, n, ())
    if x[0] == 'k' and y[0] == 'k':
        if x[2] == y[2]:
            return [(st, o(1))]
        if (x[2], y[2]) in st.w.gt:
            return [(st, o(0))]
        if (y[2], x[2]) in st.w.gt:
            return [(st, o(2))]
    return [(st, o(0)), (st.copy(), o(1)), (st.copy(), o(2))]


def m_bool(it, st, b, args, ty, sp):
    return [(st, ('c', 0)), (st.copy(), ('c', 1))]


# ---------------------------------------------------------------------- errors
def m_er_empty(it, st, b, args, ty, sp):
    return [(st, mk_er(args[0][2] if args[0][0] == 'k' else 0, [], False))]


def m_er_from(it, st, b, args, ty, sp):
    se = args[1]
    return [(st, mk_er(args[0][2] if args[0][0] == 'k' else 0, [('se', se[2])], se[3]))]


def m_er_position(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    return [(st, ('k', 'pos', e[2]))]


def m_er_set_position(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    store(it, st, args[0], e[:2] + (args[1][2],) + e[3:])
    return [(st, UNIT)]


def m_er_end(it, st, b, args, ty, sp):
    # the end of the span of an error: where it starts unless a span has been attached
    e = deref(it, st, args[0])
    if 'spanned' in e[3]:
        return [(st, ('k', 'pos', 'far'))]
    s2 = st.copy()
    store(it, s2, args[0], mk_er(e[2], e[3] | {'spanned'}, e[4]))
    return [(st, ('k', 'pos', e[2])), (s2, ('k', 'pos', 'far'))]


def m_er_set_span(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    w = st.w
    if 'spanned' in e[3]:
        return bad(it, st, 'error at the wrong position: span overwritten', 'the span an inner parser attached to an error is overwritten')
    if args[1][2] != w.start or args[2][2] != w.pos:
        return bad(it, st, 'error at the wrong position: span', 'the span of an error does not reach from the start of the parser to where it stopped')
    store(it, st, args[0], mk_er(args[1][2], e[3] | {'spanned'}, e[4]))
    return [(st, UNIT)]


def m_er_merge(it, st, b, args, ty, sp):
    a, c = args
    return [(st, mk_er(a[2], a[3] | c[3], a[4] or c[4]))]


def m_er_add(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    se = args[1]
    store(it, st, args[0], mk_er(e[2], e[3] | {('se', se[2])}, e[4] or se[3]))
    return [(st, UNIT)]


def m_er_clear_expected(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    store(it, st, args[0], mk_er(e[2], {x for x in e[3] if x[0] != 'exp'}, e[4]))
    return [(st, UNIT)]


def m_er_set_expected(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    store(it, st, args[0], mk_er(e[2], {x for x in e[3] if x[0] != 'exp'} | {('se', args[1][2])}, e[4]))
    return [(st, UNIT)]


def m_er_eoi(it, st, b, args, ty, sp):
    e = deref(it, st, args[0])
    return [(st, ('c', int(e[4])))]


def m_se_new(it, st, b, args, ty, sp):
    return [(st, ('k', 'se', (SEK[args[0][1] // 3], 'text') if args[0][0] == 'c' else '?', False))]


SEK = ('unexpected', 'expected', 'message')


def m_se_tok(it, st, b, args, ty, sp):
    t = args[1]
    if t[0] == 'a':
        n = t[3][0][1]           # a given token
    else:
        n = 'first' if t[2] == st.w.start else 'later'
    return [(st, ('k', 'se', (SEK[args[0][1] // 3], n), False))]


def m_se_rng(it, st, b, args, ty, sp):
    r = args[1]
    n = r[3][0][1] if r[0] == 'a' else 'range'
    return [(st, ('k', 'se', (SEK[args[0][1] // 3], 'r', n), False))]


def m_se_eoi(it, st, b, args, ty, sp):
    return [(st, ('k', 'se', 'eoi', True))]


def m_se_is_eoi(it, st, b, args, ty, sp):
    return [(st, ('c', int(deref(it, st, args[0])[3])))]


# ---------------------------------------------------------------------- child parsers
def m_ps_default(it, st, b, args, ty, sp):
    return [(st, ('k', 'ps', 'clean'))]


def child(it, st, args, ty, first):
    w = st.w
    n = args[0][1]
    slotp = it.unwrap_ptr(args[2])
    slot = it.read(st, slotp[1], slotp[2]) if slotp[0] == 'p' else TOP
    if w.dead:
        return bad(it, st, 'child call after a failed reset', 'child %d is called after a stream reset failed' % n)
    if slot[0] != 'k':
        it.note('unknown child slot')
        return []
    resumed = None
    if slot[2] == 'dead':
        return bad(it, st, 'dead slot', 'child %d is called with the partial state of a failed earlier run' % n)
    if slot[2] == 'susp':
        if first:
            return bad(it, st, 'stale slot in first mode', 'child %d is called in first mode although its partial state holds a suspended run' % n)
        if slot[3] != n:
            return bad(it, st, 'foreign slot', 'child %d is resumed with the partial state of child %d' % (n, slot[3]))
        if w.pos != slot[4]:
            return bad(it, st, 'resumed elsewhere', 'child %d is resumed at another position than it was suspended at' % n)
        if w.susp is None or w.susp[0] != n:
            return bad(it, st, 'unexpected resume', 'child %d is resumed although it is not the suspended one' % n)
        resumed = slot
        act = actions_at(w, lambda a: a[0] == 'call' and a[1] == n)
        if act is None:
            return bad(it, st, 'unexpected resume', 'child %d is resumed but is not expected' % n)
        r, consumed = slot[4], slot[5]
    else:
        if w.phase != 'run':
            return bad(it, st, 'call outside', 'child %d called outside of a parse' % n)
        act = find_action(it, st, lambda a: a[0] == 'call' and a[1] == n)
        if act is None:
            return bad(it, st, 'unexpected call of child %d in %s' % (n, w.spec.where(w.s)), 'child %d is called; expected %s' % (n, w.spec.show(w.s)))
        if w.pos != w.L:
            return bad(it, st, 'child %d called at the wrong position in %s' % (n, w.spec.where(w.s)), 'child %d is called at another position than the logical one (input not restored, or advanced twice)' % n)
        if w.spec.strict_first and not first and w.entry == 'first' and w.nsusp == 0:
            return bad(it, st, 'unexpected resume', 'child %d is resumed although nothing was suspended: the parser was run in first mode' % n)
        if w.susp is not None:
            # only legal when the suspended point itself is entered again
            p, rr, cons = w.susp
            if p == n and rr == w.pos and not cons:
                pass
            elif w.pos == rr and p != 'stream' and cons:
                return bad(it, st, 'suspended child restarted', 'child %d is started afresh in the middle of its input' % n)
        r, consumed = w.L, False
    w.susp = None
    lstart = w.L
    outs = []
    pv = w.spec.kid(n)

    def emit(s2, kind, payload, newslot):
        store(it, s2, args[2], newslot)
        outs.append((s2, variant(it, ty, kind, [payload])))
    nm = 'child %d%s' % (n, '' if not resumed else ' (resumed)')
    clean = ('k', 'ps', 'clean')
    tr = variant_fty(it, ty, 'PeekErr')
    vt = act[3] if len(act) > 3 else None
    # success after committing
    if pv.get('CommitOk', True):
        for s2, q in w.consumed(st, r):
            v = s2.w.freshtok(s2, 'v')
            s2.w.pos = q
            s2.w.L = q
            feed_tokens(s2.w, r, q)
            s2.log(nm, 'CommitOk')
            set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('CommitOk', v, lstart)))
            emit(s2, 'CommitOk', v, clean)
    if not consumed:
        if pv.get('PeekOk', True):
            s2 = st.copy()
            v = s2.w.freshtok(s2, 'v')
            s2.log(nm, 'PeekOk')
            set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('PeekOk', v, lstart)))
            emit(s2, 'PeekOk', v, clean)
        if pv.get('PeekErr', True):
            for eoi in ((False, True) if not w.partial else (False,)):
                s2 = st.copy()
                s2.w.pos = s2.w.fresh(s2, dirty=True)
                s2.log(nm, 'PeekErr', 'eoi' if eoi else '')
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('PeekErr', eoi, lstart)))
                emit(s2, 'PeekErr', tracked(it, tr, mk_er(r, [('e', n)], eoi)), clean)
    if pv.get('CommitErr', True):
        for eoi in ((False, True) if not w.partial else (False,)):
            s2 = st.copy()
            s2.w.pos = s2.w.fresh(s2, dirty=True)
            s2.log(nm, 'CommitErr', 'eoi' if eoi else '')
            set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('CommitErr', eoi, lstart)))
            emit(s2, 'CommitErr', mk_er(s2.w.pos, [('e', n)], eoi), ('k', 'ps', 'dead'))
    if w.partial and pv.get('susp', True) and (w.spec.max_susp is None or w.nsusp < w.spec.max_susp):
        w.nsusp += w.spec.max_susp is not None
        # not consumed
        if not consumed:
            s2 = st.copy()
            s2.w.susp = (n, r, False)
            s2.log(nm, 'needs more input, nothing consumed')
            emit(s2, 'CommitErr', mk_er(r, [('e', n)], True), ('k', 'ps', 'susp', n, r, False))
        for s2, q in w.consumed(st, r):
            s2.w.pos = q
            feed_tokens(s2.w, r, q)
            s2.w.susp = (n, q, True)
            s2.log(nm, 'needs more input, input consumed')
            emit(s2, 'CommitErr', mk_er(q, [('e', n)], True), ('k', 'ps', 'susp', n, q, True))
    return outs


def feed_tokens(w, p, q):
    if w.spec.feed_tokens:
        sc = dict(w.succ)
        l = []
        while p != q:
            l.append(('k', 'tk', p))
            p = sc[p]
        w.s = dict(w.s)
        w.s['pend'] = w.s['pend'] + tuple(l)


def child_noslot(it, st, n, ty):
    """a re-entrant call, answered by the contract; on a partial stream it starts over from its own start"""
    w = st.w
    if w.dead:
        return bad(it, st, 'child call after a failed reset', 'child %d is called after a stream reset failed' % n)
    act = find_action(it, st, lambda a: a[0] == 'call' and a[1] == n) if w.phase == 'run' else None
    if act is None:
        return bad(it, st, 'unexpected call of child %d in %s' % (n, w.spec.where(w.s)), 'child %d is called; expected %s' % (n, w.spec.show(w.s)))
    if w.pos != w.L:
        return bad(it, st, 'child %d called at the wrong position in %s' % (n, w.spec.where(w.s)), 'child %d is called at another position than the logical one' % n)
    w.susp = None
    r = lstart = w.L
    outs = []
    nm = 'recursive call %d' % n
    for k in ('CommitOk', 'PeekOk'):
        s2 = st.copy()
        v = s2.w.freshtok(s2, 'v')
        if k == 'CommitOk':
            s2.w.pos = s2.w.L = s2.w.fresh(s2, after=r)
        s2.log(nm, k)
        set_s(s2.w, s2.w.spec.feed(s2.w.s, act, (k, v, lstart)))
        outs.append((s2, variant(it, ty, k, [v])))
    for k in ('PeekErr', 'CommitErr'):
        for eoi in ((False, True) if not w.partial else (False,)):
            s2 = st.copy()
            s2.w.pos = s2.w.fresh(s2, dirty=True)
            s2.log(nm, k, 'eoi' if eoi else '')
            set_s(s2.w, s2.w.spec.feed(s2.w.s, act, (k, eoi, lstart)))
            er = mk_er(r if k == 'PeekErr' else s2.w.pos, [('e', n)], eoi)
            outs.append((s2, variant(it, ty, k, [tracked(it, variant_fty(it, ty, 'PeekErr'), er) if k == 'PeekErr' else er])))
    if w.partial:
        s2 = st.copy()
        s2.w.susp = (n, r, False)
        s2.log(nm, 'needs more input')
        outs.append((s2, variant(it, ty, 'CommitErr', [mk_er(r, [('e', n)], True)])))
    return outs


def m_child_first(it, st, b, args, ty, sp):
    return child(it, st, args, ty, True)


def m_child_partial(it, st, b, args, ty, sp):
    return child(it, st, args, ty, False)


def m_add_com(it, st, b, args, ty, sp):
    p = it.unwrap_ptr(args[1])
    e = it.read(st, p[1], p[2] + (0,))
    if e[0] == 'k':
        it.write(st, p[1], p[2] + (0,), mk_er(e[2], e[3] | {('exp', args[0][1]), ('com', args[0][1])}, e[4]))
    return [(st, UNIT)]


def m_add_error(it, st, b, args, ty, sp):
    p = it.unwrap_ptr(args[1])
    e = it.read(st, p[1], p[2] + (0,))
    if e[0] == 'k':
        it.write(st, p[1], p[2] + (0,), mk_er(e[2], e[3] | {('exp', args[0][1])}, e[4]))
    return [(st, UNIT)]


# ---------------------------------------------------------------------- user functions
def user_fn(kinds, off=0):
    def m(it, st, b, args, ty, sp):
        w = st.w
        fid = args[0][1] + off
        vals = tuple(args[1:])
        act = None
        rf = w.spec.refn.get(fid)
        if rf is not None and w.phase == 'run' and w.susp is not None and w.susp[0] == rf[1]:
            # building the suspended parser again
            got = tuple(deref(it, st, v) if v[0] == 'p' else v for v in vals)
            if all(match(it, st, w.spec.val(w.s, e), g) for g, e in zip(got, rf[0])):
                return [(st, UNIT)]
        if w.phase == 'run':
            act = find_action(it, st, lambda a: a[0] == 'fn' and a[1] == fid)
        if act is None:
            return bad(it, st, 'unexpected function call %d in %s' % (fid, w.spec.where(w.s)), 'user function %d is called; expected %s' % (fid, w.spec.show(w.s)))
        got = tuple(deref(it, st, v) if v[0] == 'p' else v for v in vals)
        for g, e in zip(got, act[2]):
            if e is not None and not match(it, st, e, g):
                return bad(it, st, 'wrong argument of function %d in %s' % (fid, w.spec.where(w.s)), 'user function %d is called with the wrong value' % fid)
        outs = []
        for k in kinds:
            s2 = st.copy()
            if k == 'v':
                v = s2.w.freshtok(s2, 'v')
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('v', v)))
                outs.append((s2, v))
            elif k == 'ok':
                v = s2.w.freshtok(s2, 'v')
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('ok', v)))
                outs.append((s2, result(it, ty, True, v)))
            elif k == 'se':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('err', None)))
                s2.log('function %d fails' % fid)
                outs.append((s2, result(it, ty, False, ('k', 'se', 'f%d' % fid, False))))
            elif k == 'er':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('err', None)))
                s2.log('function %d fails' % fid)
                outs.append((s2, result(it, ty, False, mk_er(s2.w.pos, [('f', fid)], False))))
            elif k in ('num', 'zero', 'nan'):
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ({'num': 'ok', 'nan': 'err'}.get(k, k), None)))
                s2.log('function %d: %s' % (fid, k))
                outs.append((s2, result(it, ty, k != 'nan', {'num': ('c', 0x102030407), 'zero': ('c', 0), 'nan': ('k', 'nan')}[k])))
            elif k == 'true':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('b', True)))
                s2.log('function %d true' % fid)
                outs.append((s2, ('c', 1)))
            elif k == 'false':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('b', False)))
                s2.log('function %d false' % fid)
                outs.append((s2, ('c', 0)))
            elif k == 'unit':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('unit',)))
                outs.append((s2, UNIT))
            elif k == 'some':
                v = s2.w.freshtok(s2, 'v')
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('some', v)))
                outs.append((s2, variant(it, ty, 'Some', [v])))
            elif k == 'none':
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('none',)))
                outs.append((s2, variant(it, ty, 'None', [])))
            elif k.startswith('#'):
                set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('n', int(k[1:]))))
                s2.log('function %d -> %s' % (fid, k))
                outs.append((s2, ('c', int(k[1:]))))
        return outs
    return m


def m_tk_eq(it, st, b, args, ty, sp):
    act = find_action(it, st, lambda a: a[0] == 'fn' and a[1] == 'eq') if st.w.phase == 'run' and st.w.susp is None else None
    if act is None and st.w.phase == 'run' and st.w.spec.strict_eq:
        return bad(it, st, 'unexpected comparison in %s' % st.w.spec.where(st.w.s), 'tokens are compared; expected %s' % st.w.spec.show(st.w.s))
    if act is not None and act[2]:
        got = [deref(it, st, args[0]), deref(it, st, args[1])]
        ok = all(any(match_tok(e, g) for g in got) for e in act[2]) and got[0] != got[1]
        if not ok:
            return bad(it, st, 'wrong comparison in %s' % st.w.spec.where(st.w.s), 'other tokens are compared than the parsed and the wanted one')
    out = []
    for x in (0, 1):
        s2 = st.copy()
        if act is not None:
            set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('b', bool(x))))
            s2.log('token comparison', bool(x))
        out.append((s2, ('c', x)))
    return out


def match_tok(e, g):
    if isinstance(e, int):
        return g[0] == 'a' and g[3] == (('c', e),)
    return e == g


_pick = None


def m_pick(it, st, b, args, ty, sp):
    if st.w.phase == 'idle' and st.w.spec.pick:
        out = []
        for i in range(st.w.spec.pick):
            s2 = st.copy()
            s2.w.env = i
            out.append((s2, ('c', i)))
        return out
    return user_fn(['#0', '#1', '#2'])(it, st, b, args, ty, sp)


def m_finish_err(it, st, b, args, ty, sp):
    w = st.w
    e = args[0]
    if e[0] != 'k':
        it.note('unknown error value')
        return []
    got = {x for x in e[3] if x[0] in ('exp', 'se', 'com')}
    want = set(w.spec.adderr(w.s))
    miss = sorted(map(str, want - got))
    extra = sorted(map(str, got - want))
    if miss:
        return bad(it, st, 'error lost %s in add_error' % miss, 'the error a caller builds lacks %s' % miss)
    if extra:
        return bad(it, st, 'error invented %s in add_error' % extra, 'the error a caller builds contains %s, which no parser reported' % extra)
    it.ends += 1
    return []


def m_conv(it, st, b, args, ty, sp):
    """conversion of the input: the converted stream is the same ghost stream"""
    w = st.w
    if w.phase != 'run':
        return bad(it, st, 'call outside', 'input converted outside of a parse')
    act = None
    if w.susp is None:
        act = find_action(it, st, lambda a: a[0] == 'fn' and a[1] == 'conv')
        if act is None:
            return bad(it, st, 'unexpected conversion in %s' % w.spec.where(w.s), 'the input is converted; expected %s' % w.spec.show(w.s))
    out = []
    if act is not None:
        s2 = st.copy()
        s2.log('input conversion fails')
        set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('err', None)))
        out.append((s2, result(it, ty, False, mk_er(w.pos, ['conv'], False))))
        set_s(w, w.spec.feed(w.s, act, ('ok', None)))
    out.append((st, result(it, ty, True, ('k', 'st'))))
    return out


def m_conv_err(it, st, b, args, ty, sp):
    e = args[2]
    return [(st, mk_er(e[2], e[3] | {'converted'}, e[4]))]


# ---------------------------------------------------------------------- ranges
def m_rw_next(it, st, b, args, ty, sp):
    """the next token of an uncons_while: Ok(Some), Ok(None) at the end, or a stream error"""
    opt = variant_fty(it, ty, 'Ok')

    def ret(ok, v):
        if ok:
            return result(it, ty, True, variant(it, opt, 'Some', [v]))
        if v[3]:
            return result(it, ty, True, variant(it, opt, 'None', []))
        return result(it, ty, False, v)
    return uncons(it, st, ret)


def m_rw_back(it, st, b, args, ty, sp):
    st.w.pos = args[1][2]
    st.w.fact = (st.w.pos, 'tok')
    return [(st, UNIT)]


def m_rw_range(it, st, b, args, ty, sp):
    return [(st, ('k', 'rg', args[1][2], st.w.pos))]


def m_distance(it, st, b, args, ty, sp):
    c = deref(it, st, args[1])
    return [(st, ('k', 'dist', c[2], st.w.pos))]


def m_range(it, st, b, args, ty, sp):
    w = st.w
    if w.end is not None:
        return [(st, ('k', 'rg', w.pos, w.end))]
    s2 = st.copy()
    w.end = w.pos
    s2.w.end = s2.w.fresh(s2, after=w.pos)
    return [(st, ('k', 'rg', w.pos, w.end)), (s2, ('k', 'rg', s2.w.pos, s2.w.end))]


def m_rg_len(it, st, b, args, ty, sp):
    r = deref(it, st, args[0])
    if r[0] == 'a':
        if r[3][0] == ('c', 1):
            return [(st, ('c', 0))]
        return [(st, ('k', 'len'))]
    return [(st, ('k', 'dist', r[2], r[3]))]


def m_rg_eq(it, st, b, args, ty, sp):
    w = st.w
    x, y = deref(it, st, args[0]), deref(it, st, args[1])
    if x[0] == 'a':
        x, y = y, x
    act = find_action(it, st, lambda a: a[0] == 'fn' and a[1] == 'req') if w.phase == 'run' else None
    if act is None:
        if w.susp is not None:     # looking ahead beyond the point parsing will resume at
            return [(st.copy(), ('c', 1)), (st, ('c', 0))]
        return bad(it, st, 'unexpected comparison in %s' % w.spec.where(w.s), 'ranges are compared; expected %s' % w.spec.show(w.s))
    if y[0] != 'a' or not match(it, st, act[2][0], x):
        return bad(it, st, 'wrong comparison in %s' % w.spec.where(w.s), 'other ranges are compared than the parsed and the wanted one')
    out = []
    for v in (0, 1):
        s2 = st.copy()
        set_s(s2.w, s2.w.spec.feed(s2.w.s, act, ('b', bool(v))))
        s2.log('range comparison', bool(v))
        out.append((s2, ('c', v)))
    return out


def m_uncons_range(it, st, b, args, ty, sp):
    w = st.w
    n = args[1]
    if w.dead:
        return bad(it, st, 'use of the stream after a failed reset', 'uncons_range after a failed reset')
    if n == ('c', 0) or n[0] == 'k' and n[1] == 'dist' and n[2] == n[3]:
        return [(st, result(it, ty, True, ('k', 'rg', w.pos, w.pos)))]
    if n[0] == 'k' and n[1] == 'dist':
        if n[2] != w.pos:
            return bad(it, st, 'range of an unrelated length', 'the number of tokens taken from the stream was measured from another position than the current one')
        r = ('k', 'rg', w.pos, n[3])
        w.pos = n[3]
        st.log('uncons_range -> p%d' % w.pos)
        return [(st, result(it, ty, True, r))]
    if n == ('k', 'len'):
        size = 'len'
    elif n[0] == 'c':
        size = n[1]
    else:
        it.note('uncons_range of an unknown length')
        return []
    known = next((q for p, z, q in w.lens if p == w.pos and z == size), None)
    act = None
    if w.phase == 'run' and w.s is not None:
        act = find_action(it, st, lambda a: a[0] == 'ur' and a[1] == size)
        if act is not None and w.pos != w.L:
            act = None
        if act is None and w.susp is None and known is None:
            return bad(it, st, 'unexpected uncons_range in %s' % w.spec.where(w.s), 'a range of size %s is taken; expected %s' % (size, w.spec.show(w.s)))
    out = []
    if not any(z == size and (p == w.pos or (p, w.pos) in w.gt) for p, z in w.noroom):
        s1 = st.copy()
        w1 = s1.w
        q = known
        if q is None:
            q = w1.fresh(s1, after=w1.pos)
            w1.lens = w1.lens | {(w1.pos, size, q)}
        r = ('k', 'rg', w1.pos, q)
        s1.log('uncons_range -> ok')
        if act is not None:
            rs(w1)
            w1.L = q
            set_s(w1, w1.spec.feed(w1.s, act, ('ok', r)))
        w1.pos = q
        out.append((s1, result(it, ty, True, r)))
    if known is None:
        for eoi in (True, False):
            if not eoi and not w.spec.stream_errors:
                continue
            s2 = st.copy()
            w2 = s2.w
            s2.log('uncons_range -> end of input' if eoi else 'uncons_range -> stream error')
            if eoi:
                w2.noroom = w2.noroom | {(w2.pos, size)}
            elif w2.spec.stream_errors == 'range':
                w2.fact = (w2.pos, 'tok')     # there is input, but not in that shape
            if act is not None:
                if w2.partial and eoi:
                    w2.susp = ('stream', w2.L, False)
                    snap(w2)
                else:
                    w2.susp = None
                    set_s(w2, w2.spec.feed(w2.s, act, ('err', eoi)))
            out.append((s2, result(it, ty, False, ('k', 'se', 'eoi' if eoi else 'io', eoi))))
    return out


def m_search(it, st, b, args, ty, sp):
    """a searcher: Found(i) or NotFound(i), counted from the start of the range it is given"""
    w = st.w
    r = args[1]
    act = find_action(it, st, lambda a: a[0] == 'fn' and a[1] == 'search') if w.phase == 'run' else None
    if act is None or w.pos != w.L:
        return bad(it, st, 'unexpected search in %s' % w.spec.where(w.s), 'the searcher is called where parsing can not go on')
    if r != ('k', 'rg', w.pos, w.end):
        return bad(it, st, 'wrong range searched', 'the searcher does not get what remains of the input')
    out = []
    for found in (True, False):
        for moved in (True, False):
            s2 = st.copy()
            w2 = s2.w
            q = w2.fresh(s2, after=w2.pos) if moved else w2.pos
            d = ('k', 'dist', w2.pos, q)
            w2.susp = None
            s2.log('search', 'found' if found else 'not found', 'later' if moved else 'here')
            if found:
                w2.L = q
                set_s(w2, w2.spec.feed(w2.s, act, ('ok', d)))
            elif w2.partial:
                w2.L = q
                snap(w2)
                w2.susp = ('stream', q, False)
            else:
                set_s(w2, w2.spec.feed(w2.s, act, ('err', True)))
            out.append((s2, variant(it, ty, 'Found' if found else 'NotFound', [d])))
    return out


def dist_hook(it, st, base, ck, a, b, ty):
    w = st.w
    r = None
    if not isinstance(w, World):
        return None
    da, db = (x[0] == 'k' and x[1] in ('dist', 'len') for x in (a, b))
    if not (da or db):
        return None
    if base in ('Eq', 'Ne', 'Gt', 'Lt', 'Ge', 'Le'):
        if b == ('c', 0) or a == ('c', 0):
            d = a if da else b
            if d[1] == 'len':
                z = False
            elif d[2] == d[3]:
                z = True
            elif (d[2], d[3]) in w.gt:
                z = False
            else:
                return None
            if not da:
                base = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}.get(base, base)
            return ('c', int({'Eq': z, 'Ne': not z, 'Gt': not z, 'Lt': False, 'Ge': True, 'Le': z}[base]))
        return None
    if base == 'Add':
        if a == ('c', 0):
            r = b
        elif b == ('c', 0):
            r = a
        elif a[:2] == b[:2] == ('k', 'dist'):
            if a[3] == b[2]:
                r = ('k', 'dist', a[2], b[3])
            elif b[3] == a[2]:
                r = ('k', 'dist', b[2], a[3])
    elif base == 'Sub':
        if b == ('c', 0):
            r = a
        elif a[:2] == ('k', 'dist') and b == ('k', 'len'):
            x = next((p for p, z, q in w.lens if z == 'len' and q == a[3]), None)
            if x is not None:
                r = ('k', 'dist', a[2], x)
        elif a[:2] == b[:2] == ('k', 'dist'):
            if a[2] == b[2]:
                r = ('k', 'dist', b[3], a[3])
            elif a[3] == b[3]:
                r = ('k', 'dist', a[2], b[2])
    if r is None:
        return None
    return ('a', None, 0, (r, ('c', 0))) if ck else r


def m_tk_to_v(it, st, b, args, ty, sp):
    t = args[0]
    return [(st, ('k', 'v', ('t', t[2])) if False else t)]


# ---------------------------------------------------------------------- collections
def m_coll_new(it, st, b, args, ty, sp):
    return [(st, st.w.freshtok(st, 'coll'))]


def m_coll_push(it, st, b, args, ty, sp):
    w = st.w
    c = deref(it, st, args[0])
    v = args[1]
    if c[2] in w.used:
        return bad(it, st, 'stale collection', 'an element is added to the collection of an earlier, failed or abandoned run')
    if w.coll is not None and c[2] != w.coll:
        return bad(it, st, 'elements lost', 'an element is added to another collection than the earlier ones')
    w.coll = c[2]
    pend = w.s.get('pend', ())
    if w.s.get('pc') == 'cfail' and w.spec.feed_tokens:
        return [(st, UNIT)]     # the result is an error, the collection is thrown away
    if not pend or pend[0] != v:
        return bad(it, st, 'wrong element collected in %s' % w.spec.where(w.s), 'an element is collected out of order, twice, or without having been parsed')
    w.s['pend'] = pend[1:]
    w.snaps = tuple(x for x in w.snaps if x[2] is None)
    snap(w)
    return [(st, UNIT)]


# ---------------------------------------------------------------------- rounds
def m_begin(it, st, b, args, ty, sp):
    outs = []
    for entry in (('first', 'partial') if st.w.spec.entries == 2 else ('first',)):
        s2 = st.copy()
        w = s2.w
        w.round += 1
        w.gt = frozenset()
        w.dirty = frozenset()
        w.pos = w.L = w.start = w.floor = w.fresh(s2)
        w.susp = None
        w.snaps = ()
        w.lens = w.noroom = frozenset()
        w.fact = w.end = None
        if w.coll is not None:
            w.used = w.used | {w.coll}
        w.coll = None
        w.moved = w.rfail = False
        w.nsusp = 0
        w.succ = frozenset()
        w.dead = False
        w.entry = entry
        w.phase = 'run'
        w.prog = True
        d = dict(w.spec.init())
        if w.env is not None:
            d['sel'] = w.env
        set_s(w, d)
        s2.log('---- parse (%s)' % entry, 'partial stream' if w.partial else 'complete stream')
        outs.append((s2, ('c', int(entry == 'first'))))
    return outs


def match(it, st, e, v):
    """does value v have the expected shape e?"""
    if e is None or e == 'any':
        return True
    if isinstance(e, tuple) and e and e[0] == 'k':
        return e == v
    if e == 'unit':
        return v == UNIT or (v[0] == 'a' and not v[3] and v[2] == 0)
    if e == 'rng':
        return v == ('k', 'rg', st.w.start, st.w.L)
    if e == 'pos0':
        return v == ('k', 'pos', st.w.start)
    if e == 'none':
        return v[0] == 'a' and vname(it, v) == 'None'
    if e[0] == 'some':
        return v[0] == 'a' and vname(it, v) == 'Some' and match(it, st, e[1], v[3][0])
    if e[0] == 'tup':
        return v[0] == 'a' and len(v[3]) == len(e[1]) and all(match(it, st, x, y) for x, y in zip(e[1], v[3]))
    if e == 'coll':
        if v[0] != 'k' or v[1] != 'coll':
            return False
        return (st.w.coll is None or st.w.coll == v[2]) and v[2] not in st.w.used and not st.w.s.get('pend')
    if e[0] == 'c':
        return v == e
    return False


def m_finish(it, st, b, args, ty, sp):
    w = st.w
    r = args[0]
    outs = []
    rs_ = [(st, r)]
    for s2, r in rs_:
        outs.extend(finish(it, s2, r))
    return outs


def m_finish_result(it, st, b, args, ty, sp):
    return finish(it, st, args[0])


def finish(it, st, r):
    w = st.w
    w.prog = True
    nm = vname(it, r)
    st.log('returns', nm)
    pay = r[3][0]
    er = None
    res = nm in ('Ok', 'Err')        # a plain Result: the commitment is not visible
    if nm == 'CommitErr' or nm == 'Err':
        er = pay
    elif nm == 'PeekErr':
        er = pay[3][0]
    if er is not None and er[0] != 'k':
        it.note('unknown error value')
        return []
    wh = w.spec.where(w.s)
    if w.rfail and nm == 'CommitErr' and ('reset' in er[3] or w.spec.loses_errors):
        return []
    if w.dead:
        if er is None:
            return bad(it, st, 'failed reset ignored', 'the stream could not be reset but the parser succeeds')
        if 'reset' not in er[3] and not w.spec.loses_errors:
            return bad(it, st, 'failed reset: error lost', 'the error of the failed stream reset is not returned')
        return []
    if w.susp is not None:
        n, r0, consumed = w.susp
        if nm != 'CommitErr' and nm != 'Err':
            return bad(it, st, 'suspension lost (%s) in %s' % (nm, wh), 'child %s needs more input but the parser returns %s' % (n, nm))
        if not er[4]:
            return bad(it, st, 'suspension not reported as end of input in %s' % wh, 'child %s needs more input but the returned error is not an end of input error' % n)
        if w.spec.lazy:
            if w.pos != w.start and w.spec.lazy is True:
                return bad(it, st, 'suspended away from the start in %s' % wh, 'the parser keeps no state, but leaves the input elsewhere than where it started, so that what it consumed is lost')
            it.ends += 1
            return []
        if w.pos != r0 and not any(p == w.pos for p, _, _ in w.snaps):
            return bad(it, st, 'suspended at an incoherent position in %s' % wh, 'the input is left at a position where parsing can not be resumed')
        if w.pos != w.start:
            w.moved = True
        w.floor = w.pos
        w.noroom = frozenset()
        w.fact = w.end = None
        s2 = st.copy()
        s2.w.partial = False
        s2.log('---- resumed, input complete')
        st.log('---- resumed, more input')
        return [(st, ('c', 1)), (s2, ('c', 1))]
    if w.moved and nm in ('PeekErr', 'PeekOk') and not w.spec.look:
        return bad(it, st, 'uncommitted result after consumed input in %s' % wh, 'the parser was suspended after its start and now returns %s, although the caller can not go back any more' % nm)
    alts = [a for a in spec_allowed(w) if a[0] == 'ret']
    if not alts:
        return bad(it, st, 'early return (%s) in %s' % (nm, wh), 'the parser returns %s; expected %s' % (nm, w.spec.show(w.s)))
    why = None
    for a in alts:
        kinds, val, need, opts = a[1], a[2], a[3], a[4] if len(a) > 4 else {}
        if callable(kinds):
            kinds = kinds(w.s, w)
        if res:
            hit = [k for k in kinds if k.endswith(nm)]
            if not hit:
                why = why or ('outcome %s instead of %s in %s' % (nm, '/'.join(kinds), wh), 'the parser returns %s, required: %s' % (nm, '/'.join(kinds)))
                continue
        elif nm not in kinds:
            why = why or ('outcome %s instead of %s in %s' % (nm, '/'.join(kinds), wh), 'the parser returns %s, required: %s' % (nm, '/'.join(kinds)))
            continue
        if er is None:
            if w.pos != w.L:
                why = ('success at the wrong position in %s' % wh, 'the parser succeeds but leaves the input at another position than the end of what it parsed')
                continue
            if not match(it, st, val, pay):
                why = ('wrong value in %s' % wh, 'the parser returns a value that is not the one its children produced (lost, duplicated or reordered)')
                continue
        else:
            miss = [x for x in need if x not in er[3]]
            if miss:
                why = ('error lost %s in %s' % (miss, wh), 'the returned error lacks %s' % miss)
                continue
            if opts.get('pos') == 'start' and er[2] != w.start:
                why = ('error at the wrong position in %s' % wh, 'the error is not reported at the start of what failed')
                continue
            if nm == 'CommitErr' and er[4] and w.partial and opts.get('eoi') != 'ok' and not w.spec.eoi_ok:
                why = ('fatal error looks like end of input in %s' % wh, 'a fatal failure on a partial stream is reported as end of input, so the caller waits for more input')
                continue
        why = None
        break
    if why:
        return bad(it, st, *why)
    it.ret_kinds.add((nm, wh))
    if nm == 'CommitErr' or nm == 'Err':
        return []
    w.phase = 'idle'
    w.s = None
    w.snaps = ()
    w.L = w.start = w.floor = w.pos
    if w.coll is not None:
        w.used = w.used | {w.coll}
    w.coll = None
    return [(st, ('c', 0))]


def m_int_min(it, st, b, args, ty, sp):
    a, c = args[-2:]
    if a[0] == 'c' and c[0] == 'c':
        return [(st, ('c', min(a[1], c[1])))]
    return [(st, ('t', ty))]


def m_int_max(it, st, b, args, ty, sp):
    a, c = args[-2:]
    if a[0] == 'c' and c[0] == 'c':
        return [(st, ('c', max(a[1], c[1])))]
    return [(st, ('t', ty))]


def m_drop_any(it, st, b, args, ty, sp):
    return [(st, UNIT)]


def m_nop_unit(it, st, b, args, ty, sp):
    return [(st, UNIT)]


# ---------------------------------------------------------------------- core library
def m_ptr_read(it, st, b, args, ty, sp):
    return [(st, deref(it, st, args[0]))]


def m_ptr_write(it, st, b, args, ty, sp):
    store(it, st, args[0], args[1])
    return [(st, UNIT)]


def m_replace(it, st, b, args, ty, sp):
    old = deref(it, st, args[0])
    store(it, st, args[0], args[1])
    return [(st, old)]


def m_swap(it, st, b, args, ty, sp):
    x, y = deref(it, st, args[0]), deref(it, st, args[1])
    store(it, st, args[0], y)
    store(it, st, args[1], x)
    return [(st, UNIT)]


def m_unreach(it, st, b, args, ty, sp):
    it.violate(st, 'unreachable_unchecked in %s' % it.where(st).split(' @')[0], 'unreachable_unchecked (undefined behaviour) is reached in %s' % it.where(st))
    return []


def sat(opn):
    def m(it, st, b, args, ty, sp):
        a, c = args
        if a[0] == 'c' and c[0] == 'c':
            t = it.P.types[ty]
            r = a[1] + c[1] if opn == 'add' else a[1] - c[1]
            lo, hi = (0, (1 << t['w']) - 1) if t['k'] == 'uint' else (-(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1)
            return [(st, ('c', max(lo, min(hi, r))))]
        return [(st, ('t', ty))]
    return m


def m_box_new(it, st, b, args, ty, sp):
    r = it.alloc(st, args[0])
    return [(st, ('p', r, (), None))]


def m_downcast(it, st, b, args, ty, sp):
    """Any::downcast_ref/downcast_mut: succeeds exactly when the type behind the pointer is the requested one"""
    p = it.unwrap_ptr(args[0])
    want = it.pointee(variant_fty(it, ty, 'Some'))
    if p[0] != 'p' or p[3] is None or p[3][0] != 'vt':
        return None
    if p[3][1] == want:
        return [(st, variant(it, ty, 'Some', [('p', p[1], p[2], None)]))]
    return [(st, variant(it, ty, 'None', []))]


MODELS = {
    'opq::stream': m_stream, 'opq::is_partial': m_is_partial, 'opq::position': m_position,
    'opq::checkpoint': m_checkpoint, 'opq::reset': m_reset, 'opq::uncons': m_uncons,
    'opq::pos_eq': m_pos_eq, 'opq::pos_cmp': m_pos_cmp, 'opq::er_eq': m_bool,
    'opq::er_empty': m_er_empty, 'opq::er_from': m_er_from, 'opq::er_position': m_er_position,
    'opq::er_set_position': m_er_set_position, 'opq::er_end': m_er_end, 'opq::er_set_span': m_er_set_span, 'opq::er_merge': m_er_merge, 'opq::er_add': m_er_add,
    'opq::er_clear_expected': m_er_clear_expected, 'opq::er_set_expected': m_er_set_expected,
    'opq::er_eoi': m_er_eoi, 'opq::se_new': m_se_new, 'opq::se_tok': m_se_tok, 'opq::se_rng': m_se_rng, 'opq::se_eoi': m_se_eoi,
    'opq::se_is_eoi': m_se_is_eoi, 'opq::ps_default': m_ps_default,
    'opq::child_first': m_child_first, 'opq::child_partial': m_child_partial,
    'opq::child_add_error': m_add_error, 'opq::child_add_committed': m_add_com,
    'opq::f': user_fn(['v']), 'opq::f2': user_fn(['v']), 'opq::f3': user_fn(['v']), 'opq::fr': user_fn(['unit']),
    'opq::vnum': user_fn(['num', 'zero', 'nan']), 'opq::fres': user_fn(['ok', 'se']), 'opq::ferr': user_fn(['ok', 'er']),
    'opq::cond': user_fn(['true', 'false']), 'opq::pred': user_fn(['true', 'false']), 'opq::cmp': user_fn(['true', 'false']), 'opq::mk': user_fn(['v']), 'opq::tk_eq': m_tk_eq, 'opq::it_next': user_fn(['some', 'none'], 100), 'opq::fm': user_fn(['unit']), 'opq::unitp': user_fn(['unit']),
    'opq::finish_err': m_finish_err,
    'opq::tkmap': user_fn(['some', 'none']), 'opq::pick': m_pick,
    'opq::tk_to_v': m_tk_to_v,
    'opq::coll_new': m_coll_new, 'opq::coll_push': m_coll_push,
    'opq::conv': m_conv, 'opq::conv_err': m_conv_err, 'opq::finish_result': m_finish_result,
    'opq::uncons_range': m_uncons_range, 'opq::rw_next': m_rw_next, 'opq::rw_back': m_rw_back, 'opq::rw_range': m_rw_range,
    'opq::distance': m_distance, 'opq::range': m_range, 'opq::rg_eq': m_rg_eq, 'opq::rg_len': m_rg_len, 'opq::search': m_search,
    'opq::begin': m_begin, 'opq::finish': m_finish,
    'std::ptr::read': m_ptr_read, 'std::ptr::write': m_ptr_write,
    'std::mem::replace': m_replace, 'std::mem::swap': m_swap,
    'std::mem::forget': m_nop_unit, 'std::mem::drop': m_nop_unit,
    'std::hint::unreachable_unchecked': m_unreach,
    'std::intrinsics::saturating_add': sat('add'), 'std::intrinsics::saturating_sub': sat('sub'),
    'std::intrinsics::integer_min': m_int_min, 'std::intrinsics::integer_max': m_int_max,
    'std::boxed::Box::<T>::new': m_box_new,
    **{"<(dyn std::any::Any%s + 'static)>::downcast_%s" % (a, r): m_downcast for r in ('mut', 'ref')
       for a in ('', ' + std::marker::Send', ' + std::marker::Send + std::marker::Sync')},
}


def register(m):
    MODELS.update(m)


def models_for(sp):
    m = dict(MODELS)
    m.update(sp.models)
    return m


def recursion(sp):
    """re-entrant calls are answered by the contract (induction over the recursion depth)"""
    out = {}
    if sp.recur is not None:
        for item, n in sp.recur.items():
            out[item] = lambda it, st, b, args, ty, _sp, n=n: child_noslot(it, st, n, ty)
    return out


# ---------------------------------------------------------------------- slice iterators: (slice pointer, next index, -)
def plen(v):
    return v[3][1][1] if v[0] == 'p' and v[3] is not None and v[3][0] == 'len' and v[3][1][0] == 'c' else None


def m_slice_iter(it, st, b, args, ty, sp):
    p = it.unwrap_ptr(args[0])
    n = plen(p)
    if n is None:
        return None
    k = len(it.P.types[ty]['vs'][0]['f'])
    return [(st, ('a', ty, 0, (p, ('tup2', 0, n)) + (UNIT,) * (k - 2)))]


def sit(it, st, a):
    v = deref(it, st, a)
    if v[0] == 'a' and len(v[3]) >= 2 and v[3][1][0] == 'tup2' and v[3][0][0] == 'p':
        return v
    return None


def m_sit_next(back):
    def m(it, st, b, args, ty, sp):
        v = sit(it, st, args[0])
        if v is None:
            return None
        p, (_, lo, hi) = v[3][0], v[3][1]
        if lo >= hi:
            return [(st, variant(it, ty, 'None', []))]
        i = hi - 1 if back else lo
        nr = ('tup2', lo, hi - 1) if back else ('tup2', lo + 1, hi)
        store(it, st, args[0], ('a', v[1], v[2], (p, nr) + v[3][2:]))
        return [(st, variant(it, ty, 'Some', [('p', p[1], p[2] + (i,), None)]))]
    return m


def m_reverse(it, st, b, args, ty, sp):
    p = it.unwrap_ptr(args[0])
    n = plen(p)
    if n is None or p[0] != 'p':
        return None
    vs = [it.read(st, p[1], p[2] + (i,)) for i in range(n)]
    for i, v in enumerate(vs):
        it.write(st, p[1], p[2] + (n - 1 - i,), v)
    return [(st, UNIT)]


def m_sit_nth(it, st, b, args, ty, sp):
    v = sit(it, st, args[0])
    if v is None or args[1][0] != 'c':
        return None
    p, (_, lo, hi) = v[3][0], v[3][1]
    i = min(lo + args[1][1], hi)
    store(it, st, args[0], ('a', v[1], v[2], (p, ('tup2', min(i + 1, hi), hi)) + v[3][2:]))
    return [(st, variant(it, ty, 'Some', [('p', p[1], p[2] + (i,), None)]) if i < hi else variant(it, ty, 'None', []))]


def m_sit_hint(it, st, b, args, ty, sp):
    v = sit(it, st, args[0])
    if v is None:
        return None
    n = v[3][1][2] - v[3][1][1]
    t = it.P.types[ty]
    if t['k'] == 'uint':
        return [(st, ('c', n))]
    return None


for _i in ('Iter', 'IterMut'):
    for _p in ('std::slice::%s' % _i, 'core::slice::%s' % _i):
        MODELS["<%s<'a, T> as std::iter::Iterator>::next" % _p] = m_sit_next(False)
        MODELS["<%s<'a, T> as std::iter::Iterator>::nth" % _p] = m_sit_nth
        MODELS["<%s<'a, T> as std::iter::DoubleEndedIterator>::next_back" % _p] = m_sit_next(True)
        MODELS["<%s<'a, T> as std::iter::ExactSizeIterator>::len" % _p] = m_sit_hint
MODELS['core::slice::<impl [T]>::reverse'] = m_reverse
MODELS['std::intrinsics::cold_path'] = m_nop_unit
MODELS['std::intrinsics::typed_swap_nonoverlapping'] = m_swap
for _p in ('std', 'core'):
    MODELS["core::slice::<impl [T]>::iter_mut"] = MODELS["core::slice::<impl [T]>::iter"] = m_slice_iter
    for _q in ("&'a mut [T]", "&'a [T]"):
        MODELS["core::slice::iter::<impl std::iter::IntoIterator for %s>::into_iter" % _q] = m_slice_iter
