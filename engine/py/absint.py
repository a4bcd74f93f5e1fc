"""Path-sensitive abstract interpretation (finite typestate dataflow) of dumped MIR.

Abstract domain
  ('c', n)                       known scalar (int, bool, char)
  ('t', ty)                      any value of type ty
  ('u',)                         uninitialised / moved out
  ('a', ty, variant, fields)     struct / enum variant / tuple / closure / array
  ('p', region, path, meta)      pointer; meta is None, ('len', v) or ('vt', ty)
  ('f', inst)                    function item or pointer
  ('str', bytes)                 constant &str / &[u8]
  ('k', kind, ...)               opaque token of the modelled environment (see model.py)
Regions are ('L', frame depth, local) and ('H', n).

The state space is finite: integers are widened beyond a bound, tokens are renamed canonically at
every join, and a state that was already seen at the same (call string, block) is not propagated
again, so the exploration is a fixpoint computation over the exploded supergraph.  No constraint is
collected and no solver is used.
"""
import json
from collections import deque
import sys
import time

TOP = ('t', None)
U = ('u',)
UNIT = ('a', None, 0, ())
INT_CAP = 300


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.roots = d['roots']
        self.types = d['types']
        self.insts = d['insts']
        self.spans = d['spans']
        self.vt = {(a, b): v for a, b, v in d['vtables']}
        self._preds = {}
        self._live = {}
        self.name2ty = {t['n']: i for i, t in enumerate(self.types) if t.get('n')}
        for i, b in enumerate(self.insts):
            b['id'] = i

    def joins(self, b):
        """blocks with more than one predecessor, and loop heads"""
        i = b['id']
        r = self._preds.get(i)
        if r is None:
            cnt = {}
            for blk in b['body']:
                if blk is None:
                    continue
                for s in self.succs(blk['t']):
                    cnt[s] = cnt.get(s, 0) + 1
            r = frozenset(k for k, v in cnt.items() if v > 1) | frozenset([0] if cnt.get(0) else [])
            self._preds[i] = r
        return r

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def live(self, b):
        """per block: frozenset of locals live at block entry (address-taken locals always live)"""
        i = b['id']
        r = self._live.get(i)
        if r is not None:
            return r
        n = len(b['body'])
        borrowed = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def uplace(p, u, d, asdef=False):
            if asdef and len(p) == 1:
                d.add(p[0])
                return
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def uop(o, u, d):
            if 'c' in o:
                uplace(o['c'], u, d)
            elif 'm' in o:
                uplace(o['m'], u, d)

        for bi, blk in enumerate(b['body']):
            if blk is None:
                continue
            u, d = use[bi], deff[bi]
            for st in blk['s']:
                if st[0] == '=':
                    rv = st[2]
                    for x in rv[1:]:
                        if isinstance(x, dict):
                            uop(x, u, d)
                        elif isinstance(x, list) and x and isinstance(x[0], dict):
                            for y in x:
                                uop(y, u, d)
                    if rv[0] in ('ref', 'disc'):
                        uplace(rv[1], u, d)
                        if rv[0] == 'ref' and not ('*' in rv[1]):
                            borrowed.add(rv[1][0])
                    uplace(st[1], u, d, True)
                elif st[0] == 'sd':
                    uplace(st[1], u, d)
                elif st[0] in ('cpy',):
                    for x in st[1:]:
                        uop(x, u, d)
            t = blk['t']
            if t[0] == 'sw':
                uop(t[1], u, d)
            elif t[0] == 'call':
                if 'c' in t[1] or 'm' in t[1]:
                    uop(t[1], u, d)
                for x in t[2]:
                    uop(x, u, d)
                uplace(t[3], u, d, True)
            elif t[0] == 'assert':
                uop(t[1], u, d)
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                blk = b['body'][bi]
                if blk is None:
                    continue
                out = set()
                for s in self.succs(blk['t']):
                    out |= live[s]
                new = use[bi] | (out - deff[bi])
                if new != live[bi]:
                    live[bi] = new
                    ch = True
        r = [frozenset(x | borrowed) for x in live]
        self._live[i] = r
        return r

    def span(self, i):
        return self.spans[i] if i is not None and i >= 0 else '?'


class Frame:
    __slots__ = ('inst', 'bb', 'loc', 'dest', 'target', 'callsp')

    def __init__(self, inst, bb, loc, dest, target, callsp):
        self.inst = inst
        self.bb = bb
        self.loc = loc
        self.dest = dest      # (region, path) of the caller's destination
        self.target = target
        self.callsp = callsp

    def copy(self):
        return Frame(self.inst, self.bb, list(self.loc), self.dest, self.target, self.callsp)


class State:
    __slots__ = ('fr', 'heap', 'w', 'trace', 'last', 'node')

    def __init__(self):
        self.fr = []
        self.heap = {}
        self.w = None
        self.trace = None
        self.last = None
        self.node = None

    def copy(self):
        s = State()
        s.fr = [f.copy() for f in self.fr]
        s.heap = dict(self.heap)
        s.w = self.w.copy()
        s.trace = self.trace
        s.last = self.last
        s.node = self.node
        return s

    def log(self, *ev):
        self.trace = (ev, self.trace)

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[0])
            t = t[1]
        return out[::-1]


class Imprecise(Exception):
    pass


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, models, world, budget=400000, depth=70, deadline=None):
        self.deadline = deadline
        self.ends = 0
        self.P = prog
        self.models = models        # path -> fn(interp, st, inst, args, ret_ty, dest_ctx) -> list[(st, val)]
        self.world0 = world
        self.seen = {}
        self.work = deque()
        self.steps = 0
        self.budget = budget
        self.depth = depth
        self.imprecise = {}
        self.funcs = set()
        self.callsites = set()
        self.nstates = 0
        self.violations = {}
        self.panics = {}
        self.heapn = 0
        self.widen_count = {}
        self.recur = {}
        self.graph = None
        self.nodes = {}

    def cycles(self):
        """strongly connected components of the joins reached without a step of the specification in between"""
        g = self.graph or {}
        index, low, onst, stack, out = {}, {}, set(), [], []
        for root in g:
            if root in index:
                continue
            todo = [(root, iter(g.get(root, ())))]
            index[root] = low[root] = len(index)
            stack.append(root)
            onst.add(root)
            while todo:
                v, itr = todo[-1]
                for x in itr:
                    if x not in index:
                        index[x] = low[x] = len(index)
                        stack.append(x)
                        onst.add(x)
                        todo.append((x, iter(g.get(x, ()))))
                        break
                    if x in onst:
                        low[v] = min(low[v], index[x])
                else:
                    todo.pop()
                    if todo:
                        low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            x = stack.pop()
                            onst.discard(x)
                            comp.append(x)
                            if x == v:
                                break
                        if len(comp) > 1 or v in g.get(v, ()):
                            out.append(comp)
        return out

    # ---------------------------------------------------------------- reporting
    def note(self, what):
        self.imprecise[what] = self.imprecise.get(what, 0) + 1

    def violate(self, st, rule, msg):
        if st.w.fuzz:
            self.note('not decided: ' + rule)
            return
        ev = st.events()
        marks = [e[0] for e in ev if isinstance(e[0], str) and e[0].startswith('---- ')]
        last = max([i for i, m in enumerate(marks) if m.startswith('---- parse')], default=0)
        key = (rule, any(m.startswith('---- resumed') for m in marks[last:]), sum(m.startswith('---- parse') for m in marks) > 1)
        if key not in self.violations:
            self.violations[key] = (msg, ev, [self.P.insts[f.inst]['name'] for f in st.fr])

    def where(self, st):
        """innermost frame in the analysed crate, without line numbers first"""
        for f in reversed(st.fr):
            b = self.P.insts[f.inst]
            if b['crate'] == 'combine':
                blk = b['body'][f.bb]
                return '%s @ %s' % (b['path'], self.P.span(blk['sp']))
        if st.last is not None:
            b = self.P.insts[st.last[0]]
            return '%s @ %s' % (b['path'], self.P.span(b['body'][st.last[1]]['sp']))
        return '?'

    # ---------------------------------------------------------------- memory
    def rootval(self, st, region):
        if region[0] == 'L':
            d, l = region[1], region[2]
            if d < len(st.fr):
                return st.fr[d].loc[l]
            return TOP
        return st.heap.get(region, TOP)

    def roottype(self, st, region):
        if region[0] == 'L':
            d, l = region[1], region[2]
            if d < len(st.fr):
                return self.P.insts[st.fr[d].inst]['locals'][l]
        return None

    def setroot(self, st, region, v):
        if region[0] == 'L':
            d, l = region[1], region[2]
            if d < len(st.fr):
                st.fr[d].loc[l] = v
        else:
            st.heap[region] = v

    def fieldty(self, ty, variant, i):
        if ty is None:
            return None
        t = self.P.types[ty]
        k = t['k']
        if k == 'adt':
            vs = t['vs']
            if variant is None or variant >= len(vs):
                return None
            f = vs[variant]['f']
            return f[i][1] if i < len(f) else None
        if k in ('tuple', 'closure'):
            return t['f'][i] if i < len(t['f']) else None
        if k in ('array', 'slice'):
            return t['e']
        return None

    def expand(self, v, ty, variant=0):
        """turn top/uninit of a known aggregate type into an explicit aggregate"""
        if ty is None:
            return None
        t = self.P.types[ty]
        k = t['k']
        if k == 'adt':
            if t.get('ak') == 'enum' and variant is None:
                return None
            vs = t['vs']
            if variant is None:
                variant = 0
            if variant >= len(vs):
                return None
            fs = [x[1] for x in vs[variant]['f']]
        elif k in ('tuple', 'closure'):
            fs = t['f']
        elif k == 'array' and 0 <= t['len'] <= 64:
            fs = [t['e']] * t['len']
        else:
            return None
        leaf = (lambda x: U) if v[0] == 'u' else (lambda x: ('t', x))
        return ('a', ty, variant, tuple(leaf(x) for x in fs))

    def child(self, v, e, ty, variant):
        """value of field e of v (whose type is ty)"""
        if v[0] == 'a':
            fs = v[3]
            if isinstance(fs, dict):
                return TOP
            if e < len(fs):
                return fs[e]
            return TOP
        if v[0] == 'co':
            for (k, x) in v[3]:
                if k == (variant, e):
                    return x
            return U
        if v[0] == 't':
            return ('t', self.fieldty(v[1] if v[1] is not None else ty, variant if variant is not None else 0, e))
        if v[0] == 'u':
            return U
        if v[0] == 'p':
            # Box<T>/Unique<T>/NonNull<T> wrappers around a pointer
            return v
        return TOP

    def read(self, st, region, path):
        v = self.rootval(st, region)
        ty = self.roottype(st, region)
        variant = None
        for e in path:
            if isinstance(e, tuple):
                variant = e[1]
                if v[0] == 'a' and v[2] != variant and v[1] is not None and self.P.types[v[1]]['k'] == 'adt':
                    return U
                continue
            if v[0] == 'a' and v[1] is not None:
                ty = v[1]
            nv = self.child(v, e, ty, variant if variant is not None or v[0] == 'co' else (v[2] if v[0] == 'a' else 0))
            ty = self.fieldty(ty, variant if variant is not None else (v[2] if v[0] == 'a' else 0), e)
            v = nv
            variant = None
        return v

    def _put(self, v, path, k, val, ty, variant):
        if k == len(path):
            return val
        e = path[k]
        if isinstance(e, tuple):
            return self._put(v, path, k + 1, val, ty, e[1])
        if v[0] == 'co':
            d = dict(v[3])
            old = d.get((variant, e), U)
            d[(variant, e)] = self._put(old, path, k + 1, val, None, None)
            return ('co', v[1], v[2], tuple(sorted(d.items(), key=lambda kv: (str(kv[0])))))
        if v[0] in ('t', 'u'):
            x = self.expand(v, v[1] if v[0] == 't' and v[1] is not None else ty, variant)
            if x is None:
                return TOP
            v = x
        if v[0] == 'p':
            return val
        if v[0] != 'a':
            return TOP
        if variant is not None and v[2] != variant and v[1] is not None and self.P.types[v[1]].get('ak') == 'enum':
            x = self.expand(U, v[1], variant)
            if x is None:
                return TOP
            v = x
        fs = v[3]
        if e >= len(fs):
            return TOP
        ft = self.fieldty(v[1] if v[1] is not None else ty, v[2], e)
        return ('a', v[1], v[2], fs[:e] + (self._put(fs[e], path, k + 1, val, ft, None),) + fs[e + 1:])

    def write(self, st, region, path, val):
        if not path:
            self.setroot(st, region, val)
            return
        self.setroot(st, region, self._put(self.rootval(st, region), path, 0, val, self.roottype(st, region), None))

    def alloc(self, st, val):
        n = 0
        while ('H', n) in st.heap:
            n += 1
        st.heap[('H', n)] = val
        return ('H', n)

    # ---------------------------------------------------------------- places / operands
    def place(self, st, p):
        """-> (region, path) or None when the place is behind an unknown pointer"""
        d = len(st.fr) - 1
        region, path = ('L', d, p[0]), ()
        for e in p[1:]:
            if e == '*':
                v = self.read(st, region, path)
                v = self.unwrap_ptr(v)
                if v[0] == 'p':
                    region, path = v[1], v[2]
                elif v[0] == 'str':
                    return None
                else:
                    return None
            elif e[0] == 'f':
                path = path + (e[1],)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                iv = st.fr[d].loc[e[1]]
                if iv[0] == 'c':
                    path = path + (iv[1],)
                else:
                    return None
            elif e[0] == 'c':
                if e[2]:
                    v = self.read(st, region, path)
                    if v[0] == 'a':
                        path = path + (len(v[3]) - e[1],)
                    else:
                        return None
                else:
                    path = path + (e[1],)
            else:
                return None
        return region, path

    def unwrap_ptr(self, v):
        # Box { Unique { NonNull { ptr } } } and similar single-pointer wrappers
        n = 0
        while v[0] == 'a' and v[3] and n < 6:
            v = v[3][0]
            n += 1
        return v

    def rplace(self, st, p):
        if len(p) == 1:
            return st.fr[-1].loc[p[0]]
        x = self.place(st, p)
        if x is None:
            # last deref pointer may be a constant string etc.
            return ('t', self.place_ty(st, p))
        return self.read(st, *x)

    def place_ty(self, st, p):
        for e in reversed(p[1:]):
            if isinstance(e, list) and e[0] == 'f':
                # only if it is the last projection
                if e is p[-1]:
                    return e[2]
            break
        t = self.P.insts[st.fr[-1].inst]['locals'][p[0]]
        for e in p[1:]:
            if t is None:
                return None
            ty = self.P.types[t]
            if e == '*':
                t = ty.get('p')
                if t is None and ty.get('box'):
                    t = ty['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = ty.get('e')
        return t

    def const(self, c, st=None):
        if 'i' in c:
            return ('c', c['i'])
        if 'fn' in c:
            return ('f', c['fn'])
        if 'fp' in c:
            return ('f', c['fp'])
        if 'z' in c:
            return self.zst(c['z'])
        if 'str' in c:
            return ('str', bytes(c['str']))
        if 'bytes' in c:
            return ('str', bytes(c['bytes']))
        if 'v' in c:
            return ('a', c['t'], c['v'], tuple(self.const(x, st) for x in c['f']))
        if 'ref' in c:
            # promoted constant: give it a heap cell
            v = self.const(c['ref'], st)
            if st is not None:
                r = ('H', ('k', json.dumps(c['ref'], sort_keys=True)))
                st.heap[r] = v
                return ('p', r, (), None)
            return TOP
        if 'slice' in c:
            v = ('a', None, 0, tuple(self.const(x, st) for x in c['slice']))
            if st is not None:
                r = ('H', ('k', json.dumps(c, sort_keys=True)))
                st.heap[r] = v
                return ('p', r, (), ('len', ('c', len(c['slice']))))
            return TOP
        if 'static' in c:
            return ('k', 'static', c['static'])
        if 'fl' in c:
            return ('c', c['fl'])
        return ('t', c.get('t'))

    def zst(self, ty):
        t = self.P.types[ty]
        if t['k'] == 'fndef':
            return ('f', t['inst'])
        if t['k'] == 'adt' and t.get('ak') == 'struct':
            return ('a', ty, 0, tuple(self.zst(f[1]) for f in t['vs'][0]['f']))
        if t['k'] in ('tuple', 'closure'):
            return ('a', ty, 0, tuple(self.zst(f) for f in t['f']))
        if t['k'] == 'adt' and t.get('ak') == 'enum' and len(t['vs']) == 1:
            return ('a', ty, 0, tuple(self.zst(f[1]) for f in t['vs'][0]['f']))
        if t['k'] == 'array':
            return ('a', ty, 0, ())
        return ('t', ty)

    def op(self, st, o):
        if 'c' in o:
            return self.rplace(st, o['c'])
        if 'm' in o:
            p = o['m']
            if len(p) == 1:
                v = st.fr[-1].loc[p[0]]
                return v
            return self.rplace(st, p)
        return self.const(o['k'], st)

    # ---------------------------------------------------------------- scalars
    def wrap(self, ty, n):
        t = self.P.types[ty] if ty is not None else {'k': 'int', 'w': 64}
        if t['k'] == 'uint':
            return n % (1 << t['w'])
        if t['k'] == 'int':
            w = t['w']
            n %= (1 << w)
            return n - (1 << w) if n >> (w - 1) else n
        return n

    def guess(self, st):
        """a branch on a value the analysis does not know: both ways are followed,
        but what is found there may not be possible"""
        if not st.w.fuzz:
            self.note('a branch on a value the analysis does not know')
        st.w.fuzz = True

    def binop(self, st, opn, a, b, ty, out_ty=None):
        ck = opn.endswith('WithOverflow')
        base = opn.replace('WithOverflow', '').replace('Unchecked', '')
        if ty is not None and self.P.types[ty]['k'] == 'int':
            # discriminants of signed types come as bit patterns
            a, b = (('c', self.wrap(ty, v[1])) if v[0] == 'c' and isinstance(v[1], int) else v for v in (a, b))
        h = getattr(self, 'binop_hook', None)
        if h is not None:
            r = h(self, st, base, ck, a, b, ty)
            if r is not None:
                return r
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            r = None
            if base == 'Add':
                r = x + y
            elif base == 'Sub':
                r = x - y
            elif base == 'Mul':
                r = x * y
            elif base == 'Div' and y:
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif base == 'Rem' and y:
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif base == 'BitAnd':
                r = x & y
            elif base == 'BitOr':
                r = x | y
            elif base == 'BitXor':
                r = x ^ y
            elif base == 'Shl' and 0 <= y < 128:
                r = x << y
            elif base == 'Shr' and 0 <= y < 128:
                r = x >> y
            elif base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                r = int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[base])
                return ('c', r)
            elif base == 'Cmp':
                return ('a', None, 0 if x < y else 1 if x == y else 2, ())
            if r is not None:
                w = self.wrap(ty, r)
                if base in ('Add', 'Mul') and abs(w) > INT_CAP and not (abs(x) > INT_CAP or abs(y) > INT_CAP):
                    v = ('t', ty)
                else:
                    v = ('c', w)
                if ck:
                    return ('a', None, 0, (v, ('c', int(w != r))))
                return v
        if base in ('Eq', 'Ne') and a[0] == b[0] == 'a' and not a[3] and not b[3]:
            return ('c', int((a[2] == b[2]) == (base == 'Eq')))
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return ('t', self.P.name2ty.get('bool'))
        if ck:
            return ('a', None, 0, (('t', ty), ('t', self.P.name2ty.get('bool'))))
        return ('t', ty)

    def variants(self, ty):
        if ty is None:
            return None
        t = self.P.types[ty]
        if t['k'] == 'adt' and t.get('ak') == 'enum':
            return [v['d'] for v in t['vs']]
        if t['k'] == 'bool':
            return [0, 1]
        return None

    def top_variant(self, ty, v):
        t = self.P.types[ty]
        return ('a', ty, v, tuple(('t', f[1]) for f in t['vs'][v]['f']))

    def discr(self, ty, v):
        """discriminant value of an aggregate"""
        t = self.P.types[ty] if ty is not None else None
        if t is not None and t['k'] == 'adt' and t.get('ak') == 'enum':
            return t['vs'][v[2]]['d']
        return v[2]

    # ---------------------------------------------------------------- rvalues; yields (state, value)
    def rvalue(self, st, r, sp):
        k = r[0]
        if k == 'use':
            return [(st, self.op(st, r[1]))]
        if k == 'ref':
            x = self.place(st, r[1])
            if x is None:
                p = r[1]
                # reborrow of an unknown / constant pointer
                if len(p) == 2 and p[1] == '*':
                    return [(st, st.fr[-1].loc[p[0]])]
                if p[-1] == '*':
                    y = self.place(st, p[:-1])
                    if y is not None:
                        return [(st, self.read(st, *y))]
                if p[-1] != '*' and isinstance(p[-1], list) and p[-1][0] == 's':
                    # subslice pattern
                    return [(st, ('t', None))]
                h = getattr(self, 'refunk_hook', None)
                if h:
                    v = h(self, st, p)
                    if v is not None:
                        return [(st, v)]
                return [(st, TOP)]
            meta = None
            # keep metadata when reborrowing a fat pointer
            p = r[1]
            if p[-1] == '*':
                y = self.place(st, p[:-1]) if len(p) > 2 else (('L', len(st.fr) - 1, p[0]), ())
                if y is not None:
                    v = self.unwrap_ptr(self.read(st, *y))
                    if v[0] == 'p':
                        meta = v[3]
            return [(st, ('p', x[0], x[1], meta))]
        if k == 'bin':
            a, b = self.op(st, r[2]), self.op(st, r[3])
            res = self.binop(st, r[1], a, b, r[4])
            if isinstance(res, list):
                return res
            return [(st, res)]
        if k == 'un':
            a = self.op(st, r[2])
            if r[1] == 'PtrMetadata':
                if a[0] == 'p' and a[3] is not None:
                    return [(st, a[3][1] if a[3][0] == 'len' else TOP)]
                if a[0] == 'str':
                    return [(st, ('c', len(a[1])))]
                h = getattr(self, 'ptrmeta_hook', None)
                if h:
                    v = h(self, st, a)
                    if v is not None:
                        return [(st, v)]
                return [(st, ('t', None))]
            if r[1] == 'Not':
                if a[0] == 'c':
                    t = self.P.types[r[3]]
                    if t['k'] == 'bool':
                        return [(st, ('c', 1 - a[1]))]
                    return [(st, ('c', self.wrap(r[3], ~a[1])))]
                h = getattr(self, 'not_hook', None)
                if h:
                    v = h(self, st, a)
                    if v is not None:
                        return v if isinstance(v, list) else [(st, v)]
            if r[1] == 'Neg' and a[0] == 'c':
                return [(st, ('c', self.wrap(r[3], -a[1])))]
            return [(st, ('t', r[3]))]
        if k == 'disc':
            x = self.place(st, r[1])
            v = self.read(st, *x) if x is not None else ('t', r[2])
            if v[0] == 'a':
                return [(st, ('c', self.discr(v[1] if v[1] is not None else r[2], v)))]
            if v[0] == 'co':
                return [(st, ('c', v[2]))]
            vs = self.variants(r[2])
            if v[0] == 'u':
                # reading an uninitialised discriminant: dead value, infeasible
                vs = vs or None
            if vs is None:
                return [(st, ('t', None))]
            out = []
            for i, d in enumerate(vs):
                s2 = st.copy() if i + 1 < len(vs) else st
                nv = self.top_variant(r[2], i)
                if x is not None:
                    self.write(s2, x[0], x[1], nv)
                out.append((s2, ('c', d)))
            return out
        if k == 'agg':
            ops = tuple(self.op(st, o) for o in r[3])
            if r[1] == 'coroutine':
                return [(st, ('co', r[4], 0, tuple(((None, i), o) for i, o in enumerate(ops))))]
            if r[1] == 'rawptr':
                a, m = ops
                if a[0] == 'p':
                    t = self.P.types[self.P.types[r[4]]['p']] if 'p' in self.P.types[r[4]] else {}
                    if t.get('k') in ('slice', 'str'):
                        return [(st, ('p', a[1], a[2], ('len', m)))]
                    return [(st, ('p', a[1], a[2], a[3]))]
                return [(st, a if a[0] in ('k', 'str') else ('t', r[4]))]
            if r[1] == 'adt' and r[5] >= 0:
                # union
                t = self.P.types[r[4]]
                return [(st, ('a', r[4], 0, tuple(ops[0] for _ in t['vs'][0]['f'])))]
            return [(st, ('a', r[4], r[2], ops))]
        if k == 'cast':
            a = self.op(st, r[2])
            ck = r[1]
            if 'Unsize' in ck:
                return [(st, self.unsize(st, a, r[3], r[4]))]
            if ck.startswith('IntToInt'):
                if a[0] == 'c':
                    return [(st, ('c', self.wrap(r[4], a[1])))]
                if a[0] == 'a' and not a[3]:
                    return [(st, ('c', self.discr(r[3], a)))]
                h = getattr(self, 'cast_hook', None)
                if h:
                    v = h(self, st, a, r[3], r[4])
                    if v is not None:
                        return [(st, v)]
                return [(st, ('t', r[4]))]
            if a[0] in ('p', 'f', 'str', 'k'):
                return [(st, a)]
            if ck.startswith('Transmute'):
                if a[0] == 'a':
                    w = self.unwrap_ptr(a)
                    if w[0] == 'p':
                        return [(st, w)]
                    return [(st, a if self.P.types[r[4]]['k'] == 'adt' else ('t', r[4]))]
                if a[0] == 'c':
                    return [(st, a)]
            w = self.unwrap_ptr(a)
            if w[0] == 'p':
                return [(st, w)]
            return [(st, ('t', r[4]))]
        if k == 'repeat':
            v = self.op(st, r[1])
            if 0 <= r[2] <= 32:
                return [(st, ('a', None, 0, (v,) * r[2]))]
            return [(st, TOP)]
        if k == 'reify':
            return [(st, ('f', r[1]))]
        self.note('rvalue ' + k)
        return [(st, TOP)]

    def pointee(self, ty):
        t = self.P.types[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['p']
        if t['k'] == 'adt' and t.get('args'):
            return t['args'][0]
        return None

    def unsize(self, st, a, s, d):
        sp, dp = self.pointee(s), self.pointee(d)
        p = self.unwrap_ptr(a)
        if p[0] != 'p' or dp is None:
            return a if p[0] in ('str', 'k') else ('t', d)
        t = self.P.types[dp]
        if t['k'] == 'slice':
            n = self.P.types[sp].get('len', -1)
            meta = ('len', ('c', n))
        elif t['k'] == 'dyn':
            meta = p[3] if self.P.types[sp]['k'] == 'dyn' else ('vt', sp)
        else:
            meta = None
        q = ('p', p[1], p[2], meta)
        return q

    # ---------------------------------------------------------------- canonical key
    def key(self, st):
        if st.fr:
            self.prune(st)
        cs = tuple((f.inst, f.bb, f.dest, f.target) for f in st.fr)
        return (cs, st.w.canon(self, st))

    def prune(self, st):
        f = st.fr[-1]
        b = self.P.insts[f.inst]
        lv = self.P.live(b)[f.bb]
        for i in range(len(f.loc)):
            if i not in lv and f.loc[i] is not U:
                f.loc[i] = U
        # heap garbage collection
        if st.heap:
            reach = set()
            todo = []

            def scan(v):
                if v[0] == 'p':
                    if v[1][0] == 'H' and v[1] not in reach:
                        reach.add(v[1])
                        todo.append(v[1])
                elif v[0] == 'a':
                    for x in v[3]:
                        scan(x)
                elif v[0] == 'co':
                    for _, x in v[3]:
                        scan(x)
            for fr in st.fr:
                for v in fr.loc:
                    scan(v)
            for v in st.w.roots():
                scan(v)
            while todo:
                r = todo.pop()
                if r in st.heap:
                    scan(st.heap[r])
            if len(reach) != len(st.heap):
                st.heap = {k: v for k, v in st.heap.items() if k in reach}

    # ---------------------------------------------------------------- execution
    def run(self, root, args=()):
        st = State()
        st.w = self.world0.copy()
        b = self.P.insts[root]
        loc = [U] * len(b['locals'])
        for i, a in enumerate(args):
            loc[i + 1] = a
        st.fr.append(Frame(root, 0, loc, None, None, None))
        self.funcs.add(root)
        self.work.append(st)
        n = 0
        while self.work:
            s = self.work.popleft()
            self.path(s)
            n += 1
            if self.deadline is not None and n & 255 == 0 and time.time() > self.deadline:
                raise Budget()
        return self

    def enter(self, st, bb):
        """move the top frame to block bb; False if that state was seen already"""
        f = st.fr[-1]
        f.bb = bb
        b = self.P.insts[f.inst]
        if bb in self.P.joins(b):
            k = self.key(st)
            n = self.seen.get(k)
            new = n is None
            if new:
                n = self.seen[k] = len(self.seen)
            if self.graph is not None:
                if st.node is not None and not st.w.prog and not st.w.fuzz:
                    self.graph.setdefault(st.node, set()).add(n)
                st.node = n
                st.w.prog = False
                if new:
                    self.nodes[n] = (tuple(g.inst for g in st.fr), st.trace)
            if not new:
                return False
            self.nstates += 1
            if self.nstates > self.budget:
                raise Budget()
            cs = (tuple((g.inst, g.bb) for g in st.fr))
            c = self.widen_count.get(cs, 0) + 1
            self.widen_count[cs] = c
            if c > 3000:
                self.widen(st)
        return True

    def widen(self, st):
        self.note('widened')
        for f in st.fr:
            for i, v in enumerate(f.loc):
                if v[0] == 'c' and v[1] > 2:
                    f.loc[i] = ('t', self.P.insts[f.inst]['locals'][i])

    def push(self, sts):
        for s in sts:
            self.work.append(s)

    def path(self, st):
        while True:
            self.steps += 1
            f = st.fr[-1]
            b = self.P.insts[f.inst]
            blk = b['body'][f.bb]
            if blk is None:
                return
            if not self.stmts(st, blk, 0):
                return
            t = blk['t']
            nx = self.term(st, blk, t)
            if nx is None:
                return
            if nx is not st:
                # list of successor states, already positioned
                self.push(nx)
                return

    def stmts(self, st, blk, i):
        """executes the statements; forks are pushed on the worklist. False = path ended/forked"""
        ss = blk['s']
        n = len(ss)
        while i < n:
            s = ss[i]
            k = s[0]
            if k == '=':
                outs = self.rvalue(st, s[2], s[3])
                if len(outs) == 1 and outs[0][0] is st:
                    self.assign(st, s[1], outs[0][1])
                else:
                    for (s2, v) in outs:
                        self.assign(s2, s[1], v)
                        if self.stmts(s2, blk, i + 1):
                            nx = self.term(s2, blk, blk['t'])
                            if nx is None:
                                continue
                            if nx is s2:
                                self.work.append(s2)
                            else:
                                self.push(nx)
                    return False
            elif k == 'sd':
                x = self.place(st, s[1])
                if x is not None:
                    v = self.read(st, *x)
                    if v[0] == 'co':
                        self.write(st, x[0], x[1], ('co', v[1], s[2], v[3]))
                    elif v[0] == 'a':
                        if v[2] != s[2]:
                            nv = self.expand(U, v[1], s[2])
                            self.write(st, x[0], x[1], nv if nv is not None else ('a', v[1], s[2], v[3]))
                    else:
                        ty = self.place_ty(st, s[1])
                        nv = self.expand(U, ty, s[2])
                        self.write(st, x[0], x[1], nv if nv is not None else TOP)
            elif k == 'dead':
                st.fr[-1].loc[s[1]] = U
            elif k == 'cpy':
                self.note('copy_nonoverlapping')
            i += 1
        return True

    def assign(self, st, p, v):
        if len(p) == 1:
            st.fr[-1].loc[p[0]] = v
            return
        x = self.place(st, p)
        if x is None:
            self.note('write through unknown pointer in ' + self.P.insts[st.fr[-1].inst]['path'])
            return
        self.write(st, x[0], x[1], v)

    def goto(self, st, bb):
        return st if self.enter(st, bb) else None

    def term(self, st, blk, t):
        k = t[0]
        if k == 'goto':
            return self.goto(st, t[1])
        if k == 'sw':
            v = self.op(st, t[1])
            if v[0] == 'c':
                n = v[1]
                ty = self.P.types[t[4]]
                if ty['k'] == 'int' and n < 0:
                    n %= (1 << ty['w'])
                for (x, tg) in t[2]:
                    m = x
                    if m == n or (n < 0 and m == n % (1 << 64)) or (m >= (1 << 63) and m - (1 << 64) == n) or (m >= (1 << 127) and m - (1 << 128) == n):
                        return self.goto(st, tg)
                return self.goto(st, t[3])
            if v[0] == 'a' and not v[3]:
                for (x, tg) in t[2]:
                    if x == v[2]:
                        return self.goto(st, tg)
                return self.goto(st, t[3])
            h = getattr(self, 'switch_hook', None)
            if h is not None:
                r = h(self, st, v, t)
                if r is not None:
                    return r
            self.guess(st)
            out = []
            tgs = []
            tys = self.P.types[t[4]]
            for (x, tg) in t[2]:
                tgs.append((x, tg))
            full = tys['k'] == 'bool' and len(t[2]) == 2
            if not full:
                tgs.append((None, t[3]))
            pl = t[1].get('c') or t[1].get('m')
            for i, (x, tg) in enumerate(tgs):
                s2 = st.copy() if i + 1 < len(tgs) else st
                if pl is not None:
                    if x is not None:
                        self.assign(s2, pl, ('c', x))
                    elif tys['k'] == 'bool' and len(t[2]) == 1:
                        self.assign(s2, pl, ('c', 1 - t[2][0][0]))
                if self.dead_otherwise(s2, tg):
                    continue
                if self.enter(s2, tg):
                    out.append(s2)
            return out if out else None
        if k == 'ret':
            return self.ret(st)
        if k == 'drop':
            h = getattr(self, 'drop_hook', None)
            if h is not None:
                r = h(self, st, t)
                if r is not None:
                    return r
            # the value is gone: forget it so that states merge
            if len(t[1]) == 1:
                st.fr[-1].loc[t[1][0]] = U
            return self.goto(st, t[2])
        if k == 'assert':
            v = self.op(st, t[1])
            if v[0] == 'c':
                if v[1] == t[2]:
                    return self.goto(st, t[4])
                self.panic(st, 'assert ' + t[3], True)
                return None
            # unknown: continue on the good path, note the possible panic
            self.panic(st, 'assert ' + t[3], False)
            pl = t[1].get('c') or t[1].get('m')
            if pl is not None and len(pl) == 1:
                st.fr[-1].loc[pl[0]] = ('c', t[2])
            return self.goto(st, t[4])
        if k == 'unreach':
            st.w.on_unreachable(self, st)
            return None
        if k == 'call':
            return self.call(st, blk, t)
        if k == 'end':
            return None
        self.note('terminator ' + k)
        return None

    def dead_otherwise(self, st, bb):
        b = self.P.insts[st.fr[-1].inst]
        blk = b['body'][bb]
        return blk is not None and blk['t'][0] == 'unreach' and not blk['s']

    def panic(self, st, what, certain):
        for f in reversed(st.fr):
            b = self.P.insts[f.inst]
            if b['crate'] in ('combine', 'harness', 'streams', 'incr'):
                break
        key = (b['path'], what, certain)
        if key not in self.panics:
            self.panics[key] = (self.P.span(b['body'][f.bb]['sp']), st.events())
        st.w.on_panic(self, st, b['path'], what, certain)

    def ret(self, st):
        f = st.fr.pop()
        if self.P.insts[f.inst]['crate'] == 'combine':
            st.last = (f.inst, f.bb)
        v = f.loc[0]
        if v[0] == 'u':
            t = self.P.types[self.P.insts[f.inst]['locals'][0]]
            if t['k'] == 'tuple' and not t['f']:
                v = UNIT
        if not st.fr:
            return None
        if f.dest is not None:
            self.write(st, f.dest[0], f.dest[1], v)
        if f.target is None or f.target < 0:
            return None
        # pop region: references into the popped frame become dangling (never read by safe code)
        return self.goto(st, f.target)

    def call(self, st, blk, t):
        fo = t[1]
        args = [self.op(st, a) for a in t[2]]
        dest = self.place(st, t[3])
        if 'fn' in fo:
            inst = fo['fn']
            if inst < 0:
                self.note('unresolved ' + fo.get('p', '?'))
                return self.finish_call(st, dest, t[4], ('t', t[5]))
        else:
            fv = self.op(st, fo) if ('c' in fo or 'm' in fo or 'k' in fo) else self.const(fo, st)
            if fv[0] != 'f':
                self.note('indirect call')
                return self.finish_call(st, dest, t[4], ('t', t[5]))
            inst = fv[1]
        if not self.P.insts[st.fr[-1].inst]['kind'].startswith('shim'):
            args = self.untuple(inst, args)
        return self.invoke(st, inst, args, dest, t[4], t[5], blk['sp'])

    def untuple(self, inst, args):
        """closure bodies take their arguments one by one, callers pass a tuple (rust-call)"""
        b = self.P.insts[inst]
        if b['kind'] == 'item' and b['path'].endswith('}') and '{closure' in b['path'] and len(args) == 2:
            t = args[1]
            if t[0] == 'a':
                return [args[0]] + list(t[3])
            if b.get('argc') is not None:
                return [args[0]] + [TOP] * (b['argc'] - 1)
        return args

    def finish_call(self, st, dest, target, v):
        if dest is not None:
            self.write(st, dest[0], dest[1], v)
        if target is None or target < 0:
            return None
        return self.goto(st, target)

    def invoke(self, st, inst, args, dest, target, dty, sp):
        b = self.P.insts[inst]
        m = self.models.get(b['path'])
        if m is None:
            for pre, fn in self.models.get('*', ()):
                if b['path'].startswith(pre):
                    m = fn
                    break
        if m is None and b.get('trait'):
            m = self.models.get(b['trait'] + '::' + b['item'])
        if m is None and b.get('item') in self.recur and any(f.inst == inst for f in st.fr):
            m = self.recur[b['item']]
        if m is not None:
            outs = m(self, st, b, args, dty, sp)
            if outs is not None:
                res = []
                for (s2, v) in outs:
                    if v == 'call':
                        res.append(s2)   # model pushed its own frame
                        continue
                    r = self.finish_call(s2, dest, target, v)
                    if r is None:
                        continue
                    if r is s2:
                        res.append(s2)
                    else:
                        res.extend(r)
                return res if res else None
        if b['kind'].startswith('virtual'):
            idx = int(b['kind'].split(':')[1])
            p = self.unwrap_ptr(args[0])
            if p[0] == 'p' and p[3] is not None and p[3][0] == 'vt':
                for (s, d), v in self.P.vt.items():
                    if s == p[3][1] and idx < len(v) and v[idx] >= 0 and (self.P.insts[v[idx]].get('item') == b.get('item') or
                                                                            b.get('item') in ('call', 'call_mut', 'call_once') and '{closure' in self.P.insts[v[idx]]['path']):
                        a0 = ('p', p[1], p[2], None)
                        return self.invoke(st, v[idx], self.untuple(v[idx], [a0] + args[1:]), dest, target, dty, sp)
            self.note('virtual ' + b['path'])
            return self.finish_call(st, dest, target, ('t', dty))
        if b.get('body') is None:
            if b['path'].startswith(('core::panicking', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::rt::panic', 'core::slice::index::slice_', 'core::str::slice_error', 'core::cell::panic')):
                self.panic(st, b['path'].split('::')[-1], True)
                return None
            if target is None or target < 0:
                self.panic(st, b['path'], True)
                return None
            self.note('opaque ' + b['path'])
            self.havoc(st, args)
            return self.finish_call(st, dest, target, ('t', b.get('ret', dty)))
        if len(st.fr) >= self.depth:
            self.note('depth')
            return self.finish_call(st, dest, target, ('t', dty))
        if b['path'].startswith(('core::panicking::',)):
            self.panic(st, b['path'].split('::')[-1], True)
            return None
        loc = [U] * len(b['locals'])
        argc = b['argc']
        if b['spread'] >= 0:
            s = b['spread']
            for i in range(1, s):
                loc[i] = args[i - 1]
            if len(args) == argc and argc == s:
                loc[s] = args[s - 1]       # already the argument tuple
            else:
                loc[s] = ('a', None, 0, tuple(args[s - 1:]))
        elif argc != len(args):
            # rust-call: the last argument is a tuple to be spread
            tup = args[-1] if args else U
            fl = list(args[:-1])
            if tup[0] == 'a':
                fl += list(tup[3])
            if len(fl) > argc:
                fl = fl[len(fl) - argc:]
            for i in range(argc):
                loc[i + 1] = fl[i] if i < len(fl) else TOP
        else:
            for i in range(argc):
                loc[i + 1] = args[i]
        self.funcs.add(inst)
        if len(st.fr) >= 1:
            self.callsites.add((st.fr[-1].inst, st.fr[-1].bb))
        nf = Frame(inst, 0, loc, dest, target, sp)
        st.fr.append(nf)
        return st if self.enter(st, 0) else None

    def havoc(self, st, args):
        seen = set()

        def go(v, top=True):
            if v[0] == 'p':
                if (v[1], v[2]) in seen:
                    return
                seen.add((v[1], v[2]))
                x = self.read(st, v[1], v[2])
                go(x, False)
                # without mutability information only environment tokens survive
            elif v[0] == 'a':
                for y in v[3]:
                    go(y, False)
        for a in args:
            go(a)

    def closure_call(self, st, clo, args, dest, target, dty, sp, inst):
        return self.invoke(st, inst, [clo] + args, dest, target, dty, sp)
