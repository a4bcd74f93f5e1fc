"""Specification automata, one per analysed root.

next(s) lists the allowed next actions in specification state s:
  ('call', n)            parser n is run at the logical position
  ('fn', id, args)       user function id is applied to args (None: not checked)
  ('uncons',)            one token is taken from the stream
  ('ret', kinds, value, needed error items[, options])
feed(s, action, outcome) is the specification state afterwards.
"""


import copy


class Spec:
    infallible_reset = False
    stream_errors = False
    loses_errors = False
    eoi_ok = False
    entries = 2
    steps = None
    look = False      # the parser may return without consuming although its children consumed
    recur = None
    strict_first = False
    refn = {}         # user functions that may be applied again to rebuild a suspended parser: id -> (args, child)
    pick = 0
    lazy = False      # entry point that keeps no state
    complete = False  # complete streams only
    eoi_err = False   # an end of input found by uncons is only reported
    strict_eq = False
    ranges = False
    feed_tokens = False
    max_susp = None   # bound on suspensions per run (None: any number)
    kids = {}
    prog = 'harness'
    budget = 400000
    cost = 1
    models = {}
    note = ''

    def kid(self, n):
        return self.kids.get(n, self.kids.get('*', {}))

    def init(self):
        return {'pc': 0, 'com': False}

    def where(self, s):
        return 'step %s' % (s.get('pc'),) if s else '-'

    def show(self, s):
        return ' or '.join(self.show1(a) for a in self.next(s))

    def show1(self, a):
        if a[0] == 'call':
            return 'run parser %s' % a[1]
        if a[0] == 'fn':
            return 'call function %s' % a[1]
        if a[0] == 'uncons':
            return 'take a token'
        return 'return %s' % ('/'.join(a[1]) if isinstance(a[1], tuple) else 'a failure')

    # helpers
    def ok(self, s, val):
        return ('ret', ('CommitOk',) if s['com'] else ('PeekOk',), val, ())

    def err(self, s, need, com=None):
        c = s['com'] if com is None else com
        return ('ret', ('CommitErr',) if c else ('PeekErr',), None, tuple(need))


def upd(s, **kw):
    d = dict(s)
    d.update(kw)
    return d


class Seq(Spec):
    """p1 p2 .. pn; value: tuple (or the selection `sel`: index, or -1 for unit).
    A failing element makes the whole sequence fail; committed as soon as one element committed."""

    def __init__(self, n, sel=None, kids={}, exp=True):
        self.n = n
        self.sel = sel
        self.kids = kids
        self.exp = exp

    def init(self):
        return {'pc': 0, 'com': False, 'vals': (), 'exp': ()}

    def next(self, s):
        pc = s['pc']
        if pc == 'err':
            return [self.err(s, [('e', s['who'])] + list(s['exp']))]
        if pc < self.n:
            return [('call', pc)]
        v = s['vals']
        return [self.ok(s, ('tup', v) if self.sel is None else v[self.sel] if self.sel >= 0 else 'unit')]

    def feed(self, s, a, o):
        pc = s['pc']
        if o[0] in ('CommitOk', 'PeekOk'):
            v = s['vals'] + ((o[1],) if self.sel is None or self.sel == pc else ('x',))
            return upd(s, pc=pc + 1, com=s['com'] or o[0] == 'CommitOk', vals=v, exp=() if o[0] == 'CommitOk' else s['exp'] + (('exp', pc),))
        exp = ()
        if self.exp and o[0] == 'PeekErr' and s['com']:
            exp = s['exp'] + (('exp', pc),)
        return upd(s, pc='err', who=pc, com=s['com'] or o[0] == 'CommitErr', vals=(), exp=exp)


class Choice(Spec):
    def __init__(self, n, need_all=True, kids={}):
        self.n = n
        self.need_all = need_all
        self.kids = kids

    def init(self):
        return {'pc': 0, 'com': False, 'val': None}

    def next(self, s):
        pc = s['pc']
        if pc == 'cerr':
            return [self.err(s, [('e', s['val'])], True)]
        if pc == 'ok':
            return [self.ok(s, s['val'])]
        if pc < self.n:
            return [('call', pc)]
        return [self.err(s, [('e', i) for i in range(self.n)] if self.need_all else [], False)]

    def feed(self, s, a, o):
        if o[0] in ('CommitOk', 'PeekOk'):
            return upd(s, pc='ok', com=o[0] == 'CommitOk', val=o[1])
        if o[0] == 'CommitErr':
            return upd(s, pc='cerr', val=a[1])
        return upd(s, pc=s['pc'] + 1)


# ---------------------------------------------------------------------------------------------
# Table-driven automata.  A table maps a step name to an instruction; registers hold values.
#   C(n, ok, perr='fail', cerr='cfail', reg=None, peekok=None, undo=False)   run parser n
#   F(id, args, {outcome: step}, reg=None)                                  user function
#   U(tok, end, reg)                                                        one token
#   R(value, kinds=None)                                                    success
#   E(need, kinds=None)                                                     failure
# reg 'pend' appends to the elements that have to be collected next.

def C(n, ok, perr='fail', cerr='cfail', reg=None, peekok=None, undo=False, push=None, com=True):
    return ('C', n, ok, perr, cerr, reg, peekok, undo, com)


def F(fid, args, outs, reg=None):
    return ('F', fid, args, outs, reg)


def U(tok, end='efail', reg=None, com=True):
    return ('U', tok, end, reg, com)


def UR(size, ok, end='efail', reg=None):
    return ('UR', size, ok, end, reg)


def R(val, kinds=None, opts=None):
    return ('R', val, kinds)


def E(need, kinds=None, opts=None):
    return ('E', need, kinds, opts or {})


class Auto(Spec):
    exp = True      # an uncommitted failure after a commit is reported with what was expected
    asks = {}       # by which parser the expectations of a child are reported
    def __init__(self, table, kids={}, regs=(), count=0, **kw):
        self.t = dict(table)
        self.t.setdefault('fail', E(lambda s: [('e', s['who'])]))
        self.t.setdefault('cfail', E(lambda s: [('e', s['who'])], ('CommitErr',)))
        self.t.setdefault('efail', E([('se', 'eoi')], ('CommitErr', 'PeekErr')))
        self.kids = kids
        self.regs = tuple(regs)
        self.cnt = count
        for k, v in kw.items():
            setattr(self, k, v)

    def init(self):
        d = {'pc': 'start', 'com': False, 'who': None, 'wx': False}
        for r in self.regs:
            d[r] = () if r == 'pend' else 0 if r == 'n' else None
        return d

    def val(self, s, v):
        if callable(v):
            return v(s)
        if isinstance(v, str) and v.startswith('$'):
            return s[v[1:]]
        if isinstance(v, tuple) and v and v[0] in ('some',):
            return (v[0], self.val(s, v[1]))
        if isinstance(v, tuple) and v and v[0] == 'tup':
            return ('tup', tuple(self.val(s, x) for x in v[1]))
        return v

    def next(self, s):
        out = []
        pcs = s['pc']
        for pc in (pcs if isinstance(pcs, tuple) else (pcs,)):
            i = self.t[pc]
            if callable(i):
                i = i(s)
            if i[0] == 'C':
                out.append(('call', i[1]))
            elif i[0] == 'F':
                out.append(('fn', i[1], tuple(self.val(s, x) for x in i[2])))
            elif i[0] == 'UR':
                out.append(('ur', i[1]))
            elif i[0] == 'U':
                out.append(('uncons',))
            elif i[0] == 'R':
                k = i[2] or (('CommitOk',) if s['com'] else ('PeekOk',))
                out.append(('ret', k, self.val(s, i[1]), ()))
            elif i[0] == 'E':
                k = i[2] or (('CommitErr',) if s['com'] else ('PeekErr',))
                n = i[1](s) if callable(i[1]) else i[1]
                if s['wx']:
                    n = list(n) + [('exp', self.asks.get(s['who'], s['who']))]
                out.append(('ret', k, None, tuple(n), i[3]))
        return out

    def instr(self, s, a):
        pcs = s['pc']
        for pc in (pcs if isinstance(pcs, tuple) else (pcs,)):
            i = self.t[pc]
            if callable(i):
                i = i(s)
            if (i[0], a[0]) in (('C', 'call'), ('F', 'fn')) and i[1] == a[1]:
                return i
            if (i[0], a[0]) == ('U', 'uncons'):
                return i
            if (i[0], a[0]) == ('UR', 'ur') and i[1] == a[1]:
                return i
        raise KeyError(a)

    def setreg(self, s, reg, v):
        if reg is None:
            return s
        if reg == 'pend':
            return upd(s, pend=s['pend'] + (v,))
        return upd(s, **{reg: v})

    def go(self, s, tgt):
        if callable(tgt):
            r = tgt(s)
            return r if isinstance(r, dict) else upd(s, pc=r)
        return upd(s, pc=tgt)

    def feed(self, s, a, o):
        i = self.instr(s, a)
        if i[0] == 'C':
            _, n, ok, perr, cerr, reg, peekok, undo, com = i
            if o[0] in ('CommitOk', 'PeekOk'):
                s = self.setreg(s, reg, o[1])
                if com:
                    s = upd(s, com=s['com'] or o[0] == 'CommitOk')
                if undo:
                    s = upd(s, **{'@L': ('@', o[2])})
                return self.go(s, peekok if o[0] == 'PeekOk' and peekok is not None else ok)
            s = upd(s, who=n, wx=self.exp and o[0] == 'PeekErr' and s['com'])
            return self.go(s, perr if o[0] == 'PeekErr' else cerr)
        if i[0] == 'F':
            _, fid, args, outs, reg = i
            if o[0] in ('v', 'ok', 'some'):
                s = self.setreg(s, reg, o[1])
            k = (o[0], o[1]) if o[0] in ('b', 'n') else o[0]
            return self.go(s, outs[k])
        if i[0] == 'UR':
            if o[0] == 'ok':
                s = self.setreg(s, i[4], o[1])
                s = upd(s, com=True)
                return self.go(s, i[2])
            return self.go(upd(s, eoi=o[1]), i[3])
        if i[0] == 'U':
            if o[0] == 'tok':
                s = self.setreg(s, i[3], o[1])
                s = upd(s, com=s['com'] or i[4])
                return self.go(s, i[1])
            return self.go(s, i[2])
        raise KeyError(i)


def cnt(limit, below, at):
    """count up to `limit`, then continue at `at`"""
    def f(s):
        n = s['n'] + 1
        s = upd(s, n=n)
        return upd(s, pc=below if n < limit else at)
    return f


def forward(val='$v', kids={}, **kw):
    """run parser 0, forward everything"""
    return Auto({'start': C(0, 'ok', reg='v'), 'ok': R(val)}, regs=('v',), kids=kids, **kw)


def many(minimum, collect=True, kids={}):
    reg = 'pend' if collect else None
    t = {'start': C(0, 'start', perr='ok', reg=reg), 'ok': R('coll' if collect else 'unit')}
    if minimum:
        t['start'] = C(0, 'more', reg=reg)
        t['more'] = C(0, 'more', perr='ok', reg=reg)
    return Auto(t, regs=('pend',) if collect else (), kids=kids)


def count(lo, hi, collect=True, kids={}):
    reg = 'pend' if collect else None
    t = {}
    for i in range(hi):
        t['k%d' % i] = C(0, 'k%d' % (i + 1), perr='ok' if i >= lo else 'fail', reg=reg)
    t['k%d' % hi] = R('coll' if collect else 'unit')
    t['ok'] = R('coll' if collect else 'unit')
    t['start'] = t['k0']
    return Auto(t, regs=('pend',) if collect else (), kids=kids)


def sep(minimum, end, collect=True, kids={}):
    """p (s p)*   with `end`: a trailing separator is accepted"""
    reg = 'pend' if collect else None
    r = R('coll' if collect else 'unit')
    t = {'start': C(0, 'sep', perr='fail' if minimum else 'ok', reg=reg),
         'sep': C(1, 'elem', perr='ok', peekok='elem_peek'),
         # after a separator: an element is required (sep_by) / optional (sep_end_by)
         'elem': C(0, 'sep', perr='ok' if end else 'cfail', reg=reg),
         # a separator that consumed nothing does not commit its own sequence
         'elem_peek': C(0, 'sep', perr='ok', reg=reg),
         'ok': r}
    return Auto(t, regs=('pend',) if collect else (), kids=kids)


SPECS = {}


def S(name, spec, prop=None):
    SPECS[name] = spec


NOPEEK = {'*': {'PeekOk': False}}
NOPEEK0 = {0: {'PeekOk': False}}
NOSUSP = {'*': {'susp': False}}

for k in (1, 2, 3):
    S('seq%d' % k, Seq(k))
FEW = {'*': {'PeekOk': False, 'PeekErr': False}}
for k in (5, 8, 12, 16, 20):
    S('seq%d' % k, Seq(k, kids=FEW))
S('with_', Seq(2, sel=1))
S('skip_', Seq(2, sel=0))
S('between_', Auto({'start': C(0, 'm'), 'm': C(2, 'e', reg='v'), 'e': C(1, 'ok'), 'ok': R('$v')}, regs=('v',)))
S('or2', Choice(2))
S('choice2', Choice(2))
S('choice3', Choice(3))
S('choice4', Choice(4, kids={'*': {'PeekOk': False}}))
S('choice_arr', Choice(2))
S('choice_slice', Choice(2))
S('optional_', Auto({'start': C(0, 'ok', perr='none', reg='v'), 'ok': R(('some', '$v')), 'none': R('none')}, regs=('v',)))
S('many_', many(0))
S('many1_', many(1))
S('skip_many_', many(0, False))
S('skip_many1_', many(1, False))
S('count_', count(0, 2))
S('skip_count_', count(0, 2, False, kids=NOPEEK))
S('count_min_max_', count(1, 3))
S('count_min2', count(2, 2))
S('skip_count_min_max_', count(1, 2, False))
S('sep_by_', sep(0, False, kids=NOPEEK0))
S('sep_by1_', sep(1, False))
S('sep_end_by_', sep(0, True, kids=NOPEEK0))
S('sep_end_by1_', sep(1, True))
S('attempt_', Auto({'start': C(0, 'ok', cerr='fail', reg='v'), 'ok': R('$v'), 'fail': E(lambda s: [('e', 0)], ('PeekErr',))}, regs=('v',), steps=(1, 2), max_susp=2))
S('look_ahead_', Auto({'start': C(0, 'ok', reg='v', undo=True, com=False), 'ok': R('$v')}, regs=('v',)))
S('not_followed_by_', Auto({'start': C(0, 'no', perr='ok', cerr='ok', undo=True, com=False), 'no': E([], ('PeekErr',)), 'ok': R('unit')}))
S('map_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'v': 'ok'}, 'v'), 'ok': R('$v')}, regs=('v',)))
S('map_input_', SPECS['map_'])
S('flat_map_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'ok': 'ok', 'err': 'ffail'}, 'v'), 'ok': R('$v'), 'ffail': E([('f', 0)])}, regs=('v',)))
S('and_then_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'ok': 'ok', 'err': 'ffail'}, 'v'), 'ok': R('$v'),
                    'ffail': E([('se', 'f0')], lambda s, w: ('CommitErr',) if s['com'] else ('CommitErr', 'PeekErr') if w.partial else ('PeekErr',))}, regs=('v',), loses_errors=True))
S('then_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'unit': 'b'}), 'b': C(1, 'ok', reg='v'), 'ok': R('$v')}, regs=('v',), eoi_ok=True))

S('then_partial_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'unit': 'b'}), 'b': C(1, 'ok', reg='w'), 'ok': R('$w')},
                       regs=('v', 'w'), eoi_ok=True, refn={0: (('$v',), 1)}))
S('then_ref_', Auto({'start': C(0, 'f', reg='v'), 'f': F(0, ('$v',), {'unit': 'b'}), 'b': C(1, 'ok', reg='w'), 'ok': R(('tup', ('$v', '$w')))},
                    regs=('v', 'w'), eoi_ok=True))
# chains: an operator that is not followed by an operand is not part of the chain unless it committed
S('chainl1_', Auto({'start': C(0, 'op', reg='a'),
                    'op': C(1, 'el', perr='ok', peekok='elp', reg='o'),
                    'el': C(0, 'f', perr='cfail', reg='b'),
                    'elp': C(0, 'f', perr='ok', reg='b'),
                    'f': F(0, ('$o', '$a', '$b'), {'v': 'op'}, 'a'),
                    'ok': R('$a')}, regs=('a', 'o', 'b')))
S('chainr1_', Auto({'start': C(0, 'op', reg='a'),
                    'op': C(1, 'el', perr='ok', peekok='elp', reg='o'),
                    'el': C(2, 'f', perr='cfail', reg='b'),
                    'elp': C(2, 'f', perr='ok', reg='b'),
                    'f': F(0, ('$o', '$a', '$b'), {'v': ('op', 'ok')}, 'a'),
                    'ok': R('$a')}, regs=('a', 'o', 'b'), recur={'parse_lazy': 2}, asks={2: 0}, eoi_ok=True))
EITHER_OK = lambda s, w: ('CommitOk',) if s['com'] else ('CommitOk', 'PeekOk')


def take_until(collect):
    return Auto({'start': C(0, 'ok', perr='tok', undo=True, com=False),
                 'tok': U('start', 'fail2', reg='pend' if collect else None),
                 'fail2': E([('se', 'eoi')]),
                 'ok': R('coll' if collect else 'unit', EITHER_OK)}, regs=('pend',) if collect else ())


S('take_until_', take_until(True))
S('skip_until_', take_until(False))


def repeat_until(collect):
    return Auto({'start': C(1, 'ok', perr='el', undo=True, com=False),
                 'el': C(0, 'start', reg='pend' if collect else None),
                 'ok': R('coll' if collect else 'unit', EITHER_OK)}, regs=('pend',) if collect else ())


S('repeat_until_', repeat_until(True))
S('repeat_skip_until_', repeat_until(False))
S('escaped_', Auto({'start': C(0, 'start', perr='tok'),
                    'tok': U('eq', 'ok', reg='t', com=False),
                    'eq': F('eq', (), {('b', True): lambda s: upd(s, pc='esc', com=True), ('b', False): lambda s: upd(s, pc='ok', **{'@L': ('@', s['t'][2])})}),
                    'esc': C(1, 'start', perr='cfail'),
                    'ok': R('unit')}, regs=('t',), eoi_ok=True))
S('iterate_', Auto({'start': F(100, (), {'some': 'f', 'none': 'ok'}, 'item'),
                    'f': F(0, ('$item',), {'unit': 'p'}),
                    'p': C(0, 'start', reg='pend'),
                    'ok': R('coll')}, regs=('item', 'pend'), refn={0: (('$item',), 0)}))
S('recognize_', Auto({'start': C(0, 'ok'), 'ok': R('coll')}, regs=('pend',), steps=(1, 2), feed_tokens=True))
for _n in ('no_partial_', 'any_partial_state_', 'any_send_partial_state_', 'any_send_sync_partial_state_', 'lazy_', 'opaque_', 'left_',
           'expected_', 'silent_', 'by_ref_', 'box_', 'boxed_', 'parser_macro_', 'parser_macro_partial_'):
    S(_n, forward())
S('right_', forward())
S('ignore_', forward('unit'))
S('factory_', Auto({'start': F(0, (), {'unit': 'p'}), 'p': C(0, 'ok', reg='v'), 'ok': R('$v')}, regs=('v',)))
SPECS['factory_'].init = lambda: {'pc': ('start', 'p'), 'com': False, 'who': None, 'v': None}
S('message_', Auto({'start': C(0, 'ok', reg='v'), 'ok': R('$v'), 'cfail': E([('e', 0), ('se', ('message', 'text'))], ('CommitErr',))}, regs=('v',)))
S('dispatch_', Auto({'start': lambda s: C(s['sel'], 'ok', reg='v'), 'ok': R('$v')}, regs=('v',), pick=3))
S('struct_parser_', Auto({'start': C(0, '1', reg='a'), '1': C(1, '2'), '2': C(2, 'ok', reg='b'), 'ok': R(('tup', ('$a', '$b')))}, regs=('a', 'b')))
S('struct_tuple_parser_', SPECS['struct_parser_'])
for _k in ('sep_by1_', 'sep_end_by1_', 'sep_by_', 'sep_end_by_', 'seq20', 'attempt_'):
    SPECS[_k].cost = 10

# ---- single tokens
AT = {'pos': 'start'}
TOKEND = E([('se', 'eoi')], ('CommitErr', 'PeekErr'), AT)
NOPE = E([], ('PeekErr',), AT)
TK = dict(regs=('t',), stream_errors=True)
for _n in ('any_',):
    S(_n, Auto({'start': U('ok', 'end', reg='t'), 'end': E([], ('CommitErr', 'PeekErr'), AT), 'ok': R('$t')}, **TK))
S('satisfy_', Auto({'start': U('p', 'end', reg='t'), 'p': F(0, ('$t',), {('b', True): 'ok', ('b', False): 'no'}),
                    'end': E([], ('CommitErr', 'PeekErr'), AT), 'no': NOPE, 'ok': R('$t', ('CommitOk',))}, **TK))
S('satisfy_map_', Auto({'start': U('p', 'end', reg='t'), 'p': F(0, ('$t',), {'some': 'ok', 'none': 'no'}, 'v'),
                        'end': E([], ('CommitErr', 'PeekErr'), AT), 'no': NOPE, 'ok': R('$v', ('CommitOk',))}, regs=('t', 'v'), stream_errors=True))
S('token_', Auto({'start': U('p', 'end', reg='t'), 'p': F('eq', (0, '$t'), {('b', True): 'ok', ('b', False): 'no'}),
                  'end': E([], ('CommitErr', 'PeekErr'), AT), 'no': NOPE, 'ok': R('$t', ('CommitOk',))}, strict_eq=True, **TK))


def tokens(n):
    t = {'k%d' % n: R(None), 'no0': NOPE, 'no': E([], ('CommitErr',), AT), 'end0': E([], ('CommitErr', 'PeekErr'), AT), 'end': E([], ('CommitErr',), AT)}
    for i in range(n):
        z = '0' if i == 0 else ''
        t['k%d' % i] = U('c%d' % i, 'end' + z, reg='t', com=True)
        t['c%d' % i] = F(0, (('c', i), '$t'), {('b', True): 'k%d' % (i + 1), ('b', False): 'no' + z})
    t['start'] = t['k0']
    return Auto(t, **TK)


S('tokens_', tokens(3))
S('tokens0_', tokens(0))
S('tokens_cmp_', tokens(3))
for _n, _m in (('one_of_', True), ('none_of_', False)):
    _t = {'start': U('c0', 'end', reg='t'), 'end': E([], ('CommitErr', 'PeekErr'), AT), 'no': NOPE, 'ok': R('$t', ('CommitOk',))}
    for _i in range(3):
        _t['c%d' % _i] = F('eq', (_i, '$t'), {('b', True): 'ok' if _m else 'no',
                                              ('b', False): 'c%d' % (_i + 1) if _i < 2 else 'no' if _m else 'ok'})
    S(_n, Auto(_t, strict_eq=True, **TK))
S('position_', Auto({'start': R('pos0')}))
S('value_', Auto({'start': R(('c', 5))}))
S('produce_', Auto({'start': F(0, (), {'v': 'ok'}, 'v'), 'ok': R('$v')}, regs=('v',)))
S('eof_', Auto({'start': U('no', 'ok', com=False), 'no': E([], ('PeekErr',)), 'ok': R('unit', ('PeekOk',))}))
S('unexpected_', Auto({'start': E([], ('PeekErr',), AT)}))
S('fn_parser_', forward())

# ---- ranges
def back(pc, **kw):
    return lambda s: upd(s, pc=pc, **dict({'@L': ('@', s['t'][2])}, **kw))


def take_while(one):
    t = {'start': U('p', 'end' if not one else 'no', reg='t', com=False),
         'p': F(0, ('$t',), {('b', True): lambda s: upd(s, pc='more', com=True), ('b', False): back('ok' if not one else 'no')}),
         'more': U('pm', 'end', reg='t', com=False),
         'pm': F(0, ('$t',), {('b', True): 'more', ('b', False): back('ok')}),
         'no': E([], ('PeekErr',)), 'end': R('rng'), 'ok': R('rng')}
    return Auto(t, regs=('t',), ranges=True)


RNGEND = E(lambda s: [('se', 'eoi')] if s['eoi'] else [], ('PeekErr', 'CommitErr'), AT)
S('range_', Auto({'start': UR('len', 'eq', 'end', 'r'), 'eq': F('req', ('$r',), {('b', True): 'ok', ('b', False): 'no'}),
                  'ok': R('$r', ('CommitOk',)), 'no': NOPE, 'end': RNGEND}, regs=('r',), ranges=True))
S('range0_', Auto({'start': F('req', ('rng',), {('b', True): 'ok', ('b', False): 'no'}), 'ok': R('rng', ('PeekOk',)), 'no': NOPE}, ranges=True))
S('take_', Auto({'start': UR(3, 'ok', 'end', 'r'), 'ok': R('$r', ('CommitOk',)), 'end': RNGEND}, regs=('r',), ranges=True))
S('take0_', Auto({'start': R('rng')}, ranges=True))
S('take_while_', take_while(False))
S('take_while1_', take_while(True))


S('take_until_range_', Auto({
    'start': UR('len', 'eq', 'adv', 'r'),
    'eq': F('req', ('$r',), {('b', True): lambda s: upd(s, pc='ok', com=s['c2'], **{'@L': ('@', s['r'][2])}),
                             ('b', False): lambda s: upd(s, pc='adv', com=s['c2'], **{'@L': ('@', s['r'][2])})}),
    'adv': None,
    'ok': R('rng'), 'end': E([('se', 'eoi')], ('PeekErr', 'CommitErr'))}, regs=('r', 'c2'), ranges=True))
SPECS['take_until_range_'].t['adv'] = U(lambda s: upd(s, pc='start', c2=True), 'end', com=True)
S('take_fn_', Auto({'start': F('search', (), {'ok': lambda s: upd(s, pc='ok', com=True), 'err': 'no'}), 'ok': R('rng', lambda s, w: ('PeekOk',) if w.start == w.L else ('CommitOk',)),
                    'no': E([('se', 'eoi')], ('PeekErr', 'CommitErr'))}, ranges=True))
S('range_recognize_', forward('rng', ranges=True))
S('recognize_with_value_', forward(('tup', ('rng', '$v')), ranges=True))
S('length_prefix_', Auto({'start': C(0, 'f', reg='v'), 'f': F(5, ('$v',), {'ok': 'r', 'zero': 'z', 'err': 'ffail'}), 'z': R(None), 'r': UR(0x102030407, 'ok', 'end', 'r'), 'ok': R('$r'),
                          'ffail': E([('se', ('message', 'text'))], ('PeekErr', 'CommitErr')), 'end': E([('se', 'eoi')], ('PeekErr', 'CommitErr'))},
                         regs=('v', 'r'), ranges=True, eoi_ok=True, loses_errors=True))
for _n in ('range_', 'take_', 'take_until_range_'):
    SPECS[_n].stream_errors = 'range'
for _n in ('take_while_', 'take_while1_'):
    SPECS[_n].infallible_reset = True
RANGES = ['range_', 'range0_', 'take_', 'take0_', 'take_while_', 'take_while1_', 'take_until_range_', 'take_fn_', 'range_recognize_', 'recognize_with_value_', 'length_prefix_']

# ---- the errors a parser adds for the parsers it stands for
class AddErr(Spec):
    entries = 1
    infallible_reset = True

    def __init__(self, items, **kw):
        self.items = tuple(items)
        for k, v in kw.items():
            setattr(self, k, v)

    def adderr(self, s):
        return [('exp', s['sel'])] if self.items == ('sel',) else self.items


def exp(*n):
    return [('exp', i) for i in n]


def com(*n):
    return [('exp', i) for i in n] + [('com', i) for i in n]


TXT = [('se', ('expected', 'text'))]
_fwd = ['map_', 'map_input_', 'flat_map_', 'and_then_', 'attempt_', 'look_ahead_', 'no_partial_', 'ignore_', 'any_partial_state_',
        'any_send_partial_state_', 'any_send_sync_partial_state_', 'lazy_', 'opaque_', 'left_', 'right_', 'by_ref_', 'box_',
        'boxed_', 'parser_macro_', 'parser_macro_partial_']
for _n in _fwd:
    S('err::' + _n, AddErr(exp(0)))
    S('com::' + _n, AddErr(com(0)))
for _n, _k in (('seq1', 0), ('seq2', 1), ('seq3', 2), ('seq5', 4), ('seq20', 19), ('with_', 1), ('skip_', 1), ('between_', 1),
               ('struct_parser_', 2), ('struct_tuple_parser_', 2)):
    S('err::' + _n, AddErr(exp(0)))
    S('com::' + _n, AddErr(com(_k)))
for _n in ('then_', 'then_partial_', 'then_ref_', 'optional_', 'many_', 'many1_', 'skip_many_', 'skip_many1_', 'count_', 'count_min_max_',
           'skip_count_', 'skip_count_min_max_', 'sep_by_', 'sep_by1_', 'sep_end_by_', 'sep_end_by1_', 'chainl1_', 'chainr1_', 'recognize_'):
    S('err::' + _n, AddErr(exp(0)))
for _n, _k in (('many_', 0), ('many1_', 0), ('skip_many_', 0), ('skip_many1_', 0), ('sep_by_', 1), ('sep_by1_', 1)):
    S('com::' + _n, AddErr(exp(_k)))
for _n, _k in (('or2', 2), ('choice2', 2), ('choice3', 3), ('choice4', 4), ('choice_arr', 2), ('choice_slice', 2)):
    S('err::' + _n, AddErr(exp(*range(_k))))
S('err::not_followed_by_', AddErr([]))
S('err::escaped_', AddErr(exp(0) + [('se', ('expected', 0))]))
S('err::silent_', AddErr([]))
S('com::silent_', AddErr([]))
S('err::expected_', AddErr(TXT))
S('err::message_', AddErr(exp(0) + [('se', ('message', 'text'))]))
S('com::expected_', AddErr(com(0)))
S('com::message_', AddErr(com(0)))
S('err::token_', AddErr([('se', ('expected', 0))]))
S('err::one_of_', AddErr([('se', ('expected', i)) for i in range(3)]))
S('err::tokens_', AddErr(TXT))
S('err::range_', AddErr([('se', ('expected', 'r', 0))]))
S('err::eof_', AddErr([('se', ('expected', 'text'))]))
S('err::recognize_with_value_', AddErr(exp(0)))
S('err::range_recognize_', AddErr(exp(0)))
for _n in ('take_', 'take_while_', 'take_while1_', 'take_until_range_', 'take_fn_'):
    S('err::' + _n, AddErr([]))
S('err::unexpected_', AddErr([('se', ('unexpected', 'text'))]))
for _n in ('any_', 'satisfy_', 'satisfy_map_', 'none_of_', 'position_', 'value_', 'produce_'):
    S('err::' + _n, AddErr([]))

# the same parsers made by the methods of Parser (m_) or by free functions (f_)
for _n, _m in (('m_with', 'with_'), ('m_skip', 'skip_'), ('m_and', 'seq2'), ('m_then', 'then_'), ('m_then_partial', 'then_partial_'),
               ('m_then_ref', 'then_ref_'), ('m_or', 'or2'), ('m_by_ref', 'by_ref_'), ('f_map', 'map_'), ('f_map_input', 'map_input_'),
               ('f_flat_map', 'flat_map_'), ('f_and_then', 'and_then_')):
    for _k in ('', 'err::', 'com::'):
        if _k + _m in SPECS:
            S(_k + _n, copy.copy(SPECS[_k + _m]))
# these report what they ran into, not what would have been right
for _n in ('take_until_', 'skip_until_', 'repeat_until_', 'repeat_skip_until_', 'iterate_', 'count_min2'):
    SPECS[_n].exp = False
# ---- entry points
for _n in list(SPECS):
    if '::' not in _n:
        _s = copy.copy(SPECS[_n])
        _s.lazy = True
        _s.entries = 1
        S('lz::' + _n, _s)


S('plain_', forward())
S('lz::plain_', copy.copy(SPECS['lz::left_']))
S('input_converter_', Auto({'start': F('conv', (), {'ok': 'p', 'err': 'no'}), 'no': E(['conv'], ('PeekErr',)), 'p': C(0, 'ok', reg='v'), 'ok': R('$v'),
                            'fail': E([('e', 0), 'converted'], ('PeekErr',)), 'cfail': E([('e', 0), 'converted'], ('CommitErr',))}, regs=('v',)))
S('env_parser_', Auto({'start': F(7, (), {('b', True): 'p', ('b', False): 'p'}), 'p': C(0, 'ok', reg='v'), 'ok': R('$v')}, regs=('v',)))
# a parser that is created anew for every parse (factory) has to be told that a parse begins
SPECS['chainl1_'].strict_first = True
for _n in ('spanned_', 'm_spanned'):
    S(_n, Auto({'start': C(0, 'ok', reg='v'), 'ok': R('$v'), 'fail': E([('e', 0), 'spanned'], ('PeekErr',)), 'cfail': E([('e', 0), 'spanned'], ('CommitErr',))}, regs=('v',)))
S('err_spanned', copy.copy(SPECS['err::left_']))
S('com_spanned', copy.copy(SPECS['com::left_']))
SPECS['env_parser_'].max_susp = 0


def top(items):
    """parse_stream: an uncommitted failure gets what was found and what was expected"""
    return Auto({'start': C(0, 'ok', perr='p', reg='v'), 'ok': R('$v'),
                 'p': U('tok', 'eof', com=False),
                 'tok': E([('e', 0), ('se', ('unexpected', 'first'))] + items, ('PeekErr',)),
                 'eof': E([('e', 0), ('se', 'eoi')] + items, ('PeekErr',))}, regs=('v',), eoi_err=True)


for _n in ('plain_', 'no_partial_', 'any_partial_state_', 'any_send_partial_state_', 'any_send_sync_partial_state_', 'lazy_', 'opaque_',
           'left_', 'right_', 'silent_', 'by_ref_', 'box_', 'boxed_', 'parser_macro_', 'parser_macro_partial_'):
    S('st::' + _n, top(exp(0) if _n != 'silent_' else []))
    SPECS['st::' + _n].lazy = 'anywhere'
    SPECS['st::' + _n].entries = 1
    S('sp::' + _n, top(exp(0) if _n != 'silent_' else []))
    SPECS['sp::' + _n].entries = 1
S('parse_', copy.copy(SPECS['st::plain_']))
S('parse_with_state_', copy.copy(SPECS['sp::plain_']))
S('iter_', copy.copy(SPECS['many_']))
SPECS['iter_'].complete = True
SPECS['iter_'].entries = 1
