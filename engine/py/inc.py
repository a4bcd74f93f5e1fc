"""Incremental decoding: models of the growing buffer and of readers, oracle of the decode loop (see lin.py).

The buffer (BytesMut) is a label B; what happens to it are events: adv (drop a prefix), adm (the
bytes just read become part of it), clear.  Its contents and length are labels stamped with the last
such event, its free capacity is a quantity of its own.  After two rounds of the loop the events of
the oldest round are forgotten (the oracle accepted them), so the loop reaches a fixpoint.
"""
from lin import *
import model

MOD = ('adv', 'adm', 'clear')
READS = ('read', 'aread', 'aread_u')
BIG = (1 << 64) - 1


def regs(w):
    return dict(w.o)


def setr(w, **kw):
    d = dict(w.o)
    d.update(kw)
    w.o = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=str))


def stamp(w, B):
    for j in range(len(w.tr) - 1, -1, -1):
        if w.tr[j][0] in MOD and w.tr[j][1][0] == B:
            return j
    return dict(w.o).get('age', -1)


def buf(it, st, v):
    """the label of the buffer v points to"""
    x = freeze(it, st, v)
    return x if x[0] == 'k' and x[1] == 'o' else None


def bytes_(w, B):
    return lab('p_bytes', stamp(w, B), (B,))


def blen(w, B):
    return lab('p_blen', stamp(w, B), (B,))


def spare(w, B):
    v = regs(w).get('spare')
    return v[1] if v is not None and v[0] == B else lab('spare0', None, (B,))


def positive(w, v):
    vs = w.fact(vkey(v)) or ((0, BIG),)
    return cut(vs, 1, BIG) == vs


def emit(it, st, name, args, fz=('',)):
    st.w.tr = st.w.tr + ((name, args, fz),)
    st.w.prog = True
    st.log(name, ' '.join(show(a) for a in args)[:100])
    return judge(it, st)


def need(f):
    """models of methods of a buffer"""
    def m(it, st, b, args, ty, sp):
        B = buf(it, st, args[0])
        if B is None:
            it.note('unknown buffer in ' + b['path'])
            return [(st, ('t', ty))]
        return f(it, st, B, args, ty)
    return m


@need
def m_deref(it, st, B, args, ty):
    return [(st, bytes_(st.w, B))]


@need
def m_len(it, st, B, args, ty):
    return [(st, blen(st.w, B))]


@need
def m_is_empty(it, st, B, args, ty):
    return [(s, ('c', int(x))) for s, x in vcompare(it, st, blen(st.w, B), 0, 'Eq', None)]


@need
def m_capacity(it, st, B, args, ty):
    return [(st, mk(*add(lin(blen(st.w, B)), lin(spare(st.w, B)))))]


def grow(it, st, B, atleast):
    """more free capacity than before"""
    w = st.w
    v = lab('spare', len(w.tr), (B,))
    if atleast:
        w.learn(vkey(v), ((atleast, BIG),))
    setr(w, spare=(B, v), zero=None)
    return v


@need
def m_reserve(it, st, B, args, ty):
    n = args[1][1] if args[1][0] == 'c' else 0
    grow(it, st, B, n)
    return [(st, UNIT)]


@need
def m_spare(it, st, B, args, ty):
    return [(st, ('p', ('H', 'spare'), (), ('len', spare(st.w, B))))]


@need
def m_chunk(it, st, B, args, ty):
    v = spare(st.w, B)
    if not positive(st.w, v):
        v = grow(it, st, B, 1)
    return [(st, ('p', ('H', 'spare'), (), ('len', v)))]


@need
def m_has_rem(it, st, B, args, ty):
    return [(st, ('c', 1))]


@need
def m_rem(it, st, B, args, ty):
    v = lab('rem', stamp(st.w, B), (B,))
    st.w.learn(vkey(v), ((1, BIG),))
    return [(st, v)]


@need
def m_advance(it, st, B, args, ty):
    return [(st, UNIT)] if emit(it, st, 'adv', (B, freeze(it, st, args[1]))) else []


@need
def m_split_to(it, st, B, args, ty):
    return [(st, ('t', ty))] if emit(it, st, 'adv', (B, freeze(it, st, args[1]))) else []


@need
def m_adm(it, st, B, args, ty):
    n = freeze(it, st, args[1])
    if not emit(it, st, 'adm', (B, n)):
        return []
    setr(st.w, spare=(B, lab('spare', len(st.w.tr), (B,))), zero=None)
    return [(st, UNIT)]


@need
def m_clear(it, st, B, args, ty):
    return [(st, UNIT)] if emit(it, st, 'clear', (B,)) else []


# ------------------------------------------------------------------ memory about to be read into
def window(it, v):
    """length of a slice of the free capacity"""
    v = it.unwrap_ptr(v)
    if v[0] == 'p' and v[1] == ('H', 'spare') and v[3] is not None and v[3][0] == 'len':
        return v[3][1]
    return None


def m_wlen(it, st, b, args, ty, sp):
    n = window(it, args[0])
    if n is None:
        n = target(it, args[0])
    if n is None:
        n = content(it.unwrap_ptr(args[0]))
    return None if n is None else [(st, n)]


def m_same(it, st, b, args, ty, sp):
    return [(st, it.unwrap_ptr(args[0]))]


def m_ptr(it, st, b, args, ty, sp):
    v = it.unwrap_ptr(args[0])
    return [(st, ('p', v[1], v[2], None))] if v[0] == 'p' and v[1] == ('H', 'spare') else None


def m_from_raw(it, st, b, args, ty, sp):
    v = it.unwrap_ptr(args[0])
    if v[0] == 'p' and v[1] == ('H', 'spare'):
        return [(st, ('p', v[1], v[2], ('len', args[1])))]
    return None


def zeroed(it, st, n):
    setr(st.w, zero=n)


def m_write_bytes(it, st, b, args, ty, sp):
    v = it.unwrap_ptr(args[0])
    if v[0] == 'p' and v[1] == ('H', 'spare'):
        n = args[2]
        r = regs(st.w).get('spare')
        zeroed(it, st, n)
        return [(st, UNIT)]
    return None


def m_fill(it, st, b, args, ty, sp):
    n = window(it, args[0])
    if n is None:
        return None
    zeroed(it, st, n)
    return [(st, UNIT)]


def m_range_next(it, st, b, args, ty, sp):
    """a loop over 0..n: every iteration is the same"""
    p = it.unwrap_ptr(args[0])
    v = it.read(st, p[1], p[2])
    if v[0] != 'a' or len(v[3]) != 2:
        return None
    i, n = v[3]
    if n[0] == 'c' and i[0] == 'c' and n[1] < 16:
        return None
    w = st.w
    out = []
    idx = lab('idx', None, (n,))
    w.prog = True     # a range is finite
    nxt = lab('idx+1', None, (n,))
    none = model.variant(it, ty, 'None', [])
    some = model.variant(it, ty, 'Some', [idx])
    if i == ('c', 0):
        if is_label(n):
            fk = vcompare(it, st, n, 0, 'Eq', None)
        elif n[0] == 'c':
            fk = [(st, n[1] == 0)]
        else:
            return None
        for s, emp in fk:
            if emp:
                zeroed(it, s, n)
                out.append((s, none))
            else:
                s2 = s
                it.write(s2, p[1], p[2] + (0,), nxt)
                setr(s2.w, loop='open', loopok='yes')
                out.append((s2, some))
        return out
    if i == nxt:
        r = regs(w)
        ok = r.get('loop') == 'done' and r.get('loopok') == 'yes'
        s2 = st.copy()
        if ok:
            zeroed(it, s2, n)
        setr(s2.w, loop=None, loopok=None)
        out.append((s2, none))
        setr(w, loop='open', loopok='yes' if ok else 'no')
        return out + [(st, some)]
    return None


def m_write_byte(it, st, b, args, ty, sp):
    n = window(it, args[0])
    i = args[1]
    if n is None:
        it.note('write_byte elsewhere')
        return [(st, UNIT)]
    if is_label(i) and i[2][0] == 'idx' and i[2][2][0] == n:
        setr(st.w, loop='done')
    else:
        it.note('write_byte at an unknown index')
    return [(st, UNIT)]


def content(v):
    """length of (a prefix of) the buffered bytes"""
    if v[0] == 'k' and v[1] == 'o':
        if v[2][0] == 'p_bytes':
            return lab('p_blen', v[2][1], v[2][2])
        if v[2][0] == 'pre':
            return v[2][2][1]
    return None


def pre(v, k):
    if content(v) == k:
        return v
    return lab('pre', None, (v, k))


def m_dst(it, st, b, args, ty, sp):
    return [(st, ('p', ('H', 'dst'), (), ('len', lab('dstlen', None, ()))))]


def m_numl(it, st, b, args, ty, sp):
    return [(st, lab('num', None, ()))]


def m_slice_read(it, st, b, args, ty, sp):
    """a prefix of the bytes goes to dst"""
    p = it.unwrap_ptr(args[0])
    v = it.read(st, p[1], p[2]) if p[0] == 'p' else p
    d = it.unwrap_ptr(args[1])
    n = content(v)
    if n is None or d[0] != 'p' or d[3] is None:
        return None
    m = d[3][1]
    out = []
    for s, le in compare(it, st, add(lin(n), lin(m), -1), 'Le'):
        k = n if le else m
        if emit(it, s, 'copy', (pre(v, k),)):
            out.append((s, model.variant(it, ty, 'Ok', [k])))
    return out


def m_put_slice(it, st, b, args, ty, sp):
    v = args[1]
    if content(v) is None:
        return None
    return [(st, UNIT)] if emit(it, st, 'copy', (v,)) else []


def m_with_capacity(it, st, b, args, ty, sp):
    return [(st, lab('newbuf', None, ()))]


def m_sub(it, st, b, args, ty, sp):
    """bs[..k]"""
    v = next((it.unwrap_ptr(a) for a in args if window(it, a) is not None or target(it, a) is not None), None)
    c = next((a for a in args if content(a) is not None), None)
    if v is None and c is None:
        return None
    n = v[3][1] if v is not None else content(c)
    if v is None:
        v = c
    r = next((a for a in args if a[0] == 'a' and window(it, a) is None and target(it, a) is None), None)
    if r is None:
        return None
    nm = it.P.types[r[1]].get('n', '') if r[1] is not None else ''
    if 'RangeFull' in nm:
        return [(st, v)]
    if 'RangeFrom<' in nm and r[3][0] == ('c', 0):
        return [(st, v)]
    if 'RangeTo<' not in nm and not nm.endswith('RangeTo'):
        return None
    k = r[3][0]
    if lin(k) is None:
        it.note('slice bound %s' % (k,))
        return []
    out = []
    if k == n:
        fits_ = [(st, True)]
    else:
        fits_ = compare(it, st, add(lin(k), lin(n), -1), 'Le')
    for s, ok in fits_:
        if ok:
            out.append((s, pre(v, k) if v[0] == 'k' else ('p', v[1], v[2], ('len', k))))
        else:
            it.panic(s, 'slice index beyond the free capacity', True)
    return out


def m_split_at(it, st, b, args, ty, sp):
    """bs.split_at(k)"""
    v = it.unwrap_ptr(args[0])
    k = args[1]
    n = window(it, v)
    if n is None:
        n = target(it, v)
    if n is None:
        n = content(v)
    if n is None or lin(k) is None:
        return None
    out = []
    for s, ok in ([(st, True)] if k == n else compare(it, st, add(lin(k), lin(n), -1), 'Le')):
        if not ok:
            it.panic(s, 'split beyond the end', True)
        elif v[0] == 'k':
            out.append((s, ('a', ty, 0, (pre(v, k), lab('rest', None, (v, k))))))
        else:
            out.append((s, ('a', ty, 0, (('p', v[1], v[2], ('len', k)), ('p', ('H', 'rest'), (), ('len', mk(*add(lin(n), lin(k), -1))))))))
    return out


def target(it, v):
    """length of the slice of the caller that is to be filled"""
    v = it.unwrap_ptr(v)
    if v[0] == 'p' and v[1] == ('H', 'dst') and v[3] is not None and v[3][0] == 'len':
        return v[3][1]
    return None


def m_copy(it, st, b, args, ty, sp):
    """dst.copy_from_slice(bytes)"""
    d, n = target(it, args[0]), content(args[1])
    if d is None or n is None:
        return None
    out = []
    for s, ok in [(st, True)] if d == n else compare(it, st, add(lin(d), lin(n), -1), 'Eq'):
        if not ok:
            it.panic(s, 'copy between slices of different lengths', True)
        elif emit(it, s, 'copy', (args[1],)):
            out.append((s, UNIT))
    return out


def m_read(it, st, b, args, ty, sp):
    """one call of the reader"""
    name = b['path'].split('::')[-1]
    w = st.w
    rd = freeze(it, st, args[0])
    n = window(it, args[1])
    if n is None and target(it, args[1]) is not None:
        # past the buffer, straight to the caller
        f = w.fact(vkey(blen(w, br_fields(it)[1])))
        if f == ((0, 0),):
            it.note('direct read, not followed')
            return []
        return bad(it, st, 'read past the buffer', 'the reader is asked directly although bytes can still be buffered')
    if n is None:
        it.note('read into other memory')
        return []
    if not (n[0] == 'c' and n[1] > 0 or is_label(n) and positive(w, n)):
        return bad(it, st, 'reader handed no space', 'the reader can be handed an empty slice: its answer 0 means the end of the input')
    if name != 'aread_u':
        if regs(w).get('zero') != n:
            return bad(it, st, 'uninitialised memory handed to the reader', 'the memory handed to the reader is not initialised before')
    i = len(w.tr)
    t = it.P.types[ty]
    out = []

    def end(s, v, fz):
        if emit(it, s, name, (rd, n), fz):
            out.append((s, v))
    rty = ty
    wrap = lambda v: v
    if name != 'read':
        k = next(j for j, x in enumerate(t['vs']) if x['n'] == 'Ready')
        rty = t['vs'][k]['f'][0][1]
        wrap = lambda v: ('a', ty, k, (v,))
        end(st.copy(), ('a', ty, 1 - k, ()), ('Pending',))
    c = lab(name, i, 'Ok', 0)
    e = lab(name, i, 'Err', 0)
    end(st.copy(), wrap(model.variant(it, rty, 'Err', [e])), ('Err', e))
    if n[0] == 'c':
        st.w.learn(vkey(c), ((0, n[1]),))
    else:
        for s, ok in compare(it, st, add(lin(c), lin(n), -1), 'Le'):
            if ok:
                st = s
    end(st, wrap(model.variant(it, rty, 'Ok', [c])), ('Ok', c))
    return out


def m_mkz(it, st, b, args, ty, sp):
    w = st.w
    fa = tuple(freeze(it, st, a) for a in args)
    z = lab('mkz', len(w.tr))
    if not emit(it, st, 'mkz', fa, z):
        return []
    js = [j for j, e in enumerate(w.tr) if e[0] == 'mkz']
    if len(js) >= 3:
        d = js[1]
        z = rename(z, d)
        forget(st, d)
        setr(w, age='old', rb=1)
    return [(st, z)]


def m_pending(it, st, b, args, ty, sp):
    """polled again later: any number of times is as good as one"""
    if not emit(it, st, 'pending', ()):
        return []
    w = st.w
    if len(w.tr) >= 4 and w.tr[-2:] == w.tr[-4:-2]:
        w.tr = w.tr[:-2]
    return [(st, UNIT)]


def ptrmeta(it, st, a):
    return content(a)


def notl(it, st, a):
    if is_label(a):
        r = vcompare(it, st, a, 0, 'Eq', it.P.name2ty.get('bool'))
        return [(s, ('c', int(x))) for s, x in r]
    return None


BM = 'bytes::bytes_mut::BytesMut'
M = {
    'opq::inc::dst': m_dst, 'opq::inc::num': m_numl,
    BM + '::with_capacity': m_with_capacity, BM + '::new': m_with_capacity,
    "tokio::io::ReadBuf::<'a>::put_slice": m_put_slice,
    'alloc::io::impls::<impl std::io::Read for &[u8]>::read': m_slice_read,
    'std::io::impls::<impl std::io::Read for &[u8]>::read': m_slice_read,
    'opq::inc::mkz': m_mkz, 'opq::inc::pending': m_pending,
    'opq::inc::read': m_read, 'opq::inc::aread': m_read, 'opq::inc::aread_u': m_read,
    '<%s as std::ops::Deref>::deref' % BM: m_deref,
    '<%s as std::convert::AsRef<[u8]>>::as_ref' % BM: m_deref,
    '<%s as std::borrow::Borrow<[u8]>>::borrow' % BM: m_deref,
    '<%s as bytes::buf::buf_impl::Buf>::chunk' % BM: m_deref,
    '<%s as bytes::buf::buf_impl::Buf>::remaining' % BM: m_len,
    '<%s as bytes::buf::buf_impl::Buf>::advance' % BM: m_advance,
    '<%s as bytes::buf::buf_mut::BufMut>::advance_mut' % BM: m_adm,
    '<%s as bytes::buf::buf_mut::BufMut>::chunk_mut' % BM: m_chunk,
    '<%s as bytes::buf::buf_mut::BufMut>::remaining_mut' % BM: m_rem,
    'bytes::buf::buf_mut::BufMut::has_remaining_mut': m_has_rem,
    BM + '::len': m_len, BM + '::is_empty': m_is_empty, BM + '::capacity': m_capacity, BM + '::reserve': m_reserve,
    BM + '::spare_capacity_mut': m_spare, BM + '::clear': m_clear, BM + '::split_to': m_split_to,
    'bytes::buf::uninit_slice::UninitSlice::len': m_wlen,
    'bytes::buf::uninit_slice::UninitSlice::as_mut_ptr': m_ptr,
    'bytes::buf::uninit_slice::UninitSlice::as_uninit_slice_mut': m_same,
    'bytes::buf::uninit_slice::UninitSlice::write_byte': m_write_byte,
    'core::slice::<impl [T]>::as_mut_ptr': m_ptr,
    'core::slice::<impl [T]>::len': m_wlen,
    'core::slice::<impl [T]>::fill': m_fill,
    'std::slice::from_raw_parts_mut': m_from_raw,
    'std::ptr::mut_ptr::<impl *mut T>::write_bytes': m_write_bytes,
    'core::ptr::mut_ptr::<impl *mut T>::write_bytes': m_write_bytes,
    'std::intrinsics::write_bytes': m_write_bytes,
    'std::ptr::write_bytes': m_write_bytes,
    'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next': m_range_next,
    'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut': m_sub,
    'core::slice::index::<impl std::ops::Index<I> for [T]>::index': m_sub,
    'core::slice::<impl [T]>::as_ptr': m_ptr,
    'core::slice::<impl [T]>::split_at': m_split_at, 'core::slice::<impl [T]>::split_at_mut': m_split_at,
    'core::slice::<impl [T]>::copy_from_slice': m_copy, 'core::slice::copy_from_slice_impl': m_copy,
}


# ------------------------------------------------------------------ oracles
class Objs:
    def __init__(self, *ls):
        self.ls = ls

    def __contains__(self, x):
        return isinstance(x, tuple) and x[:2] == ('k', 'o') and (x in self.ls or x[2][0] == 'mkz')


ZF = lab('new', 0)
PS = lab('new', 2)


def known(E, l):
    if l[0] == 'c':
        return bool(l[1])
    vs = E.w.fact(vkey(l))
    return None if vs is None else False if vs == ((0, 0),) else True if not cut(vs, 0, 0) else None


def stop_or_more(E, z, e):
    """an error of the parser: True when more input can help"""
    eoi, part = known(E, lab('p_er_eoi', None, (e,))), known(E, E.pure('p_is_partial', z))
    if eoi is False or part is False:
        return False
    if eoi and part:
        return True
    raise Bad('whether more input can help is not looked at')


def fdecode(E, tokio=False):
    z, s = ZF, lab('new', 1)
    ck = E.pure('p_checkpoint', z)
    r = E.ev('prs', PS, z, s)
    left = ('', z, s)
    if r[0] == 'Ok':
        return E.ret(('Ok', ('', ('Some', r[1]), E.pure('p_distance', z, ck))), left)
    E.peek()
    e = r[1]
    part = E.pure('p_is_partial', z)
    n = E.pure('p_distance', z, ck)
    if tokio and known(E, lab('p_er_eoi', None, (e,))) and known(E, part) is False:
        # the end was reached: it is a clean one when nothing of a message was read
        now = E.pure('p_checkpoint', z)
        if E.peek()[0] == 'done' and known(E, n):
            return E.ret(('Err', e), left)
        t = E.ev('z_uncons', z)
        b = E.ev('z_reset', z, now)
        E.peek()
        end = t[0] == 'Err' and b[0] == 'Ok' and known(E, lab('p_se_is_eoi', None, (t[1],)))
        if end is None:
            raise Bad('whether the input is at its end is not looked at')
        if end:
            n = [known(E, lab('p_distance', j, (z, ck))) for j in (E.i, E.i - 2)]
            if n == [None, None]:
                raise Bad('whether a part of a message was read is not looked at')
            if False in n:
                return E.ret(('Ok', ('', ('None',), ('c', 0))), left)
        return E.ret(('Err', e), left)
    if stop_or_more(E, z, e):
        return E.ret(('Ok', ('', ('None',), n)), left)
    return E.ret(('Err', e), left)


def fields(it):
    """position of the decoder's fields, by their types"""
    for t in it.P.types:
        if '::Decoder<env::St, env::Pos' in (t.get('n') or '') and (t.get('n') or '').startswith('combine::') and t['k'] == 'adt':
            out = {}
            for j, (n, ty) in enumerate(t['vs'][0]['f']):
                x = it.P.types[ty]
                nm = x.get('n') or ''
                out['eoi' if x['k'] == 'bool' else 'pos' if nm.endswith('env::Pos') else 'state' if nm.endswith('env::St') else 'buf'] = j
            if len(out) == 4:
                return out
    raise Unknown()


def loop(post, own):
    """the decode loop"""
    def o(E):
        E.peek()
        F = fields(E.it)
        D = lambda k: lab('new', 0, '.', F[k])
        rb = dict(E.w.o).get('rb')
        pos, eoi = D('pos'), None
        first = True
        B = None
        while True:
            a = E.peek()
            if a[0] != 'mkz':
                raise Bad('%s instead of building a stream' % a[0])
            inp, p = a[1]
            if unknown(a[1]):
                raise Unknown()
            if len(inp) != 3 or inp[1][0] != 'k' or inp[1][2][0] != 'p_bytes':
                raise Bad('the stream is not built on the buffered input')
            b = inp[1][2][2][0]
            if B is None:
                B = b
                if b[2][:2] != ('new', 0 if own else 1):
                    raise Bad('the stream is not built on the buffered input')
            now = dict(E.w.o).get('age', -1)
            for j in range(E.i):
                if E.tr[j][0] in MOD:
                    now = j
            if inp[1] != lab('p_bytes', now if E.i or not rb else inp[1][2][1], (B,)):
                raise Bad('the stream is not built on the current input')
            part = known(E, inp[2])
            if part is None:
                raise Unknown()
            if first:
                if not rb:
                    if p != pos:
                        raise Bad('the stream does not start at the position of the decoder')
                    e0 = known(E, D('eoi'))
                    if e0 is None:
                        raise Bad('whether the input ended is not looked at')
                    eoi = e0
                else:
                    eoi = not part
            if part != (not eoi):
                raise Bad('the stream is partial although the input ended' if part else 'the stream is complete although more input can come')
            if not first and p != pos:
                raise Bad('the stream does not start at the position of the decoder')
            first = False
            z = E.ev('mkz')
            ck = E.pure('p_checkpoint', z)
            r = E.ev('prs', PS, z, D('state'))
            pos = E.pure('p_position', z)
            dist = E.pure('p_distance', z, ck)
            i0 = E.i
            if post:
                E.ev('post', z)
            E.peek()
            fin = lambda e: (lambda v: final(E, F, v, pos, e))
            more = r[0] == 'Err' and stop_or_more_at(E, z, r[1], i0)
            if r[0] == 'Err' and not more:
                return E.ret(('Err', ('Parse', r[1])), fin(eoi))
            if E.peek()[0] == 'adv' or known(E, dist) is not False:
                E.ev('adv', B, dist)
            if r[0] == 'Ok':
                return E.ret(('Ok', r[1]), fin(eoi))
            while True:
                k = E.peek()
                if k[0] not in READS:
                    raise Bad('%s instead of reading more input' % k[0])
                x = E.ev(k[0], lab('new', 1) if own else lambda v: v[0] == 'k' and v[2][:2] == ('new', 1))
                if x[0] != 'Pending':
                    break
                E.ev('pending')
            if x[0] == 'Err':
                return E.ret(('Err', ('Io', pos, x[1])), fin(eoi))
            n = x[1]
            E.peek()
            if E.peek()[0] == 'adm' or known(E, n) is not False:
                E.ev('adm', B, n)
            E.peek()
            k = known(E, n)
            if k is None:
                raise Bad('whether anything was read is not looked at')
            if not k:
                eoi = True
    return o


def stop_or_more_at(E, z, e, i):
    j, E.i = E.i, i
    try:
        return stop_or_more(E, z, e)
    finally:
        E.i = j


def final(E, F, v, pos, eoi):
    """the decoder afterwards: position of the parse, the same parse state, whether the input ended"""
    get = lambda k: lab(*(v[2] + ('.', F[k]))) if v[0] == 'k' else v[1 + F[k]]
    if unknown(v):
        raise Unknown()
    if get('pos') != pos:
        raise Bad('the decoder is left at another position')
    if get('state') != lab('new', 0, '.', F['state']):
        raise Bad('the parse state is not kept')
    if known(E, get('eoi')) is not eoi:
        raise Bad('whether the input ended is not kept')
    return True


BR = lab('new', 1)


def br_fields(it):
    for t in it.P.types:
        if (t.get('n') or '').endswith('::BufReader<env::Rd>') and t['k'] == 'adt':
            f = [(it.P.types[ty].get('n') or '') for _, ty in t['vs'][0]['f']]
            return lab('new', 1, '.', [j for j, n in enumerate(f) if n.endswith('::Rd')][0]), lab('new', 1, '.', [j for j, n in enumerate(f) if n.endswith('BytesMut')][0])
    raise Unknown()


def wrapa(a, r):
    return ('Ready', r) if a else r


def filled(E, a):
    """bytes are buffered afterwards, unless the input ended: False when that is the result already"""
    E.peek()
    R, B = br_fields(E.it)
    emp = known(E, lab('p_blen', -1, (B,)))
    if emp is None:
        raise Bad('whether anything is buffered is not looked at')
    if emp:
        return True, R, B
    k = E.peek()
    if k[0] not in READS:
        raise Bad('%s instead of reading' % k[0])
    x = E.ev(k[0], R)
    if x[0] == 'Pending':
        return E.ret(('Pending',)), R, B
    if x[0] == 'Err':
        return E.ret(wrapa(a, ('Err', x[1]))), R, B
    E.peek()
    if E.peek()[0] == 'adm' or known(E, x[1]) is not False:
        E.ev('adm', B, x[1])
    return True, R, B


def now(E, B):
    t = -1
    for j in range(E.i):
        if E.tr[j][0] in MOD:
            t = j
    return lab('p_bytes', t, (B,))


def b_fill(a):
    def o(E):
        go, R, B = filled(E, a)
        if go:
            E.ret(wrapa(a, ('Ok', now(E, B))))
    return o


def b_read(a, unit=False):
    def o(E):
        go, R, B = filled(E, a)
        if not go:
            return
        n, ar, _ = E.peek()
        b = now(E, B)
        if n != 'copy':
            raise Bad('%s instead of handing out the bytes' % n)
        k = next((x for x in (content(b), lab('dstlen', None, ())) if ar[0] == pre(b, x)), None)
        if k is None:
            raise Bad('other bytes than the next ones are handed out')
        other = [x for x in (content(b), lab('dstlen', None, ())) if x != k][0]
        if [x for _, x in compare(E.it, E.st.copy(), add(lin(k), lin(other), -1), 'Le')] != [True]:
            raise Bad('another number of bytes than fit is handed out')
        E.ev('copy')
        E.ev('adv', B, k)
        E.ret(wrapa(a, ('Ok', ('',) if unit else k)))
    return o


def b_poll(E):
    """one read appends what was read"""
    R, B = br_fields(E.it)
    k = E.peek()
    if k[0] not in READS:
        raise Bad('%s instead of reading' % k[0])
    x = E.ev(k[0], R)
    if x[0] == 'Pending':
        return E.ret(('Pending',))
    if x[0] == 'Err':
        return E.ret(wrapa(True, ('Err', x[1])))
    E.peek()
    if E.peek()[0] == 'adm' or known(E, x[1]) is not False:
        E.ev('adm', B, x[1])
    E.ret(wrapa(True, ('Ok', x[1])))


def b_consume(E):
    E.peek()
    R, B = br_fields(E.it)
    E.ev('adv', B, lab('num', None, ()))
    E.ret()


def b_fwd(ev):
    def o(E):
        E.peek()
        R, B = br_fields(E.it)
        x = E.ev(ev, R)
        E.ret(x)
    return o


def b_is(f):
    def o(E):
        E.peek()
        R, B = br_fields(E.it)
        E.ret(f(R, B))
    return o


def register(L):
    def S(name, oracle, **kw):
        L[name] = LSpec(oracle, prog='incr', models=M, **kw)
    S('fun::decode', fdecode, objects=Objs(ZF))
    S('fun::decode_tokio', lambda E: fdecode(E, True), objects=Objs(ZF))
    for m in ('sync', 'tokio02', 'tokio03', 'tokio1', 'fut'):
        S(m + '::buffer', loop(True, True), objects=Objs(), cost=20)
        S(m + '::bufferless', loop(True, False), objects=Objs(), cost=20)
        S(m + '::form4', loop(False, True), objects=Objs(), cost=20)
    S('fpoll::bufferless', b_poll, objects=Objs())
    S('br::fill_buf', b_fill(False), objects=Objs())
    S('br::read', b_read(False), objects=Objs())
    S('br::consume', b_consume, objects=Objs())
    S('br::buffer', b_is(lambda R, B: lab('p_bytes', -1, (B,))), objects=Objs())
    S('br::into_inner', b_is(lambda R, B: R), objects=Objs())
    S('br::get_ref', b_is(lambda R, B: R), objects=Objs())
    S('br::get_mut', b_is(lambda R, B: R), objects=Objs())
    for n in ('new', 'with_capacity'):
        S('br::' + n, b_is(lambda R, B: lambda v: v[0] == '' and sorted(v[1:], key=str) == sorted([BR, lab('newbuf', None, ())], key=str)), objects=Objs())
    for m in ('br02', 'br03', 'br1'):
        S(m + '::fill_buf', b_fill(True), objects=Objs())
        S(m + '::consume', b_consume, objects=Objs())
        S(m + '::read', b_read(True, m != 'br02'), objects=Objs())
        S(m + '::write', b_fwd('awrite'), objects=Objs())
        S(m + '::flush', b_fwd('aflush'), objects=Objs())
        S(m + '::shutdown', b_fwd('ashut'), objects=Objs())
