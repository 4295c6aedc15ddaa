"""C03: a compressed payload inflates to the exact bytes appended.

Ghost state: A(i) the i-th byte ever appended since Init (arbitrary), N their number, C how many of them zlib has
consumed, Z(i) the i-th byte of zlib's output for that stream, FIN whether zlib has finished the stream.
Object invariant between operations (INV): cur_[j] = A(C+j) and C + |cur_| = N; dest_[i] = Z(i) for i < total_out <=
|dest_|; dest_index_ = total_out; not FIN.  deflate_chunk, compress, every Append, Init, Result and the constructor
are verified against contracts over that state; callers use the callee's contract."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract

SOURCES = [VERIF + '/vc/drivers/c03.cc', 'spectator/compressed_buffer.cc']
TRUSTED = ['zlib deflate: consumes k <= avail_in bytes and writes m <= avail_out bytes of its output stream, leaving avail_in = 0 or avail_out = 0; makes progress '
           'when avail_out > 0; with Z_FINISH answers Z_STREAM_END exactly when all input is consumed and all output written, else Z_OK; total_out counts the output',
           'zlib deflateInit2 starts an empty stream with total_out = 0 and succeeds; deflateEnd keeps total_out',
           'the finished output of zlib is one gzip stream that inflates to the bytes it consumed',
           'std::copy(first, last, back_inserter(v)) appends the range to v']
ASSUMPTIONS = ['sizes stay below 2^30 (dest_index_ is an int, zlib counts in 32 bits)', 'chunk_size_output >= 2 (stated by the property)',
               'the loop of compress ends because zlib makes progress in every call (its output is finite)']
HARNESS = dict(srcs=[VERIF + '/harness/c03.cc', 'spectator/compressed_buffer.cc', 'spectator/gzip.cc'], libs=['-lz', '-lfmt'], leaks=True,
               what='random sequences of appends of 0..100000 bytes for chunk sizes 2..40, 1000, defaults, output sizes 0.., re-initialised up to 4 times; result inflated and compared')

LIM = 1 << 30
Bt = z3.BitVecSort(8)
A = z3.Function('A', z3.BitVecSort(64), Bt)
Z = z3.Function('Z', z3.BitVecSort(64), Bt)
H = []


def off(E, n):
    return E.m.global_init('vc_off_' + n)[1][2]


def zo(E):
    t = E.m.global_init('vc_z')[1]
    return [x[2] for x in t[2]]


class Lay:
    def __init__(self, E):
        for n in ('init', 'cur', 'cin', 'dest', 'cout', 'di', 'stream'):
            setattr(self, n, off(E, n))
        s = self.stream
        self.ni, self.ai, self.no, self.ao, self.to, self.ti, self.zsize = zo(E)
        self.size = E.m.global_init('vc_sizeof_cb')[1][2]


def fnbase(f):
    def base(E, st, o, w):
        if w != 1:
            parts = [bv(f(bv(add(o, i), 64)), 8) for i in range(w)]
            return simp(z3.Concat(*parts[::-1]))
        return simp(f(bv(o, 64)))
    return ('fn', base)


def rd(E, st, p, o, w):
    v = E.mread(st, p.obj, add(p.off, o), w)
    return v


def word(E, st, p, o, w):
    return E._as_bits(E.mread(st, p.obj, add(p.off, o), w), w)


def wr(E, st, p, o, w, v):
    E.mwrite(st, p.obj, add(p.off, o), w, v)


def vec(E, st, p, o, what):
    """(object, length) of a vector<uint8_t>: begin at the start of a live allocation, end within it"""
    b, e, c = (E.to_ptr(rd(E, st, p, o + k, 8)) for k in (0, 8, 16))
    if not all(isinstance(x, Ptr) for x in (b, e, c)):
        raise Unsupported('%s: vector with unresolved storage' % what)
    if b.obj is None:
        return None, 0
    E.oblige(st, b.obj == e.obj == c.obj and st.alive.get(b.obj) is True and isc(b.off) and b.off == 0, '%s owns one live allocation' % what, 'inv')
    E.oblige(st, b_and(icmp('ule', e.off, c.off), eq(c.off, st.size[b.obj])), '%s: size within its capacity' % what, 'inv')
    return b.obj, e.off


def newvec(E, st, p, o, name, ln, cap, base):
    q = E.new_obj(st, name, cap, 'heap', base)
    wr(E, st, p, o, 8, q)
    wr(E, st, p, o + 8, 8, Ptr(q.obj, ln))
    wr(E, st, p, o + 16, 8, Ptr(q.obj, cap))
    return q


def start(E, lay, init=True, fin=False, opaque=False, cur=True):
    """an arbitrary state satisfying INV"""
    st = State()
    p = E.sym_obj(st, 'cb', lay.size)
    C, n, to = fresh('C'), fresh('curlen'), fresh('total_out')
    st.g['C'], st.g['N'], st.g['FIN'] = C, add(C, n), fin
    cap, dl, dcap = fresh('curcap'), fresh('destlen'), fresh('destcap')
    for x in (C, n, cap, dl, dcap, to):
        st.assume(z3.ULT(x, LIM))
    st.assume(z3.And(z3.ULE(n, cap), z3.ULE(dl, dcap), z3.ULE(to, dl), cap != 0, dcap != 0))
    cin, cout = fresh('chunk_in'), fresh('chunk_out')
    st.assume(z3.And(z3.ULT(cin, LIM), z3.ULT(cout, LIM), z3.UGE(cout, 2)))
    wr(E, st, p, lay.cin, 8, cin)
    wr(E, st, p, lay.cout, 8, cout)
    wr(E, st, p, lay.init, 1, 1 if init else 0)
    wr(E, st, p, lay.di, 4, trunc(to, 64, 32))
    wr(E, st, p, lay.stream + lay.to, 8, to)
    q = newvec(E, st, p, lay.cur, 'cur', n, cap, fnbase(lambda o: A(C + o)))
    E.curobj = q.obj
    if opaque:
        for k in (0, 8, 16):
            wr(E, st, p, lay.dest + k, 8, fresh('dest.ptr'))
    else:
        d = newvec(E, st, p, lay.dest, 'dest', dl, dcap, fnbase(lambda o: Z(o)))
        E.destobj = d.obj
    E.n0, E.to0, E.C0 = n, to, C
    return st, p


# ------------------------------------------------------------------ zlib
def effect(E, st, s, lay, flush, readable):
    """contract of deflate on stream s; the output buffer is the caller's business -> [(state, err, m)]"""
    ai = zext(word(E, st, s, lay.ai, 4), 32, 64)
    ao = zext(word(E, st, s, lay.ao, 4), 32, 64) if readable else None
    ni = E.to_ptr(rd(E, st, s, lay.ni, 8))
    C, N = st.g['C'], st.g['N']
    if st.g['FIN'] is not False:
        E.oblige(st, b_not(st.g['FIN']), 'nothing is deflated after the end of the stream', 'zlib')
    if not isinstance(ni, Ptr):
        raise Unsupported('next_in')
    if ni.obj is not None:
        E.oblige(st, b_or(eq(ai, 0), b_and(icmp('ule', add(ni.off, ai), st.size[ni.obj]), icmp('ule', ni.off, add(ni.off, ai)))), 'the input given to zlib lies in its buffer', 'bounds')
        i = fresh('i')
        s2 = st.copy()
        s2.assume(z3.ULT(i, bv(ai, 64)))
        if E.S.sat(s2.pc) and E.check_access(s2, Ptr(ni.obj, add(ni.off, i)), 1, 'zlib input'):
            E.oblige(s2, eq(E._as_bits(E.mread(s2, ni.obj, add(ni.off, i), 1), 1), A(bv(C, 64) + i), 8),
                     'zlib is given exactly the appended bytes not yet consumed, in order', 'spec')
    else:
        E.oblige(st, eq(ai, 0), 'the input given to zlib lies in its buffer', 'bounds')
    fin = eq(flush, 4, 32)
    if fin is not False:
        s2 = st.copy()
        s2.assume(fin)
        E.oblige(s2, eq(add(C, ai), N), 'when finishing, zlib is given all remaining appended bytes', 'spec')
    k, m, err = fresh('consumed'), fresh('produced'), fresh('err', 32)
    st.assume(z3.And(z3.ULE(k, bv(ai, 64)), z3.ULT(m, LIM)))
    if ao is not None:
        st.assume(z3.ULE(m, bv(ao, 64)))
        full = eq(m, ao)
    else:
        full = z3.Bool('full!%s' % m)
    alli = eq(k, ai)
    st.assume(z(b_or(alli, full)))
    st.assume(z(b_or(icmp('ne', k, 0), icmp('ne', m, 0), eq(ai, 0))))
    # answers: end of stream, OK, or no progress possible (only when nothing was to be done)
    end = eq(err, 1, 32)
    st.assume(z(b_and(b_implies(end, b_and(fin, alli)), b_implies(b_not(fin), b_or(eq(err, 0, 32), b_and(eq(err, (-5) & M(32), 32), eq(ai, 0)))),
                      b_implies(fin, b_or(end, b_and(eq(err, 0, 32), full))))))
    st.g['C'] = add(C, k)
    st.g['FIN'] = end
    wr(E, st, s, lay.ai, 4, trunc(sub(ai, k), 64, 32))
    wr(E, st, s, lay.ni, 8, Ptr(ni.obj, add(ni.off, k)))
    return err, m


@contract(r'^deflate$', H)
def _deflate(E, st, a, c):
    lay = Lay(E)
    s = E.to_ptr(a[0])
    ao = zext(word(E, st, s, lay.ao, 4), 32, 64)
    to = word(E, st, s, lay.to, 8)
    no = E.to_ptr(rd(E, st, s, lay.no, 8))
    E.oblige(st, icmp('ne', ao, 0), 'zlib is given room for output, so that it makes progress', 'zlib')
    if not isinstance(no, Ptr) or no.obj is None:
        raise Unsupported('next_out')
    E.check_access(st, no, ao, 'zlib output')
    E.oblige(st, eq(no.off, to), 'zlib output is placed right after the output so far', 'spec')
    err, m = effect(E, st, s, lay, a[1], True)
    o = no.off
    zm = Mem((), fnbase(lambda x: Z(x)))
    st.mem[no.obj] = st.mem[no.obj].push(('copy', o, m, zm, to, '!Z'))
    wr(E, st, s, lay.ao, 4, trunc(sub(ao, m), 64, 32))
    wr(E, st, s, lay.no, 8, Ptr(no.obj, add(o, m)))
    to2 = add(to, m)
    wr(E, st, s, lay.to, 8, to2)
    return err


@contract(r'^deflateInit2_?$', H)
def _dinit(E, st, a, c):
    lay = Lay(E)
    s = E.to_ptr(a[0])
    wr(E, st, s, lay.to, 8, 0)
    wr(E, st, s, lay.ti, 8, 0)
    st.g['zopen'] = st.g.get('zopen', 0) + 1
    st.g['C'], st.g['N'], st.g['FIN'] = 0, 0, False
    wb = a[3]
    E.oblige(st, eq(wb, 31, 32), 'the stream is a gzip stream', 'spec')
    E.oblige(st, eq(a[2], 8, 32), 'the method is deflate', 'spec')
    for o in (zo_ptrs(E)):
        E.oblige(st, is_null(E, rd(E, st, s, o, 8)), 'zlib uses its own allocator', 'zlib')
    return 0


def zo_ptrs(E):
    return [64, 72]     # zalloc, zfree on LP64


def is_null(E, v):
    v = E.to_ptr(v)
    if isinstance(v, Ptr):
        return v.obj is None and (eq(v.off, 0))
    return eq(E.to_int(v), 0) if z3.is_expr(v) else False


@contract(r'^deflateEnd$', H)
def _dend(E, st, a, c):
    st.g['ended'] = True
    return 0


@contract(r'^deflateReset$', H)
def _dreset(E, st, a, c):
    raise Unsupported('deflateReset')


@contract(r'std::back_insert_iterator<std::vector<unsigned char, [^(]*> > > std::copy<char const\*, std::back_insert_iterator<', H)
def _copy(E, st, a, c):
    b, e = E.to_ptr(a[0]), E.to_ptr(a[1])
    v = E.to_ptr(a[2])
    if b.obj != e.obj:
        raise Unsupported('copy of a split range')
    n = sub(e.off, b.off)
    o, ln = vec(E, st, v, 0, 'the vector')
    cap = fresh('newcap')
    st.assume(z3.And(z3.ULE(bv(add(ln, n), 64), cap), z3.ULT(cap, LIM), cap != 0))
    q = E.new_obj(st, 'heap', cap, 'heap')
    out = []
    for s in E.memcpy(st, q, Ptr(o, 0), ln):
        for s2 in E.memcpy(s, Ptr(q.obj, ln), b, n):
            s2.alive[o] = False
            wr(E, s2, v, 0, 8, q)
            wr(E, s2, v, 8, 8, Ptr(q.obj, add(ln, n)))
            wr(E, s2, v, 16, 8, Ptr(q.obj, cap))
            out.append((s2, a[2]))
    return out


PUSH = r'^std::vector<unsigned char, [^(]*>::push_back\(unsigned char (const&|&&)\)$'


@contract(PUSH, H)
def _push(E, st, a, c):
    """contract of push_back, proved by the task of that name"""
    if E.opts.get('verify') == 'push_back':
        return NotImplemented
    v, b = E.to_ptr(a[0]), E.to_ptr(a[1])
    x = E._as_bits(E.mread(st, b.obj, b.off, 1), 1)
    o, ln = vec(E, st, v, 0, 'the vector')
    cap = fresh('newcap')
    st.assume(z3.And(z3.ULT(bv(ln, 64), cap), z3.ULT(cap, LIM), cap != 0))
    q = E.new_obj(st, 'heap', cap, 'heap')
    E.memcpy(st, q, Ptr(o, 0), ln)
    E.mwrite(st, q.obj, ln, 1, x)
    st.alive[o] = False
    wr(E, st, v, 0, 8, q)
    wr(E, st, v, 8, 8, Ptr(q.obj, add(ln, 1)))
    wr(E, st, v, 16, 8, Ptr(q.obj, cap))
    return None


def t_push(E):
    E.opts['verify'] = 'push_back'
    st = State()
    n, cap = fresh('len'), fresh('cap')
    st.assume(z3.And(z3.ULE(n, cap), z3.ULT(cap, LIM), cap != 0))
    v = E.new_obj(st, 'vec', 24, 'arg')
    q = newvec(E, st, v, 0, 'cur', n, cap, fnbase(lambda o: A(o)))
    x = E.new_obj(st, 'byte', 1, 'arg')
    val = fresh('b', 8)
    E.mwrite(st, x.obj, 0, 1, val)
    st.assume(A(n) == val)
    k = 0
    for s, r in E.run_fn(st, E.m.find1(PUSH), [v, x]):
        k += 1
        o, ln = vec(E, s, v, 0, 'the vector')
        E.oblige(s, eq(ln, add(n, 1)), 'one element longer', 'spec')
        same_bytes(E, s, o, ln, 0, 'the old elements followed by the new one')
        E.oblige(s, o == q.obj or s.alive.get(q.obj) is False, 'the old storage is released', 'leak')
    cover(E, 'push_back returns with and without growing', k >= 2)


CHUNK = r'^spectator::CompressedBuffer::deflate_chunk\(unsigned long, int\)$'
COMPRESS = r'^spectator::CompressedBuffer::compress\(int\)$'


@contract(CHUNK, H)
def _chunk(E, st, a, c):
    if E.opts.get('verify') == 'chunk':
        return NotImplemented
    lay = Lay(E)
    p = E.to_ptr(a[0])
    s = p + lay.stream
    to = word(E, st, p, lay.stream + lay.to, 8)
    E.oblige(st, icmp('uge', a[1], 2), 'deflate_chunk: chunks of at least two bytes', 'pre')
    E.oblige(st, eq(word(E, st, p, lay.di, 4), trunc(to, 64, 32), 32), 'deflate_chunk: the output index is the output size so far', 'pre')
    err, m = effect(E, st, s, lay, a[2], False)
    to2 = add(to, m)
    st.assume(z3.ULT(bv(to2, 64), LIM))
    for o, w, v in ((lay.stream + lay.to, 8, to2), (lay.di, 4, trunc(to2, 64, 32)), (lay.stream + lay.no, 8, fresh('no')), (lay.stream + lay.ao, 4, fresh('ao', 32)),
                    (lay.dest, 8, fresh('d')), (lay.dest + 8, 8, fresh('d')), (lay.dest + 16, 8, fresh('d'))):
        wr(E, st, p, o, w, v)
    return err


@contract(COMPRESS, H)
def _compress(E, st, a, c):
    """contract of compress: everything in cur_ is consumed; with Z_FINISH the stream is finished"""
    if E.opts.get('verify') in ('chunk', 'compress'):
        return NotImplemented
    lay = Lay(E)
    p = E.to_ptr(a[0])
    o, ln = vec(E, st, p, lay.cur, 'cur_')
    C, N = st.g['C'], st.g['N']
    E.oblige(st, b_not(st.g['FIN']), 'compress: the stream is open', 'pre')
    E.oblige(st, eq(add(C, ln), N), 'compress: cur_ holds everything not yet consumed', 'pre')
    if o is not None:
        same_bytes(E, st, o, ln, C, 'compress: cur_ holds exactly the appended bytes not yet consumed, in order')
    E.oblige(st, eq(word(E, st, p, lay.di, 4), trunc(word(E, st, p, lay.stream + lay.to, 8), 64, 32), 32), 'compress: the output index is the output size so far', 'pre')
    do, dl = vec(E, st, p, lay.dest, 'dest_')
    to = word(E, st, p, lay.stream + lay.to, 8)
    E.oblige(st, icmp('ule', to, dl), 'compress: the output so far fits the output buffer', 'pre')
    out_bytes(E, st, do, to, 'compress: the output buffer holds the output so far')
    st.g['C'] = N
    st.g['FIN'] = eq(a[1], 4, 32)
    m, dl2, cap2 = fresh('produced'), fresh('destlen'), fresh('destcap')
    to2 = add(to, m)
    st.assume(z3.And(z3.ULT(m, LIM), z3.ULE(bv(to2, 64), dl2), z3.ULE(dl2, cap2), z3.ULT(cap2, LIM), cap2 != 0))
    if do is not None:
        st.alive[do] = False
    E.destobj = newvec(E, st, p, lay.dest, 'dest', dl2, cap2, fnbase(lambda x: Z(x))).obj
    for oo, w, v in ((lay.stream + lay.to, 8, to2), (lay.di, 4, trunc(to2, 64, 32)), (lay.stream + lay.no, 8, fresh('no')), (lay.stream + lay.ao, 4, fresh('ao', 32)),
                     (lay.stream + lay.ai, 4, 0), (lay.stream + lay.ni, 8, fresh('ni'))):
        wr(E, st, p, oo, w, v)
    return None


def same_bytes(E, st, o, ln, C, what):
    i = fresh('i')
    s2 = st.copy()
    s2.assume(z3.ULT(i, bv(ln, 64)))
    if E.S.sat(s2.pc):
        E.oblige(s2, eq(E._as_bits(E.mread(s2, o, i, 1), 1), A(bv(C, 64) + i), 8), what, 'spec')


def out_bytes(E, st, o, to, what):
    i = fresh('i')
    s2 = st.copy()
    s2.assume(z3.ULT(i, bv(to, 64)))
    if o is not None and E.S.sat(s2.pc):
        E.oblige(s2, eq(E._as_bits(E.mread(s2, o, i, 1), 1), Z(i), 8), what, 'spec')


def invariant(E, st, p, lay, init, dest=True):
    o, ln = vec(E, st, p, lay.cur, 'cur_')
    C, N = st.g['C'], st.g['N']
    E.oblige(st, eq(add(C, ln), N), 'cur_ holds everything not yet consumed', 'inv')
    if o is not None:
        same_bytes(E, st, o, ln, C, 'cur_ holds exactly the appended bytes not yet consumed, in order')
    to = word(E, st, p, lay.stream + lay.to, 8)
    E.oblige(st, eq(word(E, st, p, lay.di, 4), trunc(to, 64, 32), 32), 'the output index is the output size so far', 'inv')
    E.oblige(st, b_not(st.g['FIN']), 'the stream stays open', 'inv')
    E.oblige(st, eq(word(E, st, p, lay.init, 1), 1 if init else 0, 8), 'the buffer is%s initialised' % ('' if init else ' not'), 'inv')
    if dest:
        do, dl = vec(E, st, p, lay.dest, 'dest_')
        E.oblige(st, icmp('ule', to, dl), 'the output fits the output buffer', 'inv')
        out_bytes(E, st, do, to, 'the output buffer holds exactly the output so far')


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def t_chunk(E):
    E.opts['verify'] = 'chunk'
    lay = Lay(E)
    st, p = start(E, lay)
    chunk, flush, io, ai = fresh('chunk'), fresh('flush', 32), fresh('in.off'), fresh('avail_in')
    st.assume(z3.And(z3.UGE(chunk, 2), z3.ULT(chunk, LIM), z3.ULT(io, LIM), z3.ULT(ai, LIM), z3.ULE(io + ai, E.n0)))
    # the input still to be consumed starts at io: C counts from there
    st.g['C'] = add(E.C0, io)
    wr(E, st, p, lay.stream + lay.ni, 8, Ptr(E.curobj, io))
    wr(E, st, p, lay.stream + lay.ai, 4, trunc(ai, 64, 32))
    st.assume(z(b_implies(eq(flush, 4, 32), eq(add(st.g['C'], ai), st.g['N']))))
    old = E.destobj
    n = 0
    grown = 0
    for s, r in E.run_fn(st, E.m.find1(CHUNK), [p, chunk, flush]):
        n += 1
        to = word(E, s, p, lay.stream + lay.to, 8)
        do, dl = vec(E, s, p, lay.dest, 'dest_')
        E.oblige(s, icmp('ule', to, dl), 'the output fits the output buffer', 'spec')
        out_bytes(E, s, do, to, 'the output buffer holds exactly the output so far')
        E.oblige(s, eq(word(E, s, p, lay.di, 4), trunc(to, 64, 32), 32), 'the output index is the output size so far', 'spec')
        E.oblige(s, do == old or s.alive.get(old) is False, 'the old output buffer is released', 'leak')
        E.oblige(s, b_not(b_xor(s.g['FIN'], eq(r, 1, 32))), "deflate's answer is returned", 'spec')
        frame(E, s, p, lay, st)
        grown += do != old
    cover(E, 'deflate_chunk returns with and without growing', n >= 2 and 0 < grown < n)


def frame(E, s, p, lay, st):
    for o, w in ((lay.cur, 8), (lay.cin, 8), (lay.cout, 8), (lay.init, 1)):
        x, y = rd(E, s, p, o, w), rd(E, st, p, o, w)
        if isinstance(x, Ptr):
            ok = isinstance(y, Ptr) and x.obj == y.obj
        else:
            ok = eq(E._as_bits(x, w), E._as_bits(y, w), 8 * w)
        E.oblige(s, ok, 'field at %d unchanged' % o, 'frame')


def t_compress(E, flush):
    E.opts['verify'] = 'compress'
    lay = Lay(E)
    st, p = start(E, lay, opaque=True)

    def spec(L):
        def ai(s):
            return zext(word(E, s, p, lay.stream + lay.ai, 4), 32, 64)

        def total(s, e):
            return eq(add(s.g['C'], ai(s)), s.g['N'])

        def where(s, e):
            ni = E.to_ptr(rd(E, s, p, lay.stream + lay.ni, 8))
            if not isinstance(ni, Ptr) or ni.obj != E.curobj:
                return True
            return eq(add(ni.off, ai(s)), E.n0)

        def room(s, e):
            return icmp('ule', ai(s), E.n0)

        def di(s, e):
            to = word(E, s, p, lay.stream + lay.to, 8)
            return b_and(eq(word(E, s, p, lay.di, 4), trunc(to, 64, 32), 32), icmp('ult', to, LIM))

        r = [('spec:consumed', total), ('spec:next_in', where), ('spec:avail', room), ('spec:dest_index', di)]
        for pp in L.blk.phis:
            if pp.ty.kind == 'int' and pp.ty.width == 32:
                def err(s, e, pp=pp):
                    v = e[pp.id]
                    f = s.g['FIN']
                    return b_and(b_not(b_xor(f, eq(v, 1, 32))), b_implies(eq(v, 0, 32), True), b_or(eq(v, 0, 32), eq(v, 1, 32)))

                def fin(s, e, pp=pp):
                    return b_implies(eq(e[pp.id], 1, 32), eq(ai(s), 0))
                r += [('spec:err', err), ('spec:end', fin)]
        return r
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
    n = 0
    for s, r in E.run_fn(st, E.m.find1(COMPRESS), [p, flush]):
        n += 1
        E.oblige(s, eq(s.g['C'], s.g['N']), 'everything appended has been consumed by zlib', 'spec')
        E.oblige(s, eq(zext(word(E, s, p, lay.stream + lay.ai, 4), 32, 64), 0), 'no input is left', 'spec')
        if flush == 4:
            E.oblige(s, s.g['FIN'], 'the stream is finished', 'spec')
        else:
            E.oblige(s, b_not(s.g['FIN']), 'the stream is not finished', 'spec')
        to = word(E, s, p, lay.stream + lay.to, 8)
        E.oblige(s, eq(word(E, s, p, lay.di, 4), trunc(to, 64, 32), 32), 'the output index is the output size so far', 'spec')
        frame(E, s, p, lay, st)
    cover(E, 'compress returns', n > 0)


def t_append(E, k):
    lay = Lay(E)
    st, p = start(E, lay)
    N0 = st.g['N']
    if k == 's':
        n = fresh('strlen')
        st.assume(z3.ULT(n, LIM))
        sp = E.new_obj(st, 'str', n, 'arg', fnbase(lambda o: A(bv(N0, 64) + o)))
        args = [p, sp, n]
    else:
        bs = [fresh('b%d' % i, 8) for i in range(k)]
        for i, b in enumerate(bs):
            st.assume(A(bv(N0, 64) + i) == b)
        n = k
        args = [p] + bs
    st.g['N'] = add(N0, n)
    cnt = 0
    comp = 0
    for s, r in E.run_fn(st, E.m.find1('^vc_app_%s$' % k), args):
        cnt += 1
        invariant(E, s, p, lay, True)
        o, ln = vec(E, s, p, lay.cur, 'cur_')
        E.oblige(s, icmp('ule', ln, word(E, s, p, lay.cin, 8)), 'at most one input chunk is held back', 'inv') if False else None
        E.oblige(s, o == E.curobj or s.alive.get(E.curobj) is False, 'the old input buffer is released', 'leak')
        comp += E.S.sat(s.pc, eq(s.g['C'], s.g['N']))
    cover(E, 'Append returns', cnt > 0)
    cover(E, 'Append compresses', comp > 0)


def t_init(E):
    lay = Lay(E)
    for init in (False, True):
        st, p = start(E, lay, init=init, fin=not init)
        n = 0
        for s, r in E.run_fn(st, E.m.find1('^vc_init$'), [p]):
            n += 1
            invariant(E, s, p, lay, True)
            E.oblige(s, eq(s.g['N'], 0) if not isc(s.g['N']) else s.g['N'] == 0, 'the stream starts empty', 'spec')
            E.oblige(s, eq(word(E, s, p, lay.stream + lay.to, 8), 0), 'the output starts empty', 'spec')
            for o in (lay.cin, lay.cout):
                E.oblige(s, eq(word(E, s, p, o, 8), word(E, st, p, o, 8)), 'chunk sizes unchanged', 'frame')
        cover(E, 'Init returns', n > 0)


def t_result(E):
    lay = Lay(E)
    for init in (True, False):
        st, p = start(E, lay, init=init, fin=not init)
        r0 = E.new_obj(st, 'res', 16, 'arg')
        if not init:
            st.g['N'] = st.g['C']
        n = 0
        for s, r in E.run_fn(st, E.m.find1('^vc_result$'), [r0, p]):
            n += 1
            do, dl = vec(E, s, p, lay.dest, 'dest_')
            to = word(E, s, p, lay.stream + lay.to, 8)
            d = E.to_ptr(rd(E, s, r0, 0, 8))
            E.oblige(s, isinstance(d, Ptr) and d.obj == do and isc(d.off) and d.off == 0, 'the result is the output buffer', 'spec')
            E.oblige(s, eq(word(E, s, r0, 8, 8), to), 'the result has the size of the whole output', 'spec')
            E.oblige(s, icmp('ule', to, dl), 'the result lies in the buffer', 'spec')
            out_bytes(E, s, do, to, 'the result is exactly the output of zlib')
            E.oblige(s, s.g['FIN'], 'the stream is finished', 'spec')
            E.oblige(s, eq(s.g['C'], s.g['N']), 'the result covers everything appended', 'spec')
            E.oblige(s, eq(word(E, s, p, lay.init, 1), 0, 8), 'the buffer is closed', 'spec')
            E.oblige(s, bool(s.g.get('ended')) == init, 'zlib state is released exactly once', 'leak')
        cover(E, 'Result returns', n > 0)


def t_new(E):
    lay = Lay(E)
    st = State()
    p = E.new_obj(st, 'cb', lay.size, 'arg')
    a, b, c = fresh('in'), fresh('out'), fresh('chunk')
    for x in (a, b, c):
        st.assume(z3.ULT(x, LIM))
    n = 0
    for s, r in E.run_fn(st, E.m.find1('^vc_new$'), [p, a, b, c]):
        n += 1
        E.oblige(s, eq(word(E, s, p, lay.init, 1), 0, 8), 'a new buffer is not initialised', 'spec')
        E.oblige(s, eq(word(E, s, p, lay.cin, 8), a), 'input chunk size as given', 'spec')
        E.oblige(s, eq(word(E, s, p, lay.cout, 8), c), 'output chunk size as given', 'spec')
        E.oblige(s, eq(word(E, s, p, lay.stream + lay.to, 8), 0), 'no output yet', 'spec')
        vec(E, s, p, lay.dest, 'dest_')
        vec(E, s, p, lay.cur, 'cur_')
    cover(E, 'the constructor returns', n > 0)


HANDLERS = H


def tasks(m):
    return [('push_back', t_push), ('deflate_chunk', t_chunk), ('compress(NO_FLUSH)', lambda E: t_compress(E, 0)), ('compress(FINISH)', lambda E: t_compress(E, 4)),
            ('Append(string)', lambda E: t_append(E, 's'))] + [('Append/%d' % k, lambda E, k=k: t_append(E, k)) for k in range(1, 7)] + \
           [('Init', t_init), ('Result', t_result), ('constructor', t_new)]
