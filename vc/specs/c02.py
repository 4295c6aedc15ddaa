"""C02: everything written into a Smile payload decodes to what was given."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State

SOURCES = [VERIF + '/vc/drivers/c02.cc', 'spectator/smile.cc']
TRUSTED = ['CompressedBuffer::Init/Append/Result: contract proved by check C03 (bytes are appended in order)']
ASSUMPTIONS = ['strings are ASCII, integers are below 2^31 (preconditions stated by the property)']
HARNESS = dict(srcs=[VERIF + '/harness/c02.cc', 'spectator/smile.cc', 'spectator/compressed_buffer.cc', 'spectator/gzip.cc'], libs=['-lz', '-lfmt'],
               what='payloads of integers at all length boundaries, doubles, strings of length 0..200 and longer; inflated and decoded by an independent Smile decoder')


def h_append(E, st, a, c):
    out = st.g.get('out', ())
    if 'basic_string_view' in c.dem:
        n, p = a[1], a[2]
        if isc(n) and n <= 32:
            s = st
            bs = []
            for i in range(n):
                r = E.load(s, E.to_ptr(p) + i, U8)
                if len(r) != 1:
                    raise Unsupported('append of several strings')
                s, b = r[0]
                bs.append(b)
            st.g['out'] = out + tuple(bs)
        else:
            st.g['out'] = out + (('str', p, n),)
        return None
    st.g['out'] = out + tuple(a[1:])
    return None


class U8:
    kind, width, size = 'int', 8, 1


def h_init(E, st, a, c):
    st.g['out'] = ()
    return None


def h_result(E, st, a, c):
    st.g['out'] = st.g.get('out', ()) + ('end',)
    return (E.new_obj(st, 'result', fresh('n'), 'heap'), fresh('size'))


HANDLERS = [(re.compile(r'^spectator::CompressedBuffer::Append\(.*\)$'), h_append),
            (re.compile(r'^spectator::CompressedBuffer::Init\(\)$'), h_init),
            (re.compile(r'^spectator::CompressedBuffer::Result\(\)$'), h_result)]


def payload(E, st):
    return E.sym_obj(st, 'payload', None)


def go(E, name, args_of, post):
    st = State()
    p = payload(E, st)
    st.g['out'] = ()
    args = args_of(E, st, p)
    fn = E.m.find1(name)
    n = 0
    for s, r in E.run_fn(st, fn, args):
        n += 1
        post(s, s.g['out'])
    E.covers = getattr(E, 'covers', []) + [('%s returns' % name, n > 0)]


def is_int(out, n):
    """the bytes are exactly one Smile integer token decoding to n (64-bit word, below 2^31)"""
    if any(not (isc(b) or z3.is_bv(b)) for b in out):
        return False
    bs = [bv(b, 8) for b in out]
    if len(bs) == 1:
        zz = z3.ZeroExt(56, bs[0] & 0x1f)
        return z3.And(bs[0] >= z3.BitVecVal(0xC0, 8), bs[0] & 0xE0 == 0xC0, unzig(zz) == bv(n, 64))
    if not 2 <= len(bs) <= 6:
        return False
    c = [bs[0] == 0x24]
    v = z3.BitVecVal(0, 64)
    for b in bs[1:-1]:
        c.append(b & 0x80 == 0)
        v = (v << 7) | z3.ZeroExt(56, b)
    c.append(bs[-1] & 0xC0 == 0x80)
    v = (v << 6) | z3.ZeroExt(56, bs[-1] & 0x3f)
    c.append(z3.ULT(v, 1 << 32))
    c.append(unzig(v) == bv(n, 64))
    return z3.And(*c)


def unzig(v):
    return z3.LShR(v, 1) ^ (-(v & 1))


def t_int(width, name):
    def f(E):
        n = fresh('n', width)
        N = zext(n, width, 64)

        def args(E, st, p):
            st.assume(z3.ULT(bv(N, 64), 1 << 31))
            return [p, n]

        def post(s, out):
            E.oblige(s, is_int(out, N), 'one integer token that decodes to the value (%d bytes)' % len(out), 'spec',
                     lambda m: 'int %d' % m.eval(bv(N, 64), model_completion=True).as_long())
        go(E, name, args, post)
    return f


def t_double(E):
    d = fresh('d', 64)

    def post(s, out):
        ok = len(out) == 11 and all(isc(b) or z3.is_bv(b) for b in out)
        if ok:
            bs = [bv(b, 8) for b in out]
            v = z3.BitVecVal(0, 70)
            c = [bs[0] == 0x29]
            for b in bs[1:]:
                c.append(b & 0x80 == 0)
                v = (v << 7) | z3.ZeroExt(62, b)
            c.append(v == z3.ZeroExt(6, d))
            ok = z3.And(*c)
        E.oblige(s, ok, 'one double token that decodes to the value bit for bit', 'spec',
                 lambda m: 'dbl %d' % m.eval(d, model_completion=True).as_long())
    go(E, r'^spectator::SmilePayload::Append\(double\)$', lambda E, st, p: [p, d], post)


def t_string(E):
    n = fresh('len', 64)
    q = []

    def args(E, st, p):
        s = E.sym_obj(st, 'str', n, 1)
        st.assume(z3.ULT(n, 1 << 40))
        q.append(s)
        return [p, n, s]

    def isstr(x):
        return isinstance(x, tuple) and isinstance(x[1], Ptr) and x[1].obj == q[0].obj and isc(x[1].off) and x[1].off == 0

    def post(s, out):
        hook = lambda m: 'str %d' % min(1 << 20, m.eval(n, model_completion=True).as_long())
        k = [x for x in out if isinstance(x, tuple)]
        nums = [x for x in out if not isinstance(x, tuple)]
        if any(not (isc(b) or z3.is_bv(b)) for b in nums):
            ok = False
        elif len(out) == 1 and not k:
            ok = z3.And(n == 0, bv(out[0], 8) == 0x20)
        elif len(out) == 2 and isstr(out[1]):
            t = z3.ZeroExt(56, bv(out[0], 8))
            ok = z3.And(bv(out[1][2], 64) == n, z3.UGE(n, 1), z3.ULE(n, 64), t == n + 0x3f)
        elif len(out) == 3 and isstr(out[1]):
            ok = z3.And(bv(out[1][2], 64) == n, bv(out[0], 8) == 0xE0, bv(out[2], 8) == 0xFC)
        elif len(out) >= 2 and not k:
            # short strings appended byte by byte: token then the characters
            ok = z3.And(n == len(out) - 1, z3.ULE(n, 64), z3.ZeroExt(56, bv(out[0], 8)) == n + 0x3f,
                        *[bv(out[1 + i], 8) == bv(E.mread(s, q[0].obj, i, 1), 8) for i in range(len(out) - 1)])
        else:
            ok = False
        E.oblige(s, ok, 'one string token holding exactly the characters (%d parts)' % len(out), 'spec', hook)
    go(E, r'^spectator::SmilePayload::Append\(std::basic_string_view', args, post)


def t_init(E):
    def post(s, out):
        E.oblige(s, list(out) == [0x3a, 0x29, 0x0a, 0x00, 0xF8], 'the payload starts with the header and a start-array token', 'spec')
    go(E, r'^vc_init$', lambda E, st, p: [p], post)


def t_result(E):
    def post(s, out):
        E.oblige(s, list(out) == [0xF9, 'end'], 'the payload ends with one end-array token', 'spec')
    go(E, r'^vc_result$', lambda E, st, p: [E.sym_obj(st, 'res', 16), p], post)


def tasks(m):
    return [('Append(size_t)', t_int(64, r'^spectator::SmilePayload::Append\(unsigned long\)$')),
            ('Append(int)', t_int(32, r'^spectator::SmilePayload::Append\(int\)$')),
            ('Append(double)', t_double), ('Append(string)', t_string), ('Init', t_init), ('Result', t_result)]
