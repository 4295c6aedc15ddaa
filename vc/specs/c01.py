"""C01: percentile buckets partition the non-negative 64-bit integers."""
import z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State

SOURCES = ['spectator/percentile_buckets.cc']
N = 276
MAX = (1 << 63) - 1
TRUSTED = ['std::array::at/operator[] executed as compiled']
ASSUMPTIONS = []


def table(E, st):
    nm = [g for g in E.m.globals_matching(r'kBucketValues')]
    if not nm:
        raise Unsupported('kBucketValues not found')
    o = E.global_obj(st, nm[0])
    cells = st.mem[o].layers[0]
    return [cells[8 * i][1] for i in range(E.m.global_init(nm[0])[0].size // 8)], o


def t_table(E):
    st = State()
    T, o = table(E, st)
    E.oblige(st, len(T) == N, 'there are 276 bucket values', 'spec')
    E.oblige(st, all(sgn(T[i], 64) < sgn(T[i + 1], 64) for i in range(len(T) - 1)) and sgn(T[0], 64) > 0, 'bucket values strictly increase', 'spec')
    E.oblige(st, T[-1] == MAX, 'the last bucket value is the largest 64-bit integer', 'spec')
    E.oblige(st, T[0] == 1, 'bucket 0 ends at 1', 'spec')


def run_idx(E, fname, v, st, post):
    fn = E.m.find1(fname)
    for s, r in E.run_fn(st, fn, [v]):
        post(s, r)
    E.oblige(State(), True, 'every path of %s returns' % fn.dem[:60], 'spec')


def hook(v):
    def h(model):
        x = model.eval(bv(v, 64), model_completion=True).as_long()
        return 'v %d' % sgn(x, 64)
    return h


def cases():
    yield 'nonpos', None
    for k in range(63):
        yield 'bit%d' % k, k


def mkval(st, k):
    if k is None:
        v = fresh('v', 64)
        st.assume(v <= 0)
        return v
    if k == 0:
        return 1
    x = z3.BitVec('x', k)
    return simp(z3.Concat(z3.BitVecVal(1, 64 - k), x))


def post_index(E, s, r, v, k, T):
    """r is the index of v"""
    E.oblige(s, icmp('ult', r, N), 'index below 276', 'spec', hook(v))
    if k is None:
        E.oblige(s, eq(r, 0), 'values at or below zero get index 0', 'spec', hook(v))
        return
    conds = []
    for i, c in members(v, k, T):
        conds.append(b_implies(eq(r, i), c))
        conds.append(b_implies(c, eq(r, i)))
    E.oblige(s, b_and(*conds), 'the index is that of the one bucket containing the value', 'spec', hook(v))


def members(v, k, T):
    """(bucket, condition that v belongs to it) for 2^k <= v < 2^(k+1), from the table of boundaries"""
    lo, hi = 1 << k, (1 << (k + 1)) - 1
    for i in range(N):
        a = T[i - 1] if i else 0
        b = T[i]
        # the values just below a power of four: they lie a full step past the last boundary a' below it
        if i and is_pow4(a) and a >= 16:
            a = T[i - 2] + a // 4 // 3
        if is_pow4(b) and b >= 16 and i < N - 1:
            b = T[i - 1] + b // 4 // 3
        if (b <= lo and i < N - 1) or a > hi:
            continue
        c = icmp('uge', v, a)
        if i < N - 1:
            c = b_and(c, icmp('ult', v, b))
        yield i, c


def is_pow4(x):
    return x & (x - 1) == 0 and x.bit_length() % 2 == 1


def t_index(k):
    def f(E):
        st = State()
        T, _ = table(E, st)
        v = mkval(st, k)
        run_idx(E, r'^spectator::PercentileBucketIndexOf\(long\)$', v, st, lambda s, r: post_index(E, s, r, v, k, T))
    return f


def t_bucket(k):
    def f(E):
        st = State()
        T, o = table(E, st)
        v = mkval(st, k)

        def post(s, r):
            # the upper boundary: the smallest boundary above v
            if k is None:
                E.oblige(s, eq(r, T[0]), 'the bucket value of a non-positive number is the first boundary', 'spec', hook(v))
                return
            conds = [b_implies(c, eq(r, T[i])) for i, c in members(v, k, T)]
            E.oblige(s, b_and(*conds), 'the bucket value is the upper boundary of the bucket of the value', 'spec', hook(v))
        run_idx(E, r'^spectator::PercentileBucket\(long\)$', v, st, post)
    return f


def t_get(E):
    st = State()
    T, o = table(E, st)
    for i in range(N):
        run_idx(E, r'^spectator::GetPercBucketValue\(unsigned long\)$', i, st.copy(),
                lambda s, r: E.oblige(s, eq(r, T[i]), 'bucket value %d' % i, 'spec'))


def tasks(m):
    t = [('table', t_table)]
    for nm, k in cases():
        t.append(('index/' + nm, t_index(k)))
    for nm, k in cases():
        t.append(('bucket/' + nm, t_bucket(k)))
    if m.find(r'^spectator::GetPercBucketValue\(unsigned long\)$'):
        t.append(('value', t_get))
    return t


HARNESS = dict(srcs=[VERIF + '/harness/c01.cc', 'spectator/percentile_buckets.cc'],
               what='all values up to 70000, all boundaries and powers of two +-8, random values, against an independently computed table')
