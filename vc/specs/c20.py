"""C20: percentile timers and percentile distribution summaries, over the contracts of the registry (C17), the bucket index (C01), ids
(C11) and the base meters (C05); the table of bucket tags is read off the code that fills it."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, meters as mt, logging as lg
from .reg import *
from .maps import k
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c20.cc']
IRFLAGS = ['-fno-access-control']
H = []
BV = z3.BitVecSort(64)
INDEX = z3.Function('bucket_index', BV, BV)
TAG = z3.Function('bucket_tag', z3.BitVecSort(8), BV, BV)
METER = {x: z3.Function('registered.' + x, BV, BV) for x in mp.KINDS}
PERC = mt.strtok('percentile')
TRUSTED = ['Registry::GetTimer/GetDistributionSummary/GetCounter give the meter of that kind and id (C17)', 'PercentileBucketIndexOf: contract proved by C01', 'Id::WithTags (C11)', 'intern_str: a reference that depends only on the text (C10)',
           'Timer::Record, DistributionSummary::Record, Counter::Increment: contracts proved by C05, C04; they ignore negative amounts', 'absl::Duration: whole seconds and quarter nanoseconds, ordered lexicographically; ToInt64Nanoseconds, FromChrono',
           'std::string(const char*) holds that text']
ASSUMPTIONS = ['the base meter has not been deleted or expired since the percentile meter was made (it holds a reference to it); the server drops percentile meters idle for 120 s (C25), so this needs a meter TTL below about 150 s',
               'the minimum of the range is not above its maximum', 'the amount of a distribution summary as a double is its conversion (IEEE)']
HARNESS = dict(srcs=[VERIF + '/harness/c20.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random and boundary amounts (negative, zero, around the range and the bucket limits, the largest) into percentile meters with random ranges; the whole registry is compared')


@contract(r'^spectator::Registry::Get(\w+)\(spectator::Id\)$', H)
def _get(E, st, a, c):
    x = re.match(r'^spectator::Registry::Get(\w+)\(', c.dem).group(1)
    if x not in METER:
        raise Unsupported(c.dem)
    p = E.to_ptr(a[1])
    if not isinstance(p, Ptr) or p.obj != E.opts['reg'].obj:
        raise Unsupported('another registry')
    i = mt.idval(E, st, a[2])
    t = METER[x](i)
    st.assume(t != 0)
    st.g['got'] += ((x, t, i),)
    mp.putw(E, st, a[0], t)
    return None


def token(E, st, a):
    p = E.to_ptr(a)
    if isinstance(p, Ptr):
        raise Unsupported('a meter that is not from the registry')
    return p


@contract(r'^spectator::Timer::Record\(absl', H)
def _trec(E, st, a, c):
    st.g['base'] += (('Timer', token(E, st, a[0]), (a[1], a[2])),)
    return None


@contract(r'^spectator::DistributionSummary::Record\(double\)$', H)
def _drec(E, st, a, c):
    st.g['base'] += (('DistributionSummary', token(E, st, a[0]), a[1]),)
    return None


@contract(r'^spectator::Counter::(Increment\(\)|Add\(double\))$', H)
def _cinc(E, st, a, c):
    if 'Add' in c.dem and not (isc(a[1]) and a[1] == d2b(1.0)):
        raise Unsupported('amount added to a bucket')
    st.g['buckets'] += (token(E, st, a[0]),)
    return None


@contract(r'^spectator::PercentileBucketIndexOf\(long\)$', H)
def _ix(E, st, a, c):
    r = INDEX(bv(a[0], 64))
    st.assume(z3.ULT(r, 276))
    return r


@contract(r'^spectator::intern_str\((std::.*basic_string<.*const&|char const\*)\)$', H)
def _intern(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or 'tables' not in E.opts or p.obj not in E.opts['tables']:
        raise Unsupported('interned text')
    n = k(E, 'str_size')
    off = bv(p.off, 64)
    i = fresh('index')
    E.oblige(st, z3.And(z3.URem(off, n) == 0, z3.ULT(off, 276 * n)), 'the tag is one of the table', 'bounds')
    st.assume(z3.And(off == i * n, z3.ULT(i, 276)))
    return TAG(z3.BitVecVal(ord(E.opts['tables'][p.obj]), 8), i)


@contract(r'^absl(::\w+)?::FromChrono\(std::chrono::duration<long, std::ratio<1l, 1000000000l>', H)
def _fromchrono(E, st, a, c):
    hi, lo = fresh('dur.hi'), fresh('dur.lo', 32)
    x = a[0]
    if isinstance(x, Ptr):
        x = E._as_bits(E.mread(st, x.obj, x.off, 8), 8)
    x = bv(x, 64)
    st.assume(z3.And(mt.NS(hi, lo) == x, (hi < 0) == (x < 0), z3.ULT(lo, 4000000000)))
    E.opts['chrono'] = (x, hi, lo)
    return (hi, lo)


@contract(r'^std::(__cxx11::)?basic_string<.*>::basic_string<.*>\(char const\*, std::allocator<char> const&\)$|^std::(__cxx11::)?basic_string<.*>::basic_string\(char const\*, std::allocator<char> const&\)$', H)
def _str(E, st, a, c):
    p, s = E.to_ptr(a[0]), E.cstring(st, a[1])
    if not isinstance(p, Ptr) or s is None:
        raise Unsupported('text')
    st.absv[(p.obj, p.off)] = s
    return None


@contract(r'^std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)$|^__cxa_atexit$', H)
def _alloc(E, st, a, c):
    return 0 if c.dem.startswith('__cxa') else None


HANDLERS = H + mp.H + [h for h in mt.H if 'Mutex' not in h[0].pattern] + lg.HANDLERS


class R0:
    pass


def setup(E):
    st = State()
    E.opts['reg'] = r = R0()
    r.obj = E.sym_obj(st, 'registry', k(E, 'registry_size')).obj
    for n in ('got', 'base', 'buckets'):
        st.g[n] = ()
    st.g['held'] = st.g['made'] = st.g['ttl_set'] = ()
    E.opts['tables'] = {}
    for n, ch in (('kTimerTags', 'T'), ('kDistTags', 'D')):
        g = E.m.globals_matching(r'(^|::)%s(\[abi:cxx11\])?$' % n)
        if g:
            E.opts['tables'][E.global_obj(st, g[0])] = ch
    return st


def made(E, st, which, cls, lohi):
    p = E.new_obj(st, cls, k(E, which + '_size'), 'arg')
    i = E.new_obj(st, 'id', k(E, 'id_size'), 'arg')
    mt.setid(E, st, i, mt.ID0)
    rs = E.run_fn(st, E.m.find1('^vc_%s_new$' % which), [p, Ptr(E.opts['reg'].obj, 0), i] + lohi)
    E.objs[p.obj].onwrite = keeps  # what Record does may depend on what the constructor left there, and on nothing else
    return [(s, p) for s, _ in rs]


def keeps(E, st, off, w, v):
    raise Unsupported('the percentile meter keeps something between two amounts')


def dur_obj(E, st, d):
    p = E.new_obj(st, 'duration', 16, 'arg')
    E.mwrite(st, p.obj, 0, 8, d[0])
    E.mwrite(st, p.obj, 8, 4, d[1])
    E.mwrite(st, p.obj, 12, 4, 0)
    return p


def dlt(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.ULT(a[1], b[1])))


def bucket(E, s, ch, idx, what, neg):
    want = METER['Counter'](mt.WT(mt.WT(mt.ID0, mt.STAT, PERC), PERC, TAG(z3.BitVecVal(ord(ch), 8), idx)))
    b = s.g['buckets']
    if len(b) > 1:
        E.oblige(s, z3.BoolVal(False), 'at most one bucket is counted', 'spec')
        return
    if b:
        E.oblige(s, z3.Not(neg), 'a negative amount counts in no bucket', 'spec')
        E.oblige(s, b[0] == want, 'the bucket counted is that of the amount within the range', 'spec')
    else:
        E.oblige(s, neg, 'an amount that is not negative counts in a bucket', 'spec')


def timer(chrono):
    def run(E):
        st = setup(E)
        lo, hi = (fresh('min.hi'), fresh('min.lo', 32)), (fresh('max.hi'), fresh('max.lo', 32))
        for d in (lo, hi):
            st.assume(z3.ULT(d[1], 4000000000))
        st.assume(z3.Not(dlt(hi, lo)))
        seen = set()
        for s, p in made(E, st, 'pt', 'PercentileTimer', [dur_obj(E, st, lo), dur_obj(E, st, hi)]):
            E.oblige(s, z3.BoolVal(not s.g['base'] and not s.g['buckets']), 'making a percentile meter records nothing', 'spec')
            if chrono:
                x = fresh('amount')
                args = [x]
            else:
                am = (fresh('amount.hi'), fresh('amount.lo', 32))
                s.assume(z3.ULT(am[1], 4000000000))
                args = list(am)
            for s2, _ in E.run_fn(s, E.m.find1('^vc_pt_record%s$' % ('_chrono' if chrono else '')), [p] + args):
                if chrono:
                    if 'chrono' in E.opts:
                        x_, h_, l_ = E.opts['chrono']
                        am = (h_, l_)
                    neg = x < 0
                else:
                    neg = am[0] < 0
                base = s2.g['base']
                if len(base) > 1:
                    E.oblige(s2, z3.BoolVal(False), 'the base timer records the amount once', 'spec')
                    continue
                if base:
                    ok = z3.And(base[0][1] == METER['Timer'](mt.ID0), bv(base[0][2][0], 64) == am[0], bv(base[0][2][1], 32) == am[1])
                    E.oblige(s2, ok, 'the base timer of the same id records the amount as it is', 'spec')
                else:
                    E.oblige(s2, neg, 'the base timer records every amount that is not negative', 'spec')
                cl = [z3.If(dlt(hi, am), h, z3.If(dlt(am, lo), l, v)) for h, l, v in zip(hi, lo, am)]
                bucket(E, s2, 'T', INDEX(mt.NS(*cl)), 'T', neg)
                for w, c in (('recorded', z3.Not(neg)), ('negative', neg), ('above', z3.And(dlt(hi, am), z3.Not(neg))), ('below', z3.And(dlt(am, lo), z3.Not(neg)))):
                    if E.S.sat(s2.pc, c):
                        seen.add(w)
        for w in ('recorded', 'negative', 'above', 'below'):
            cover(E, 'timer ' + w, w in seen)
    return run


def t_dist(E):
    st = setup(E)
    lo, hi, am = fresh('min'), fresh('max'), fresh('amount')
    st.assume(lo <= hi)
    seen = set()
    for s, p in made(E, st, 'pd', 'PercentileDistributionSummary', [lo, hi]):
        E.oblige(s, z3.BoolVal(not s.g['base'] and not s.g['buckets']), 'making a percentile meter records nothing', 'spec')
        for s2, _ in E.run_fn(s, E.m.find1('^vc_pd_record$'), [p, am]):
            neg = am < 0
            base = s2.g['base']
            if len(base) > 1:
                E.oblige(s2, z3.BoolVal(False), 'the base summary records the amount once', 'spec')
                continue
            if base:
                v = base[0][2]
                want = sitofp(am)
                same = z3.BoolVal(True) if z3.is_expr(v) and z3.eq(simp(bv(v, 64)), simp(bv(want, 64))) else bv(v, 64) == bv(want, 64)
                E.oblige(s2, z3.And(base[0][1] == METER['DistributionSummary'](mt.ID0), same), 'the base summary of the same id records the amount as it is', 'spec')
            else:
                E.oblige(s2, neg, 'the base summary records every amount that is not negative', 'spec')
            bucket(E, s2, 'D', INDEX(z3.If(am > hi, hi, z3.If(am < lo, lo, am))), 'D', neg)
            for w, c in (('recorded', z3.Not(neg)), ('negative', neg), ('above', z3.And(am > hi, z3.Not(neg))), ('below', z3.And(am < lo, z3.Not(neg)))):
                if E.S.sat(s2.pc, c):
                    seen.add(w)
    for w in ('recorded', 'negative', 'above', 'below'):
        cover(E, 'summary ' + w, w in seen)


def t_tables(E):
    """runs the initialisation of the two tables"""
    st = setup(E)
    fns = E.m.find(r'^__cxx_global_var_init')
    n = k(E, 'str_size')
    done = {}
    for fn in fns:
        s = st.copy()
        try:
            rs = E.run_fn(s, fn, [])
        except Unsupported:
            continue
        for s2, _ in rs:
            for o, ch in E.opts['tables'].items():
                t = [s2.absv.get((o, i * n)) for i in range(276)]
                if t[0] is not None:
                    done[ch] = t
    for o, ch in E.opts['tables'].items():
        if ch not in done:
            raise Unsupported('initialisation of the table of tags not found')
        E.oblige(st, all(done[ch][i] == b'%c%04X' % (ord(ch), i) for i in range(276)), 'tag i of the table of %s is that of bucket i' % ch, 'spec')
    cover(E, 'tables', len(done) == 2)


def tasks(module):
    return [('PercentileTimer::Record(Duration)', timer(False)), ('PercentileTimer::Record(nanoseconds)', timer(True)), ('PercentileDistributionSummary::Record', t_dist), ('tables', t_tables)]
