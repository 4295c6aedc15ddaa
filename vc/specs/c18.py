"""C18: expiration passes and deletions, over the contracts of the tables (specs/maps.py).

meter_map<X>::remove_expired is verified for every kind, for tables of any size and any times of update; the passes over all kinds
(all_meters::remove_expired, Registry::remove_expired_meters) are verified against its contract."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, meters as mt, logging as lg
from .reg import *
from .maps import KINDS, MID, k, PJ
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c17.cc', 'spectator/registry.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = mp.TRUSTED + mp.PASS_TRUSTED + lg.TRUSTED + ['std::string == literal compares the text']
ASSUMPTIONS = ['a meter is not updated during the pass that examines it (its last update is read once per pass)', 'times are between 0 and 2^62 ns', 'fewer than 2^31 meters',
               'the clock is read once per table and pass']
HARNESS = dict(srcs=[VERIF + '/harness/c18.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random registries of all kinds, idle for random times around the TTL (one nanosecond below, at and above), expired and deleted, against an oracle; clock under control')
EXPN = z3.Function('removed', z3.BitVecSort(64), z3.BitVecSort(32))
NUMS = {x: (z3.BitVec('expired of ' + x, 32), z3.BitVec('examined of ' + x, 32)) for x in KINDS}


@contract(r'^spectator::detail::meter_map<spectator::(\w+)>::remove_expired\(long\)$', H)
def _re(E, st, a, c):
    if not E.opts.get('modular'):
        return NotImplemented
    x = re.search(r'meter_map<spectator::(\w+)>', c.dem).group(1)
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['reg'].obj or p.off != E.opts['mx'][x]:
        raise Unsupported('unknown table')
    E.oblige(st, bv(a[1], 64) == E.opts['ttl'], 'the pass uses the TTL given', 'spec')
    E.oblige(st, z3.BoolVal(x not in st.g['passed']), 'each kind is examined once', 'spec')
    st.g['passed'] += (x,)
    e, t = NUMS[x]
    st.assume(z3.And(e >= 0, e <= t, t < (1 << 26)))
    if x == 'AgeGauge':
        st.assume(e == 0)
    return z3.Concat(t, e)


@contract(r'^spectator::detail::meter_map<spectator::(\w+)>::size\(\) const$', H)
def _size(E, st, a, c):
    if not E.opts.get('modular'):
        return NotImplemented
    x = re.search(r'meter_map<spectator::(\w+)>', c.dem).group(1)
    e, t = NUMS[x]
    st.assume(z3.And(e >= 0, e <= t, t < (1 << 26)))
    if x != 'AgeGauge':
        raise Unsupported('size of another table than that of the age gauges')
    if x in st.g['passed']:
        raise Unsupported('age gauges counted twice?')
    st.g['passed'] += (x,)
    return z3.ZeroExt(32, t)


# ---- the type of a deletion
@contract(r'^(bool )?std::operator==.*\(std::(__cxx11::)?basic_string<.*const&, char const\*\)$', H)
def _eq(E, st, a, c):
    p, lit = E.to_ptr(a[0]), E.cstring(st, a[1])
    if E.opts.get('type') is None or not isinstance(p, Ptr) or p.obj != E.opts['type'].obj or lit is None:
        raise Unsupported('comparison of strings')
    return E.opts['is'](lit)


@contract(r'^std::(__cxx11::)?basic_string<.*>::compare\(char const\*\) const$', H)
def _cmp(E, st, a, c):
    p, lit = E.to_ptr(a[0]), E.cstring(st, a[1])
    if E.opts.get('type') is None or not isinstance(p, Ptr) or p.obj != E.opts['type'].obj or lit is None:
        raise Unsupported('comparison of strings')
    r = fresh('order', 32)
    st.assume((r == 0) == E.opts['is'](lit))
    return r


HANDLERS = H + mp.H + [h for h in mt.H if 'Mutex' not in h[0].pattern] + lg.HANDLERS
J = z3.BitVec('any_id', 64)


def one(x):
    def run(E):
        st = State()
        R = mp.Reg(E, st)
        E.loop_hooks = []
        P = mp.Pass(E, st, x)
        ttl = fresh('ttl')
        st.assume(z3.And(ttl >= 0, ttl <= (1 << 62)))
        E.opts['erases'] = ttl
        P.spec(ttl, False)
        P.tok(st, PJ)
        fn = E.m.find1(r'^spectator::detail::meter_map<spectator::%s>::remove_expired\(long\)$' % x)
        seen = set()
        for s, r in E.run_fn(st, fn, [Ptr(R.obj, k(E, 'map_' + x)), ttl]):
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            secs = [(o, n) for kd, o, n in s.g['secs'] if kd == x]
            if len(secs) != 1 or len(s.g['secs']) != 1:
                raise Unsupported('more than one pass')
            n = secs[0][0].n
            X = P.expired(mp.TOK(P.ver, PJ), ttl, s.g['t0'])
            E.oblige(s, z3.Implies(z3.ULT(PJ, n), s.g['erasedJ'] == X), 'exactly the meters idle for longer than their TTL are removed', 'spec')
            r = bv(r, 64)
            E.oblige(s, z3.Extract(31, 0, r) == z3.Extract(31, 0, bv(s.g['nerased'], 64)), 'the number removed is reported', 'spec')
            E.oblige(s, z3.Extract(63, 32, r) == z3.Extract(31, 0, n), 'the number examined is reported', 'spec')
            E.oblige(s, z3.BoolVal(not s.g['ttl_set'] and not s.g['made']), 'no meter is changed', 'spec')
            for w, c in (('removed', s.g['erasedJ']), ('kept', z3.And(z3.ULT(PJ, n), z3.Not(s.g['erasedJ'])))):
                if E.S.sat(s.pc, c):
                    seen.add(w)
        E.loop_hooks = []
        for w in ('removed', 'kept'):
            cover(E, x + ' ' + w, w in seen)
    return run


def modular(E, st):
    E.opts['modular'] = True
    E.opts['mx'] = {x: k(E, 'map_' + x) for x in KINDS}
    st.g['passed'] = ()


def t_all(E):
    st = State()
    R = mp.Reg(E, st)
    modular(E, st)
    ttl = E.opts['ttl'] = fresh('ttl')
    n = 0
    for s, r in E.run_fn(st, E.m.find1(r'^spectator::detail::all_meters::remove_expired\(long\)$'), [Ptr(R.obj, k(E, 'all_meters')), ttl]):
        n += 1
        miss = [x for x in KINDS if x not in s.g['passed']]
        E.oblige(s, z3.BoolVal(not miss), 'the pass examines every kind', 'spec')
        r = bv(r, 64)
        E.oblige(s, z3.Extract(31, 0, r) == sum(NUMS[x][0] for x in KINDS if x != 'AgeGauge'), 'the number removed is the sum over the kinds', 'spec')
        E.oblige(s, z3.Extract(63, 32, r) == sum(NUMS[x][1] for x in KINDS), 'the number examined is the sum over the kinds, age gauges included', 'spec')
    cover(E, 'all kinds', n > 0)


def t_registry(E):
    st = State()
    R = mp.Reg(E, st)
    modular(E, st)
    E.opts['ttl'] = bv(E._as_bits(E.mread(st, R.obj, k(E, 'ttl'), 8), 8), 64)
    n = 0
    for s, r in E.run_fn(st, E.m.find1(r'^spectator::Registry::remove_expired_meters\(\)$'), [R.ptr]):
        n += 1
        E.oblige(s, z3.BoolVal(all(x in s.g['passed'] for x in KINDS)), 'the pass of the registry examines every kind with its TTL', 'spec')
    cover(E, 'registry', n > 0)


def deletion(all_):
    def run(E):
        st = State()
        R = mp.Reg(E, st)
        T = E.opts['type'] = E.sym_obj(st, 'type', 32)
        b = {}

        def is_(lit):
            if lit not in b:
                b[lit] = z3.Bool('type is %r' % lit)
            return b[lit]
        A, G = is_(b'A'), is_(b'g')
        st.assume(z3.Not(z3.And(A, G)))
        E.opts['is'] = is_
        i = E.new_obj(st, 'id', k(E, 'id_size'), 'arg')
        want = z3.BitVec('asked', 64)
        st.absv[(i.obj, 0)] = want

        def left(E, s, kd, old, new):
            out = {'AgeGauge': A, 'Gauge': G}.get(kd, z3.BoolVal(False))
            if not all_:
                out = z3.And(out, J == want)
            E.oblige(s, z3.Implies(z3.And(old.has[J], z3.Not(out)), z3.And(new.has[J], new.at[J] == old.at[J])), 'a deletion removes nothing else', 'spec')
            E.oblige(s, z3.Implies(new.has[J], old.has[J]), 'a deletion adds nothing', 'spec')
        E.opts['on_unlock17'] = left
        args = [R.ptr, T] + ([] if all_ else [i])
        seen = set()
        rx = r'^spectator::Registry::DeleteAllMeters\(' if all_ else r'^spectator::Registry::DeleteMeter\('
        for s, r in E.run_fn(st, E.m.find1(rx), args):
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            for kd, c in (('AgeGauge', A), ('Gauge', G)):
                secs = [z3.And(z3.Not(n.has[J if all_ else want]), n.n == 0 if all_ else z3.BoolVal(True)) for q, o, n in s.g['secs'] if q == kd]
                E.oblige(s, z3.Implies(c, z3.Or(secs + [z3.BoolVal(False)])), 'the %s%s asked for %s removed' % (kd, 's' if all_ else '', 'are' if all_ else 'is'), 'spec')
                if E.S.sat(s.pc, c):
                    seen.add(kd)
            if not all_:
                r_ = r if isinstance(r, bool) or z3.is_bool(r) else bv(r, 1) == 1
                was = [o.has[want] for q, o, n in s.g['secs']]
                E.oblige(s, z3.Implies(z3.And(z(r_), z3.Or(A, G)), z3.Or(was + [z3.BoolVal(False)])), 'a deletion is reported only if there was something to delete', 'spec')
                E.oblige(s, z3.Implies(z3.And(z3.Not(z(r_)), z3.Or(A, G)), z3.Or([z3.Not(w) for w in was] + [z3.BoolVal(False)])), 'a deletion that removes a meter is reported', 'spec')
        for kd in ('AgeGauge', 'Gauge'):
            cover(E, 'deletion of ' + kd, kd in seen)
    return run


def tasks(module):
    r = [('%s: remove_expired' % x, one(x)) for x in KINDS if x != 'AgeGauge' or module.find(r'^spectator::detail::meter_map<spectator::AgeGauge>::remove_expired\(long\)$')]
    return r + [('all_meters::remove_expired', t_all), ('Registry::remove_expired_meters', t_registry), ('DeleteMeter', deletion(False)), ('DeleteAllMeters', deletion(True))]
