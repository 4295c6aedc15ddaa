"""C19: taking measurements, over the contracts of the tables (specs/maps.py).

meter_map<X>::measure is verified for every kind and tables of any size; all_meters::measure, all_meters::size, Registry::Size and
Registry::Measurements are verified against its contract."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, meters as mt, logging as lg
from .reg import *
from .maps import KINDS, MID, k, PJ
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c17.cc', 'spectator/registry.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = mp.TRUSTED + mp.PASS_TRUSTED + lg.TRUSTED + ['what X::Measure appends for one meter: C04 to C08', 'std::vector<Measurement>: reserve keeps the content, a move moves it', 'std::function calls the function it holds; the callbacks do not change the measurements']
ASSUMPTIONS = ['a meter is not updated between its two checks in one measurement', 'times are between 0 and 2^62 ns', 'the clock is read once per table and pass for the expiry of its meters',
               'the registry has its own size meter (its constructor makes it)']
HARNESS = dict(srcs=[VERIF + '/harness/c19.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random registries of all kinds with values, idle times around the TTL, several intervals, against what each meter of a twin registry reports by itself')


@contract(r'^spectator::detail::meter_map<spectator::(\w+)>::measure\(', H)
def _m(E, st, a, c):
    if not E.opts.get('modular'):
        return NotImplemented
    x = re.search(r'meter_map<spectator::(\w+)>', c.dem).group(1)
    p, r = E.to_ptr(a[0]), E.to_ptr(a[1])
    if not isinstance(p, Ptr) or p.obj != E.opts['reg'].obj or p.off != E.opts['mx'][x]:
        raise Unsupported('unknown table')
    E.oblige(st, bv(a[2], 64) == E.opts['ttl'], 'the measurement uses the TTL given', 'spec')
    st.absv[(r.obj, r.off)] = content(st, r) + (x,)
    return None


def content(st, p):
    v = st.absv.get((p.obj, p.off))
    if v is None:
        raise Unsupported('unknown measurements')
    return v


@contract(r'^std::vector<spectator::Measurement,', H)
def _vec(E, st, a, c):
    if not E.opts.get('modular'):
        return NotImplemented
    s, m = mp.strip(c.dem), mp.method(c.dem)
    p = E.to_ptr(a[0])
    key = (p.obj, p.off)
    if m == 'vector' and len(a) == 1:
        st.absv[key] = ()
    elif m == 'vector' and 'vector&&' in s:
        q = E.to_ptr(a[1])
        st.absv[key] = content(st, q)
        st.absv[(q.obj, q.off)] = ()
    elif m == 'vector' and 'vector const&' in s:
        q = E.to_ptr(a[1])
        st.absv[key] = content(st, q)
    elif m == 'operator=':
        q = E.to_ptr(a[1])
        v = content(st, q)
        if '&&' in s:
            st.absv[(q.obj, q.off)] = ()
        st.absv[key] = v
        return a[0]
    elif m in ('size', 'empty', 'capacity'):
        return fresh('size', 1 if m == 'empty' else 64)
    elif m not in ('reserve', '~vector', 'shrink_to_fit'):
        raise Unsupported(c.dem)
    return None


@contract(r'^spectator::detail::all_meters::measure\(long\) const$', H)
def _am(E, st, a, c):
    if not E.opts.get('registry'):
        return NotImplemented
    p = E.to_ptr(a[1])
    if not isinstance(p, Ptr) or p.obj != E.opts['reg'].obj or p.off != k(E, 'all_meters'):
        raise Unsupported('other meters')
    E.oblige(st, bv(a[2], 64) == E.opts['ttl'], 'the registry measures with its TTL', 'spec')
    q = E.to_ptr(a[0])
    st.absv[(q.obj, q.off)] = ('all',)
    return None


@contract(r'^spectator::DistributionSummary::Record\(double\)$', H)
def _rec(E, st, a, c):
    return None


@contract(r'^std::function<void \(std::vector<spectator::Measurement,.*>::operator\(\)\(', H)
def _cb(E, st, a, c):
    p = E.to_ptr(a[1])
    if content(st, p) != ('all',):
        raise Unsupported('callback with other measurements')
    return None


HANDLERS = H + mp.H + [h for h in mt.H if 'Mutex' not in h[0].pattern] + lg.HANDLERS


def one(x):
    def run(E):
        st = State()
        R = mp.Reg(E, st)
        E.loop_hooks = []
        P = mp.Pass(E, st, x)
        ttl = E.opts['ttl'] = fresh('ttl')
        st.assume(z3.And(ttl >= 0, ttl <= (1 << 62)))
        P.spec(ttl, True)
        P.tok(st, PJ)
        res = E.opts['results'] = E.new_obj(st, 'results', 24, 'arg')
        seen = set()
        for s, r in E.run_fn(st, E.m.find1(r'^spectator::detail::meter_map<spectator::%s>::measure\(' % x), [Ptr(R.obj, k(E, 'map_' + x)), res, ttl]):
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            secs = [(o, n) for kd, o, n in s.g['secs'] if kd == x]
            if len(secs) != 1 or len(s.g['secs']) != 1:
                raise Unsupported('more than one pass')
            n = secs[0][0].n
            X = P.expired(mp.TOK(P.ver, PJ), ttl, s.g['t0'])
            one_, none = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
            E.oblige(s, z3.Implies(z3.ULT(PJ, n), bv(s.g['measJ'], 64) == z3.If(X, none, one_)), 'every meter that has not expired is measured exactly once', 'spec')
            E.oblige(s, z3.BoolVal(not s.g['ttl_set'] and not s.g['made']), 'no meter is changed', 'spec')
            for w, c in (('measured', bv(s.g['measJ'], 64) == 1), ('skipped', z3.And(z3.ULT(PJ, n), bv(s.g['measJ'], 64) == 0))):
                if E.S.sat(s.pc, c):
                    seen.add(w)
        E.loop_hooks = []
        for w in ('measured',) + (('skipped',) if x != 'AgeGauge' else ()):
            cover(E, x + ' ' + w, w in seen)
    return run


def t_all(E):
    st = State()
    R = mp.Reg(E, st)
    E.opts['modular'] = True
    E.opts['mx'] = {x: k(E, 'map_' + x) for x in KINDS}
    ttl = E.opts['ttl'] = fresh('ttl')
    q = E.new_obj(st, 'result', 24, 'arg')
    n = 0
    for s, r in E.run_fn(st, E.m.find1(r'^spectator::detail::all_meters::measure\(long\) const$'), [q, Ptr(R.obj, k(E, 'all_meters')), ttl]):
        n += 1
        E.oblige(s, z3.BoolVal(sorted(content(s, q)) == KINDS), 'every kind is measured exactly once, and nothing else is in the result', 'spec')
    cover(E, 'all kinds', n > 0)


def t_registry(E):
    st = State()
    R = mp.Reg(E, st)
    E.opts['modular'] = E.opts['registry'] = True
    E.opts['ttl'] = bv(E._as_bits(E.mread(st, R.obj, k(E, 'ttl'), 8), 8), 64)
    cnt = fresh('callbacks')
    st.assume(z3.ULT(cnt, 1 << 30))
    buf = E.sym_obj(st, 'callbacks', cnt * 32)
    o = k(E, 'callbacks')
    E.mwrite(st, R.obj, o, 8, buf)
    E.mwrite(st, R.obj, o + 8, 8, buf + cnt * 32)
    E.mwrite(st, R.obj, o + 16, 8, buf + cnt * 32)
    st.assume(mp.getw(E, st, Ptr(R.obj, k(E, 'registry_size_ptr'))) != 0)
    q = E.new_obj(st, 'result', 24, 'arg')
    n = 0
    for s, r in E.run_fn(st, E.m.find1(r'^spectator::Registry::Measurements\(\) const$'), [q, R.ptr]):
        n += 1
        E.oblige(s, z3.BoolVal(content(s, q) == ('all',)), 'the registry returns what all its meters report', 'spec')
    cover(E, 'registry', n > 0)


def t_size(E):
    for what, rx, off in (('all_meters', r'^spectator::detail::all_meters::size\(\) const$', k(E, 'all_meters')), ('Registry', r'^spectator::Registry::Size\(\) const$', 0)):
        if what == 'Registry' and not E.m.find(rx):
            continue
        st = State()
        R = mp.Reg(E, st)
        n = 0
        for s, r in E.run_fn(st, E.m.find1(rx), [Ptr(R.obj, off)]):
            n += 1
            if sorted(kd for kd, o, t in s.g['secs']) != KINDS:
                miss = [x for x in KINDS if x not in [kd for kd, o, t in s.g['secs']]]
                E.oblige(s, z3.BoolVal(not miss), 'the size counts every kind (not %s)' % ', '.join(miss), 'spec')
                raise Unsupported('a table is read twice')
            E.oblige(s, bv(r, 64) == sum(t.n for kd, o, t in s.g['secs']), 'the size is the number of meters of all kinds', 'spec')
        cover(E, what + ' size', n > 0)


def tasks(module):
    return [('%s: measure' % x, one(x)) for x in KINDS] + [('all_meters::measure', t_all), ('Registry::Measurements', t_registry), ('size', t_size)]
