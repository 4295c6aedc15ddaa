"""C17: the registry's Get functions: each works on the table of its kind, under its lock, for any content of the tables and any
interleaving of other threads between two critical sections."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, meters as mt, logging as lg, c11
from .reg import *
from .maps import KINDS, MID, k

SOURCES = [VERIF + '/vc/drivers/c17.cc', 'spectator/registry.cc'] + [s if 'drivers' not in s else s for s in mt.SOURCES]
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = mp.TRUSTED + lg.TRUSTED + ['Id::Of(name, tags): the id of that name and tags (C11)', 'Gauge(id, ttl) and SetTtl set the TTL (C06)']
ASSUMPTIONS = ['the configuration does not change while meters are requested', 'fewer than 2^40 meters',
               'the list of known age gauges in the log message is outside the property']
HARNESS = dict(srcs=[VERIF + '/harness/c17.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random sequences of requests, deletions and expirations over all kinds and colliding ids against a map oracle, age gauge limits 0 to 4, and racing threads')
OF = z3.Function('id.of', BV := z3.BitVecSort(64), BV, BV, BV)


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


@contract(r'^spectator::Id::Of\(', H)
def _of(E, st, a, c):
    if 'basic_string_view' not in c.dem or 'Tags' not in c.dem:
        raise Unsupported(c.dem)
    q = E.to_ptr(a[2])
    v = OF(E.to_int(q) if isinstance(q, Ptr) else bv(q, 64), bv(a[1], 64), bv(c11.tk(st, E.to_ptr(a[3])), 64))
    mt.setid(E, st, E.to_ptr(a[0]), v)
    return None


@contract(r'meter_map<spectator::AgeGauge>::get_ids\(\) const$', H)
def _ids(E, st, a, c):
    return None


@contract(r'^std::vector<spectator::Id,', H)
def _vec(E, st, a, c):
    m = mp.method(c.dem)
    if m == 'size':
        return z3.BitVec('known', 64)
    if m in ('operator[]', '~vector', 'begin', 'end', 'at'):
        if m == 'operator[]':
            return E.new_obj(st, 'known_id', k(E, 'id_size'), 'arg')
        if m == '~vector':
            return None
    raise Unsupported(c.dem)


HANDLERS = H + mp.H + c11.H[:5] + [h for h in mt.H if 'Mutex' not in h[0].pattern] + lg.HANDLERS
FN = {'AgeGauge': 'AgeGauge', 'Counter': 'Counter', 'DistributionSummary': 'DistributionSummary', 'Gauge': 'Gauge', 'MaxGauge': 'MaxGauge', 'MonotonicCounter': 'MonotonicCounter',
      'MonotonicCounterUint': 'MonotonicCounterUint', 'MonotonicSampled': 'MonotonicSampled', 'Timer': 'Timer'}
J = z3.BitVec('any_id', 64)


def getter(x, how):
    def run(E):
        st = State()
        R = mp.Reg(E, st)
        limit = mp.config(E, st, 'limit')
        args, want = [], None
        if how == 'name':
            name, n, tags = E.sym_obj(st, 'name', None), fresh('len'), E.new_obj(st, 'tags', 256, 'arg')
            t = fresh('tags')
            st.absv[(tags.obj, 0)] = t
            want = OF(E.to_int(name), n, t)
            args = [n, name, tags]
            rx = r'^spectator::Registry::Get%s\(std::basic_string_view<char.*>, spectator::Tags\)$' % x
        else:
            i = E.new_obj(st, 'id', k(E, 'id_size'), 'arg')
            want = z3.BitVec('asked', 64)
            st.absv[(i.obj, 0)] = want
            args = [i]
            rx = r'^spectator::Registry::Get%s\(spectator::Id\)$' % x
            if how == 'ttl':
                ttl = (fresh('ttl.hi'), fresh('ttl.lo', 32))
                args += list(ttl)
                rx = r'^spectator::Registry::Get%s\(spectator::Id, absl.*Duration\)$' % x
        q = E.new_obj(st, 'result', 16, 'arg')

        def left(E, s, kd, old, new):
            kept = z3.And(new.has[J], new.at[J] == old.at[J])
            E.oblige(s, z3.Implies(old.has[J], kept), 'asking for a meter removes or replaces none', 'spec')
            added = z3.And(new.has[J], z3.Not(old.has[J]))
            mine = z3.BoolVal(False)
            if kd == x:
                mine = z3.And(J == want, MID(new.at[J]) == want, z3.Or([new.at[J] == t for kk, t, i, l in s.g['made'] if kk == x] + [z3.BoolVal(False)]))
                if kd == 'AgeGauge':
                    mine = z3.And(mine, z3.ULT(old.n, limit))
            E.oblige(s, z3.Implies(added, mine), 'only a new meter of the kind and id asked for is added' + (', and only below the limit' if x == 'AgeGauge' else ''), 'spec')
        E.opts['on_unlock17'] = left
        rs = E.run_fn(st, E.m.find1(rx), [q, R.ptr] + args)
        seen = set()
        for s, _ in rs:
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            r = mp.getw(E, s, q)
            inmap = [z3.And(n.has[want], n.at[want] == r) for kd, o, n in s.g['secs'] if kd == x]
            out = []
            if x == 'AgeGauge':
                out = [z3.And(z3.Not(o.has[want]), z3.UGE(o.n, limit), z3.Or([r == t for kk, t, i, l in s.g['made'] if kk == x] + [z3.BoolVal(False)]), r != 0, MID(r) == want)
                       for kd, o, n in s.g['secs'] if kd == x]
            E.oblige(s, z3.Or(inmap + out + [z3.BoolVal(False)]), 'the meter returned is the one registered under the id' + (', or an unregistered one when the limit is reached' if out else ''), 'spec')
            fr = [kd for kd in s.g['made']]
            if x == 'Gauge':
                if how == 'ttl':
                    hi, lo = bv(args[1], 64), bv(args[2], 32)
                    last = [e for e in s.g['ttl_set']][-1:]
                    ok = [z3.And(bv(e[0], 64) == r, bv(e[1], 64) == hi, bv(e[2], 32) == lo) for e in last]
                    if not last:
                        ok = [z3.And(r == t, bv(l[0], 64) == hi, bv(l[1], 32) == lo) for kk, t, i, l in s.g['made'] if l is not None]
                    E.oblige(s, z3.Or(ok + [z3.BoolVal(False)]), 'the gauge returned has the TTL asked for', 'spec')
                else:
                    d = k(E, 'meter_ttl')
                    hi, lo = (bv(E._as_bits(E.mread(s, R.cfg.obj, d + o, w), w), 8 * w) for o, w in ((0, 8), (8, 4)))
                    ok = [z3.Implies(r == t, z3.And(bv(l[0], 64) == hi, bv(l[1], 32) == lo) if l is not None else z3.BoolVal(False)) for kk, t, i, l in s.g['made'] if kk == 'Gauge']
                    E.oblige(s, z3.And(ok + [z3.BoolVal(not s.g['ttl_set'])]), 'a new gauge has the configured TTL, an existing one keeps its own', 'spec')
            for kd, o, n in s.g['secs']:
                if kd == x:
                    if E.S.sat(s.pc, o.has[want]):
                        seen.add('existing')
                    if E.S.sat(s.pc, z3.And(z3.Not(o.has[want]), n.has[want])):
                        seen.add('new')
                    if E.S.sat(s.pc, z3.And(z3.Not(n.has[want]), z3.UGE(o.n, limit))):
                        seen.add('full')
        for w in ['existing', 'new'] + (['full'] if x == 'AgeGauge' else []):
            cover(E, '%s %s: %s' % (x, how, w), w in seen)
    return run


def ctor(x):
    def run(E):
        n = 0
        args = (fresh('d.hi'), fresh('d.lo', 32)) if x == 'Gauge' else ()
        for s, p in mt.new_meter(E, x, None, args):
            for s2, r in E.run_fn(s, E.m.find1(r'^spectator::Meter::MeterId\(\) const$'), [p]):
                E.oblige(s2, mt.idval(E, s2, r) == mt.ID0, 'a meter keeps the id it is made with', 'spec')
                n += 1
        cover(E, 'constructor of ' + x, n > 0)
    return run


def tasks(module):
    r = []
    for x in KINDS:
        r.append(('Get%s by id' % x, getter(x, 'id')))
        r.append(('Get%s by name' % x, getter(x, 'name')))
        r.append(('new %s' % x, ctor(x)))
    r.append(('GetGauge with TTL', getter('Gauge', 'ttl')))
    return r
