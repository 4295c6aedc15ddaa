"""C25: the cache of percentile meters, over the contracts of its table (specs/maps.py), its lock and its clock.

get_or_create is verified for any content of the cache and any id; expire for caches of any size and any times of use."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, meters as mt, logging as lg
from .reg import *
from .maps import MID, k, PJ, BV, Table, strip, method, it_get, it_put, fact
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c25.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = mp.TRUSTED[:1] + mp.TRUSTED[2:] + mp.PASS_TRUSTED[:1] + ['std::chrono::steady_clock::now: a non-decreasing clock']
ASSUMPTIONS = ['times are between 0 and 2^62 ns', 'fewer than 2^31 cached meters', 'a cached meter is not used more than once between the reading of the clock and the update of its entry (both happen under the lock)']
HARNESS = dict(srcs=[VERIF + '/harness/c25.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random histories of lookups and expiration passes at random times around 120 s (one nanosecond below, at and above) against an oracle, for both kinds of cache; clock under control')
TTL = 120 * 10**9


class Cache(mp.Reg):
    def __init__(self, E, st):
        self.obj = E.sym_obj(st, 'cache', k(E, 'cache_size')).obj
        E.opts['reg'] = self
        self.table = {k(E, 'table'): 'cache'}
        self.mutex = {k(E, 'mutex'): 'cache'}
        self.off = {'cache': k(E, 'table')}
        for g in ('held', 'secs', 'made', 'ttl_set', 'clock', 'freed'):
            st.g[g] = ()
        self.ptr = Ptr(self.obj, 0)


# ---- construction of the cache
@contract(r'^tsl::hopscotch_map<.*::hopscotch_map\(', H)
def _tc(E, st, a, c):
    p = E.to_ptr(a[0])
    R = E.opts['reg']
    if len(a) != 1 or p.obj != R.obj or p.off not in R.table:
        raise Unsupported('table: ' + strip(c.dem))
    return None


@contract(r'^absl(::\w+)?::Mutex::Mutex\(\)$', H)
def _mc(E, st, a, c):
    return None


@contract(r'^(std::unique_ptr<.*> )?(\S+ )?vc_supplier<.*>\(spectator::Registry\*, spectator::Id\)$', H)
def _supplier(E, st, a, c):
    t = fresh('new_meter')
    i = mt.idval(E, st, a[2])
    st.assume(z3.And(t != 0, MID(t) == i))
    R = E.opts['reg']
    if 'cache' in st.g['held']:
        T = R.cur(st, 'cache')
        absent = [z3.Not(T.has[i])]
        j = z3.BitVec('another', 64)
        st.assume(z3.Implies(T.has[i], T.at[i] != t))
    else:
        absent = []
    absent += [z3.Not(n.has[i]) for _, _, n in st.g['secs']]
    E.oblige(st, z3.Or(absent + [z3.BoolVal(False)]), 'a meter is made only if the cache has none', 'spec')
    r = E.to_ptr(a[1])
    E.oblige(st, z3.BoolVal(isinstance(r, Ptr) and r.obj == E.opts['registry'].obj), 'a meter is made in the registry given', 'spec')
    st.g['made'] += (t,)
    E.mwrite(st, E.to_ptr(a[0]).obj, E.to_ptr(a[0]).off, 8, t)
    return None


@contract(r'^std::default_delete<spectator::Percentile(Timer|DistributionSummary)>::operator\(\)\(', H)
def _free(E, st, a, c):
    st.g['freed'] += (bv(a[1] if z3.is_expr(a[1]) else E.to_int(a[1]), 64),)
    return None


@contract(r'^std::chrono::_V2::steady_clock::now\(\)$', H)
def _now(E, st, a, c):
    if E.opts.get('pass') is not None and 't0' in st.g:
        raise Unsupported('the clock is read again during a pass')
    t = fresh('now')
    st.assume(z3.And(t >= 0, t <= (1 << 62)))
    for u in st.g['clock']:
        st.assume(t >= u)
    if E.opts.get('pass') is not None:
        st.g['t0'] = t
        st.assume(t >= mp.UPD(mp.TOK(E.opts['pass'].ver, PJ)))
    else:
        st.g['clock'] += (t,)
    return t


def entry(E, st, key, tok, upd, write):
    n = k(E, 'id_size')
    p = E.new_obj(st, 'entry', n + 16, 'arg')
    st.absv[(p.obj, 0)] = key
    E.mwrite(st, p.obj, n + k(E, 'v'), 8, tok)
    E.mwrite(st, p.obj, n + k(E, 'updated'), 8, upd)

    def w(E, s2, off, width, v):
        if off == n + k(E, 'updated') and width == 8:
            return write(s2, bv(E._as_bits(v, 8), 64))
        raise Unsupported('write to an entry of the cache')
    E.objs[p.obj].onwrite = w
    return p


def used(E, key):
    def write(s, v):
        if 'cache' not in s.g['held']:
            E.fail(s, 'an entry is marked under the lock of the cache', 'lock')
        s.g['upd'] = z3.Store(s.g['upd'], key, v)
        return False
    return write


@contract(r'tsl::hopscotch_map<|tsl::detail_hopscotch_hash::', H)
def _tsl(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    name = s.split('(')[0].split(' ')[-1]
    if not name.startswith('tsl::'):
        return NotImplemented
    if E.opts.get('iterate'):
        return mp._tsl(E, st, a, c)
    R = E.opts['reg']
    if m in ('operator@', 'operator*', 'value', 'key') and 'hopscotch_iterator' in name:
        key, valid, t = it_get(E, st, a[0])
        key = bv(key, 64)
        E.oblige(st, bv(valid, 64) != 0, 'the end of the cache is not an entry', 'bounds')
        if 'cache' not in st.g['held']:
            E.fail(st, 'every access to the cache holds its lock', 'lock')
            return []
        T = R.cur(st, 'cache')
        p = entry(E, st, key, T.at[key], st.g['upd'][key], used(E, key))
        return p + k(E, 'id_size') if m == 'value' else p
    if m == 'at':
        x = mp.table(E, st, a[0])
        if x is None:
            return []
        T, key = R.cur(st, x), mt.idval(E, st, a[1])
        fact(st, T, key)
        E.oblige(st, T.has[key], 'the meter looked up is in the cache', 'abort')
        return entry(E, st, key, T.at[key], st.g['upd'][key], used(E, key)) + k(E, 'id_size')
    if m in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
        x = mp.table(E, st, a[1])
        if x is None:
            return []
        args = s[s.index('('):]
        pair = len(a) == 3
        if pair and m in ('emplace', 'insert'):
            src, q = E.to_ptr(a[2]), E.to_ptr(a[2]) + k(E, 'id_size')
        elif len(a) == 4 and m != 'insert':
            src, q = E.to_ptr(a[2]), E.to_ptr(a[3])
        else:
            raise Unsupported('table: ' + s)
        T, key = R.cur(st, x), mt.idval(E, st, src)
        pv = q + k(E, 'v')
        tok = bv(E._as_bits(E.mread(st, pv.obj, pv.off, 8), 8), 64)
        pu = q + k(E, 'updated')
        upd = bv(E._as_bits(E.mread(st, pu.obj, pu.off, 8), 8), 64)
        fact(st, T, key)
        flag = E.to_ptr(a[0])
        no = st.copy()
        st.assume(T.has[key])
        it_put(E, st, a[0], key, 1, R.off[x])
        E.mwrite(st, flag.obj, add(flag.off, k(E, 'emplaced')), 1, 0)
        if m == 'insert_or_assign':
            mp.put_table(E, st, x, Table(T.has, z3.Store(T.at, key, tok), T.n))
            st.g['upd'] = z3.Store(st.g['upd'], key, upd)
            st.g['freed'] += (T.at[key],)
            E.mwrite(st, pv.obj, pv.off, 8, 0)
        elif m == 'emplace':          # the element is built before it is known that there is one already
            st.g['freed'] += (tok,)
            E.mwrite(st, pv.obj, pv.off, 8, 0)
        no.assume(z3.Not(T.has[key]))
        mp.put_table(E, no, x, Table(z3.Store(T.has, key, z3.BoolVal(True)), z3.Store(T.at, key, tok), T.n + 1))
        no.g['upd'] = z3.Store(no.g['upd'], key, upd)
        it_put(E, no, a[0], key, 1, R.off[x])
        E.mwrite(no, flag.obj, add(flag.off, k(E, 'emplaced')), 1, 1)
        E.mwrite(no, pv.obj, pv.off, 8, 0)
        return [(st, None), (no, None)]
    if m == 'operator[]':
        raise Unsupported('table: ' + s)
    return mp._tsl(E, st, a, c)


class Pass(mp.Pass):
    def expired(self, t, ttl, now):
        return now - mp.UPD(t) > TTL

    def step(self, E, st, a, c):
        m = method(c.dem)
        if m in ('operator@', 'operator*', 'value', 'key'):
            i, v, t = it_get(E, st, a[0])
            i = bv(i, 64)
            self.locked(E, st)
            E.oblige(st, z3.ULT(i, self.n(st)), 'the end of a table is not an entry', 'bounds')
            E.oblige(st, z3.Implies(i == PJ, z3.Not(st.g['erasedJ'])), 'no entry is used after it is erased', 'bounds')
            tok = self.tok(st, i)

            def write(s, v):
                E.fail(s, 'a pass does not mark entries as used', 'spec')
                return False
            p = entry(E, st, MID(tok), tok, mp.UPD(tok), write)
            return p + k(E, 'id_size') if m == 'value' else p
        return mp.Pass.step(self, E, st, a, c)


HANDLERS = H + mp.H + [h for h in mt.H if 'Mutex' not in h[0].pattern] + lg.HANDLERS
J = z3.BitVec('any_id', 64)


def made(E, st, kind):
    R = Cache(E, st)
    r = E.run_fn(st, E.m.find1(r'^vc_new_%s$' % kind), [R.ptr])
    if len(r) != 1:
        raise Unsupported('constructor')
    st = r[0][0]
    st.g['clock'] = ()
    return R, st


def get(kind):
    def run(E):
        st = State()
        R, st = made(E, st, kind)
        E.opts['registry'] = E.sym_obj(st, 'registry', k(E, 'registry_size'))
        want = z3.BitVec('asked', 64)
        i = E.new_obj(st, 'id', k(E, 'id_size'), 'arg')
        st.absv[(i.obj, 0)] = want
        seen = set()

        def on_lock(E, s, kd, T):
            s.g['upd'] = s.g['upd0'] = z3.Array(fresh('upd').decl().name(), BV, BV)
            # nobody else has the meters made here unless they were put in the cache
            for t in s.g['made']:
                s.assume(z3.Implies(z3.And(T.has[want], z3.BoolVal(not any(True for _, o, n in s.g['secs'] if not z3.eq(o.at, n.at)))), T.at[want] != t))

        def on_unlock(E, s, kd, old, new):
            E.oblige(s, z3.Implies(old.has[J], z3.And(new.has[J], new.at[J] == old.at[J])), 'a lookup keeps every cached meter', 'spec')
            E.oblige(s, z3.Implies(z3.And(new.has[J], z3.Not(old.has[J])), z3.And(J == want, z3.Or([new.at[J] == t for t in s.g['made']] + [z3.BoolVal(False)]))), 'a lookup adds nothing but the meter made for the id', 'spec')
            E.oblige(s, z3.Implies(J != want, s.g['upd'][J] == s.g['upd0'][J]), 'a lookup marks no other meter as used', 'spec')
            s.g['last'] = (new, s.g['upd'])
            for w, cnd in (('absent', z3.Not(old.has[want])), ('cached', old.has[want])):
                if E.S.sat(s.pc, cnd):
                    seen.add(w)
        E.opts['on_lock17'], E.opts['on_unlock17'] = on_lock, on_unlock
        st.g['last'] = None
        for s, r in E.run_fn(st, E.m.find1(r'^vc_get_%s$' % kind), [R.ptr, E.opts['registry'], i]):
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            if s.g['last'] is None:
                E.fail(s, 'the meter returned is the cached one', 'spec')
                continue
            T, U = s.g['last']
            r = bv(r if z3.is_expr(r) else E.to_int(r), 64)
            E.oblige(s, z3.And(T.has[want], r == T.at[want]), 'the meter returned is the cached one', 'spec')
            E.oblige(s, z3.Or([U[want] == t for t in s.g['clock']] + [z3.BoolVal(False)]), 'a lookup marks the meter as used now', 'spec')
            E.oblige(s, z3.BoolVal(len(s.g['made']) <= 1), 'at most one meter is made', 'spec')
            E.oblige(s, z3.And([t != r for t in s.g['freed']] + [z3.BoolVal(True)]), 'the meter returned is not freed', 'spec')
        for w in ('absent', 'cached'):
            cover(E, w, w in seen)
    return run


def expire(kind):
    def run(E):
        st = State()
        R, st = made(E, st, kind)
        E.loop_hooks = []
        P = Pass(E, st, 'cache')
        E.opts['erases'] = TTL
        P.spec(TTL, False)
        P.tok(st, PJ)
        o1, o2 = E.new_obj(st, 'size', 8, 'arg'), E.new_obj(st, 'expired', 8, 'arg')
        seen = set()
        for s, r in E.run_fn(st, E.m.find1(r'^vc_expire_%s$' % kind), [R.ptr, o1, o2]):
            E.oblige(s, z3.BoolVal(len(s.g['held']) == 0), 'no lock is left held', 'lock')
            if len(s.g['secs']) != 1 or 't0' not in s.g:
                raise Unsupported('more than one pass')
            n = s.g['secs'][0][1].n
            X = P.expired(mp.TOK(P.ver, PJ), TTL, s.g['t0'])
            E.oblige(s, z3.Implies(z3.ULT(PJ, n), s.g['erasedJ'] == X), 'exactly the meters not used for more than 120 s are dropped', 'spec')
            a, b = [bv(E._as_bits(E.mread(s, o.obj, 0, 8), 8), 64) for o in (o1, o2)]
            E.oblige(s, a == n, 'the number of entries before the pass is returned', 'spec')
            ne = bv(s.g['nerased'], 64)
            E.oblige(s, z3.Or(b == ne, b == z3.ZeroExt(32, z3.Extract(31, 0, ne))), 'the number removed is returned', 'spec')
            for w, c in (('removed', s.g['erasedJ']), ('kept', z3.And(z3.ULT(PJ, n), z3.Not(s.g['erasedJ'])))):
                if E.S.sat(s.pc, c):
                    seen.add(w)
        E.loop_hooks = []
        for w in ('removed', 'kept'):
            cover(E, w, w in seen)
    return run


def tasks(module):
    return [('%s: %s' % (x, n), f(x)) for x in ('timer', 'summary') for n, f in (('get_or_create', get), ('expire', expire))]
