"""The registry's tables of meters: contracts of tsl::hopscotch_map, std::shared_ptr of meters and the tables' locks.

A meter is a token (its address); MID(t) is the id it was made with.  A table is a partial map from ids to tokens and a number
of entries; other threads may change it arbitrarily while its lock is not held, so taking the lock makes its content unknown."""
import re, z3
from collections import namedtuple
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import meters as mt

H = []
BV = z3.BitVecSort(64)
MID = z3.Function('id_of_meter', BV, BV)
GTTL = z3.Function('ttl_of_gauge', BV, BV)
KINDS = ['AgeGauge', 'Counter', 'DistributionSummary', 'Gauge', 'MaxGauge', 'MonotonicCounter', 'MonotonicCounterUint', 'MonotonicSampled', 'Timer']
Table = namedtuple('Table', 'has at n')
TRUSTED = ['tsl::hopscotch_map: emplace keeps an existing entry, find/contains/at/erase/size/clear and iteration are those of a map from ids to pointers (its hash and equality of ids: C11)',
           'std::shared_ptr: copies point to the same object, make_shared makes a new one', 'absl::Mutex provides mutual exclusion', 'Id: copy and move keep the value (C11)']


def k(E, n):
    return E.m.global_init('vc_' + n)[1][2]


def strip(s):
    """a demangled name without template arguments"""
    s = s.replace('operator->', 'operator@').replace('operator<<', 'operator#').replace('operator<', 'operator#')
    o, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            o.append(ch)
    return ''.join(o).replace('[abi:cxx11]', '')


def method(dem):
    """the name of the function alone"""
    s = strip(dem)
    i = s.find('operator()')
    s = s[:i] + 'operator_call' if i >= 0 else s.split('(', 1)[0]
    return s.split('::')[-1].split(' ')[-1].strip()


def kind(dem):
    m = re.search(r'shared_ptr<(?:std::enable_if<!is_array<)?spectator::(\w+)|make_shared<spectator::(\w+)|_ptr(?:_access)?<spectator::(\w+)', dem)
    return next((x for x in m.groups() if x), None) if m else None


def new_table(name):
    has, at, n = z3.Array(fresh('has').decl().name(), BV, z3.BoolSort()), z3.Array(fresh('at').decl().name(), BV, BV), fresh('size')
    return Table(has, at, n)


class Reg:
    """a registry with arbitrary tables"""
    def __init__(self, E, st):
        self.obj = E.sym_obj(st, 'registry', k(E, 'registry_size')).obj
        self.cfg = E.sym_obj(st, 'config', k(E, 'config_size'))
        E.mwrite(st, self.obj, k(E, 'config'), 8, self.cfg)
        E.opts['reg'] = self
        self.table = {k(E, 'table_' + x): x for x in KINDS}
        self.mutex = {k(E, 'mutex_' + x): x for x in KINDS}
        self.off = {x: o for o, x in self.table.items()}
        st.g['held'] = ()
        st.g['secs'] = ()
        st.g['made'] = ()
        st.g['ttl_set'] = ()
        self.ptr = Ptr(self.obj, 0)

    def cur(self, st, x):
        return st.absv[(self.obj, self.off[x])]


def config(E, st, what):
    R = E.opts['reg']
    return bv(E._as_bits(E.mread(st, R.cfg.obj, k(E, what), 8), 8), 64)


def fact(st, T, key):
    st.assume(z3.Implies(T.has[key], z3.And(MID(T.at[key]) == key, T.at[key] != 0)))
    st.assume(z3.Implies(T.has[key], T.n != 0))


def mutex_of(E, st, p):
    p = E.to_ptr(p)
    if isinstance(p, Ptr) and 'held_of' not in E.opts:
        pass
    R = E.opts.get('reg')
    if R is None or not isinstance(p, Ptr) or p.obj != R.obj or p.off not in R.mutex:
        return None
    return R.mutex[p.off]


def lock(E, st, p, shared=False):
    x = mutex_of(E, st, p)
    if x is None:
        raise Unsupported('unknown mutex')
    if x in st.g['held']:
        E.fail(st, 'a mutex is not locked twice by one thread', 'lock')
    st.g['held'] += (x,)
    if shared:
        st.g['shared'] = st.g.get('shared', ()) + (x,)
    R = E.opts['reg']
    T = new_table(x)
    st.assume(z3.ULE(T.n, 1 << 40))
    st.absv[(R.obj, R.off[x])] = T
    st.g['entry ' + x] = T
    if E.opts.get('on_lock17'):
        E.opts['on_lock17'](E, st, x, T)


def unlock(E, st, p):
    x = mutex_of(E, st, p)
    if x is None:
        raise Unsupported('unknown mutex')
    if x not in st.g['held']:
        E.fail(st, 'an unlocked mutex is not unlocked', 'lock')
    st.g['held'] = tuple(y for y in st.g['held'] if y != x)
    st.g['shared'] = tuple(y for y in st.g.get('shared', ()) if y != x)
    R = E.opts['reg']
    old, new = st.g.pop('entry ' + x), R.cur(st, x)
    st.g['secs'] += ((x, old, new),)
    if E.opts.get('on_unlock17'):
        E.opts['on_unlock17'](E, st, x, old, new)


@contract(r'^absl(::\w+)?::(Reader|Writer)?MutexLock::(Reader|Writer)?MutexLock\(', H)
def _lk(E, st, a, c):
    if not E.opts.get('reg'):
        return NotImplemented
    p, m = E.to_ptr(a[0]), E.to_ptr(a[1])
    lock(E, st, m, '::ReaderMutexLock' in c.dem)
    st.absv[(p.obj, p.off)] = m
    return None


@contract(r'^absl(::\w+)?::(Reader|Writer)?MutexLock::~(Reader|Writer)?MutexLock\(', H)
def _ul(E, st, a, c):
    if not E.opts.get('reg'):
        return NotImplemented
    p = E.to_ptr(a[0])
    unlock(E, st, st.absv[(p.obj, p.off)])
    return None


@contract(r'^absl(::\w+)?::Mutex::(Lock|lock|ReaderLock|Unlock|unlock|ReaderUnlock)\(', H)
def _mx(E, st, a, c):
    if not E.opts.get('reg'):
        return NotImplemented
    f = c.dem.split('(')[0].split('::')[-1]
    if 'nlock' in f:
        unlock(E, st, a[0])
    else:
        lock(E, st, a[0], 'Reader' in f)
    return None


# ---- shared_ptr: word 0 is the meter
def getw(E, st, a):
    p = E.to_ptr(a)
    if not isinstance(p, Ptr):
        raise Unsupported('shared_ptr at an unknown place')
    v = E.mread(st, p.obj, p.off, 8)
    return bv(E._as_bits(v, 8), 64)


def putw(E, st, a, v):
    p = E.to_ptr(a)
    E.mwrite(st, p.obj, p.off, 8, v)


# ---- the tables
def table(E, st, a):
    p, R = E.to_ptr(a), E.opts['reg']
    if not isinstance(p, Ptr) or p.obj != R.obj or p.off not in R.table:
        raise Unsupported('unknown table of meters')
    x = R.table[p.off]
    if x not in st.g['held']:
        E.fail(st, 'every access to the table of %ss holds its lock' % x, 'lock')
        return None
    return x


def readonly(E, st, off, w, v):
    raise Unsupported('write to an entry of a table')


def entry(E, st, key, tok):
    """a pair<Id, shared_ptr>"""
    n = k(E, 'id_size')
    p = E.new_obj(st, 'entry', n + 16, 'arg')
    st.absv[(p.obj, 0)] = key
    E.mwrite(st, p.obj, n, 8, tok)
    E.objs[p.obj].onwrite = readonly
    return p


def it_put(E, st, a, key, valid, tab):
    p = E.to_ptr(a)
    E.mwrite(st, p.obj, p.off, 8, key)
    E.mwrite(st, p.obj, add(p.off, 8), 8, valid)
    E.mwrite(st, p.obj, add(p.off, 16), 8, tab)


def it_get(E, st, a):
    p = E.to_ptr(a)
    return [E._as_bits(E.mread(st, p.obj, add(p.off, o), 8), 8) for o in (0, 8, 16)]


def put_table(E, st, x, T):
    if x in st.g.get('shared', ()):
        E.fail(st, 'a table is not changed under a shared lock', 'lock')
    R = E.opts['reg']
    st.absv[(R.obj, R.off[x])] = T


@contract(r'tsl::hopscotch_map<|tsl::detail_hopscotch_hash::', H)
def _tsl(E, st, a, c):
    if not E.opts.get('reg'):
        return NotImplemented
    if E.opts.get('iterate'):
        r = E.opts['iterate'](E, st, a, c)
        if r is not NotImplemented:
            return r
    s, m = strip(c.dem), method(c.dem)
    if s.split('(')[0].split(' ')[-1].startswith('std::'):
        return NotImplemented
    R = E.opts['reg']
    if 'hopscotch_iterator' in s.split('(')[0] or m in ('operator==', 'operator!='):
        if m in ('operator==', 'operator!='):
            (k1, v1, t1), (k2, v2, t2) = it_get(E, st, a[0]), it_get(E, st, a[1])
            e = z3.And(bv(v1, 64) == bv(v2, 64), z3.Or(bv(v1, 64) == 0, bv(k1, 64) == bv(k2, 64)))
            return e if m == 'operator==' else z3.Not(e)
        if m in ('operator@', 'operator*', 'value', 'key'):
            key, valid, t = it_get(E, st, a[0])
            E.oblige(st, bv(valid, 64) != 0, 'the end of a table is not an entry', 'bounds')
            x = R.table[t]
            if x not in st.g['held']:
                E.fail(st, 'every access to the table of %ss holds its lock' % x, 'lock')
                return []
            T = R.cur(st, x)
            p = entry(E, st, bv(key, 64), T.at[bv(key, 64)])
            return p + k(E, 'id_size') if m == 'value' else p
        raise Unsupported('iterator: ' + s)
    sret = m in ('emplace', 'try_emplace', 'find', 'begin', 'end', 'cbegin', 'cend', 'insert', 'insert_or_assign') or (m == 'erase' and 'iterator' in s)
    x = table(E, st, a[1] if sret else a[0])
    if x is None:
        return []
    T = R.cur(st, x)
    if m == 'size':
        return T.n
    if m == 'empty':
        return T.n == 0
    if m in ('contains', 'count'):
        key = mt.idval(E, st, a[1])
        fact(st, T, key)
        return T.has[key] if m == 'contains' else z3.If(T.has[key], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if m == 'at':
        key = mt.idval(E, st, a[1])
        fact(st, T, key)
        E.oblige(st, T.has[key], 'the meter looked up is in the table', 'abort')
        return entry(E, st, key, T.at[key]) + k(E, 'id_size')
    if m == 'operator[]':
        key = mt.idval(E, st, a[1])
        fact(st, T, key)
        put_table(E, st, x, Table(z3.Store(T.has, key, z3.BoolVal(True)), z3.If(T.has[key], T.at, z3.Store(T.at, key, z3.BitVecVal(0, 64))), z3.If(T.has[key], T.n, T.n + 1)))
        n = k(E, 'id_size')
        p = entry(E, st, key, R.cur(st, x).at[key])

        def slot(E, s2, off, w, v):
            if off == n and w == 8:
                U = R.cur(s2, x)
                put_table(E, s2, x, Table(U.has, z3.Store(U.at, key, bv(E._as_bits(v, 8), 64)), U.n))
            elif off != n + 8:
                raise Unsupported('write to an entry of a table')
            return False
        E.objs[p.obj].onwrite = slot
        return p + n
    if m == 'find':
        key = mt.idval(E, st, a[2])
        fact(st, T, key)
        no = st.copy()
        st.assume(T.has[key])
        no.assume(z3.Not(T.has[key]))
        it_put(E, st, a[0], key, 1, R.off[x])
        it_put(E, no, a[0], 0, 0, R.off[x])
        return [(st, None), (no, None)]
    if m in ('end', 'cend'):
        it_put(E, st, a[0], 0, 0, R.off[x])
        return None
    if m in ('emplace', 'try_emplace') and s.count(',') == 1:
        key, w = mt.idval(E, st, a[2]), getw(E, st, a[3])
        fact(st, T, key)
        flag = k(E, 'emplaced')
        q = E.to_ptr(a[0])
        no = st.copy()
        st.assume(T.has[key])
        it_put(E, st, a[0], key, 1, R.off[x])
        E.mwrite(st, q.obj, add(q.off, flag), 1, 0)
        no.assume(z3.Not(T.has[key]))
        put_table(E, no, x, Table(z3.Store(T.has, key, z3.BoolVal(True)), z3.Store(T.at, key, w), T.n + 1))
        it_put(E, no, a[0], key, 1, R.off[x])
        E.mwrite(no, q.obj, add(q.off, flag), 1, 1)
        for z in (st, no):
            if m == 'emplace' or z is no:
                putw(E, z, a[3], 0)
        return [(st, None), (no, None)]
    if m == 'insert_or_assign' and s.count(',') == 1:
        key, w = mt.idval(E, st, a[2]), getw(E, st, a[3])
        fact(st, T, key)
        q = E.to_ptr(a[0])
        it_put(E, st, a[0], key, 1, R.off[x])
        E.mwrite(st, q.obj, add(q.off, k(E, 'emplaced')), 1, z3.If(T.has[key], z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
        put_table(E, st, x, Table(z3.Store(T.has, key, z3.BoolVal(True)), z3.Store(T.at, key, w), z3.If(T.has[key], T.n, T.n + 1)))
        return None
    if m == 'erase' and 'Id const&' in s:
        key = mt.idval(E, st, a[1])
        fact(st, T, key)
        put_table(E, st, x, Table(z3.Store(T.has, key, z3.BoolVal(False)), T.at, z3.If(T.has[key], T.n - 1, T.n)))
        return z3.If(T.has[key], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if m == 'erase':
        key, valid, t = it_get(E, st, a[2])
        key = bv(key, 64)
        E.oblige(st, z3.And(bv(valid, 64) != 0, T.has[key]), 'the entry erased is in the table', 'bounds')
        if t != R.off[x]:
            E.fail(st, 'the entry erased is in the table', 'bounds')
        put_table(E, st, x, Table(z3.Store(T.has, key, z3.BoolVal(False)), T.at, T.n - 1))
        it_put(E, st, a[0], fresh('next'), fresh('nextvalid'), R.off[x])
        return None
    if m == 'clear':
        put_table(E, st, x, Table(z3.K(BV, z3.BoolVal(False)), T.at, z3.BitVecVal(0, 64)))
        return None
    raise Unsupported('table: ' + s)


# ---- shared_ptr of meters
@contract(r'(^|[ :])(std::(__)?shared_ptr(_access)?<|std::(__cxx11::)?make_shared<)', H)
def _shared(E, st, a, c):
    if not E.opts.get('reg') or kind(c.dem) is None or 'hopscotch' in c.dem:
        return NotImplemented
    s, m = strip(c.dem), method(c.dem)
    kd = kind(c.dem)
    if kd not in KINDS:
        return NotImplemented
    if m in ('operator@', 'operator*', 'get', '_M_get'):
        w = getw(E, st, a[0])
        if m != 'get' and m != '_M_get':
            E.oblige(st, w != 0, 'no null meter is used', 'null')
        return w
    if m == 'make_shared':
        if 'spectator::Id&&' in s or 'spectator::Id const&' in s or 'spectator::Id&' in s:
            t = fresh('new_meter')
            i = mt.idval(E, st, a[1])
            st.assume(z3.And(t != 0, MID(t) == i))
            ttl = None
            if kd == 'Gauge' and len(a) > 2:
                q = E.to_ptr(a[2])
                ttl = (E._as_bits(E.mread(st, q.obj, q.off, 8), 8), E._as_bits(E.mread(st, q.obj, add(q.off, 8), 4), 4))
            # nobody else knows a new meter
            for x in (x for x in KINDS if x in st.g['held']):
                T = E.opts['reg'].cur(st, x)
            st.g['made'] += ((kd, t, i, ttl),)
            putw(E, st, a[0], t)
            return None
        raise Unsupported('make_shared ' + s)
    if m == 'shared_ptr' or m == '__shared_ptr':
        if len(a) == 1 or 'nullptr' in s:
            putw(E, st, a[0], 0)
            return None
        if 'shared_ptr const&)' in s or 'shared_ptr&&)' in s:
            v = getw(E, st, a[1])
            if '&&)' in s:
                putw(E, st, a[1], 0)
            putw(E, st, a[0], v)
            return None
        raise Unsupported('shared_ptr from ' + s)
    if m == 'operator=':
        v = getw(E, st, a[1])
        if '&&)' in s:
            putw(E, st, a[1], 0)
        putw(E, st, a[0], v)
        return a[0]
    if m in ('~shared_ptr', '~__shared_ptr'):
        return None
    if m == 'operator bool' or m == 'bool':
        return getw(E, st, a[0]) != 0
    if m in ('operator==', 'operator!=') and 'nullptr' in s:
        w = getw(E, st, a[0]) if 'nullptr)' in s or 'nullptr_t)' in s or 'nullptr))' in s else getw(E, st, a[1])
        return w == 0 if m == 'operator==' else w != 0
    if m in ('operator==', 'operator!='):
        e = getw(E, st, a[0]) == getw(E, st, a[1])
        return e if m == 'operator==' else z3.Not(e)
    if m in ('reset',) and len(a) == 1:
        putw(E, st, a[0], 0)
        return None
    if m == 'swap':
        v, w = getw(E, st, a[0]), getw(E, st, a[1])
        putw(E, st, a[0], w)
        putw(E, st, a[1], v)
        return None
    raise Unsupported('shared_ptr: ' + s)


# ---- meters by token
def is_tok(E, a):
    return not isinstance(E.to_ptr(a), Ptr)


@contract(r'^spectator::(Meter|\w+)::MeterId\(\) const$', H)
def _mid(E, st, a, c):
    if not E.opts.get('reg') or not is_tok(E, a[0]):
        return NotImplemented
    p = E.new_obj(st, 'id', k(E, 'id_size'), 'arg')
    st.absv[(p.obj, 0)] = MID(E.to_int(a[0]) if not z3.is_expr(a[0]) else a[0])
    E.objs[p.obj].onwrite = readonly
    return p


@contract(r'^spectator::Gauge::SetTtl\(absl', H)
def _setttl(E, st, a, c):
    if not E.opts.get('reg') or not is_tok(E, a[0]):
        return NotImplemented
    st.g['ttl_set'] += ((a[0], a[1], a[2]),)
    return None


# ---- passes over a table: entry i of the table as it was when its lock was taken is TOK(version, i)
TOK = z3.Function('entry', BV, BV, BV)
INV = z3.Function('entry.index', BV, BV, BV)
UPD = z3.Function('last_updated', BV, BV)
PJ = z3.BitVec('any_entry', 64)
PASS_TRUSTED = ['tsl::hopscotch_map iteration visits every entry exactly once; erase(iterator) removes that entry and gives the next one, leaving the others in place',
                'Gauge::HasExpired: more than its own TTL since its last update (C06)', 'meters of different entries are different objects']


class Pass:
    """one function going over one table of kind x; the ghosts say what happened to an arbitrary entry PJ"""
    def __init__(self, E, st, x):
        self.E, self.x = E, x
        self.ver = fresh('version')
        E.opts['iterate'] = self.step
        E.opts['pass'] = self
        st.g['erasedJ'] = z3.BoolVal(False)
        st.g['measJ'] = z3.BitVecVal(0, 64)
        st.g['nerased'] = z3.BitVecVal(0, 64)
        self.now = None

    def tok(self, st, i):
        t = TOK(self.ver, i)
        st.assume(z3.And(INV(self.ver, t) == i, t != 0, UPD(t) >= 0, UPD(t) <= (1 << 62), GTTL(t) >= 0, GTTL(t) <= (1 << 62)))
        return t

    def n(self, st):
        return self.R(st).n

    def R(self, st):
        return self.E.opts['reg'].cur(st, self.x)

    def expired(self, t, ttl, now):
        if self.x == 'AgeGauge':
            return z3.BoolVal(False)
        return now - UPD(t) > (GTTL(t) if self.x == 'Gauge' else ttl)

    def step(self, E, st, a, c):
        s, m = strip(c.dem), method(c.dem)
        if m in ('operator==', 'operator!='):
            (i, _, t), (j, _, u) = it_get(E, st, a[0]), it_get(E, st, a[1])
            e = bv(i, 64) == bv(j, 64)
            return e if m == 'operator==' else z3.Not(e)
        if m in ('hopscotch_iterator',):
            if len(a) == 2:
                i, v, t = it_get(E, st, a[1])
                it_put(E, st, a[0], i, v, t)
                return None
            raise Unsupported('iterator: ' + s)
        if m == 'operator=':
            i, v, t = it_get(E, st, a[1])
            it_put(E, st, a[0], i, v, t)
            return a[0]
        if m in ('operator@', 'operator*', 'value', 'key'):
            i, v, t = it_get(E, st, a[0])
            i = bv(i, 64)
            self.locked(E, st)
            E.oblige(st, z3.ULT(i, self.n(st)), 'the end of a table is not an entry', 'bounds')
            if E.opts.get('erases') is not None:
                E.oblige(st, z3.Implies(i == PJ, z3.Not(st.g['erasedJ'])), 'no entry is used after it is erased', 'bounds')
            tok = self.tok(st, i)
            p = entry(E, st, MID(tok), tok)
            return p + k(E, 'id_size') if m == 'value' else p
        if m == 'operator++':
            if '(int)' in s:
                i, v, t = it_get(E, st, a[1])
                it_put(E, st, a[0], i, v, t)
                p = a[1]
            else:
                i, v, t = it_get(E, st, a[0])
                p = a[0]
            self.locked(E, st)
            i = bv(i, 64)
            E.oblige(st, z3.ULT(i, self.n(st)), 'no step beyond the end of a table', 'bounds')
            it_put(E, st, p, i + 1, v, t)
            return p if '(int)' not in s else None
        if m in ('begin', 'cbegin', 'end', 'cend'):
            x = table(E, st, a[1])
            if x is None:
                return []
            if x != self.x:
                raise Unsupported('another table')
            it_put(E, st, a[0], 0 if 'begin' in m else self.n(st), 1, E.opts['reg'].off[x])
            return None
        if m in ('size', 'empty'):
            return NotImplemented
        if m == 'erase' and 'iterator' in s:
            x = table(E, st, a[1])
            if x is None:
                return []
            i, v, t = it_get(E, st, a[2])
            i = bv(i, 64)
            tok = self.tok(st, i)
            E.oblige(st, z3.ULT(i, self.n(st)), 'the entry erased is in the table', 'bounds')
            self.tok(st, PJ)
            ttl = E.opts['erases']
            E.oblige(st, self.expired(tok, ttl, st.g['t0']), 'only meters idle for longer than their TTL are removed', 'spec')
            hit = i == PJ
            E.oblige(st, z3.Implies(hit, z3.Not(st.g['erasedJ'])), 'an entry is removed once', 'spec')
            st.g['erasedJ'] = z3.Or(st.g['erasedJ'], hit)
            st.g['nerased'] = bv(st.g['nerased'], 64) + 1
            it_put(E, st, a[0], i + 1, v, t)
            return None
        raise Unsupported('table in a pass: ' + s)

    def locked(self, E, st):
        if self.x not in st.g['held']:
            E.fail(st, 'every access to the table of %ss holds its lock' % self.x, 'lock')

    def spec(self, ttl, measured):
        def cands(L):
            r = []
            hs = L.hvars()
            idx = [h for h in hs if h.w == 64]
            E = self.E
            for h in idx:
                if h.kind == 'ghost':
                    continue
                def g(s, e, h=h):
                    v = h.get(E, s, e)
                    v = E._as_bits(v, 8) if not isinstance(v, int) else v
                    return bv(v, 64)
                def one(s, e, g=g):
                    try:
                        i = g(s, e)
                    except Exception:
                        return None
                    X = self.expired(TOK(self.ver, PJ), ttl, s.g['t0'])
                    if measured:
                        mj = bv(s.g['measJ'], 64)
                        return z3.And(z3.Implies(z3.ULT(PJ, i), mj == z3.If(X, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))), z3.Implies(z3.UGE(PJ, i), mj == 0))
                    return z3.And(z3.Implies(z3.ULT(PJ, i), s.g['erasedJ'] == X), z3.Implies(z3.UGE(PJ, i), z3.Not(s.g['erasedJ'])))
                def bound(s, e, g=g):
                    try:
                        return z3.ULE(g(s, e), self.n(s))
                    except Exception:
                        return None
                r.append(('spec: what happened to the entries up to %s' % h, one))
                r.append(('spec: %s is a place in the table' % h, bound))
                for h2 in hs:
                    if h2.w in (32, 64) and h2 is not h and h2.kind != 'ghost':
                        def tot(s, e, g=g, h2=h2):
                            try:
                                v = h2.get(E, s, e)
                                return z3.Extract(h2.w - 1, 0, g(s, e)) == bv(E._as_bits(v, h2.w // 8), h2.w)
                            except Exception:
                                return None
                        r.append(('spec: %s counts the entries examined' % h2, tot))
            for h2 in hs:
                if h2.w in (32, 64) and h2.kind != 'ghost':
                    def cnt(s, e, h2=h2):
                        try:
                            v = h2.get(E, s, e)
                            return z3.Extract(h2.w - 1, 0, bv(s.g['nerased'], 64)) == bv(E._as_bits(v, h2.w // 8), h2.w)
                        except Exception:
                            return None
                    r.append(('spec: %s counts the entries removed' % h2, cnt))
            return r
        self.E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [cands]))


@contract(r'^absl(::\w+)?::GetCurrentTimeNanos\(\)$', H)
def _clock(E, st, a, c):
    r = mt._now(E, st, a, c)
    if E.opts.get('pass') is not None:
        if 't0' not in st.g:
            st.g['t0'] = r
        elif not ('Gauge' in E.opts['pass'].x and any('::measure(' in x for x in E.stack)):   # Gauge::Measure reads it itself
            raise Unsupported('the clock is read again during the pass')
    return r


@contract(r'^spectator::Meter::Updated\(\) const$', H)
def _updated(E, st, a, c):
    if E.opts.get('pass') is None or not is_tok(E, a[0]):
        return NotImplemented
    return UPD(E.to_ptr(a[0]))


@contract(r'^spectator::Gauge::HasExpired\(long\) const$', H)
def _hasexp(E, st, a, c):
    if E.opts.get('pass') is None or not is_tok(E, a[0]):
        return NotImplemented
    if 't0' not in st.g or not z3.is_expr(a[1]) or not z3.eq(a[1], st.g['t0']):
        raise Unsupported('another time than that of the pass')
    t = E.to_ptr(a[0])
    return bv(a[1], 64) - UPD(t) > GTTL(t)


@contract(r'^spectator::(\w+)::Measure\(std::vector<spectator::Measurement,.*\) const$', H)
def _measure(E, st, a, c):
    P = E.opts.get('pass')
    if P is None or not is_tok(E, a[0]):
        return NotImplemented
    t = E.to_ptr(a[0])
    i = INV(P.ver, t)
    st.assume(z3.BoolVal(True))
    P.tok(st, PJ)
    r = E.to_ptr(a[1])
    if not isinstance(r, Ptr) or r.obj != E.opts['results'].obj:
        raise Unsupported('other results')
    P.locked(E, st)
    E.oblige(st, z3.Not(P.expired(t, E.opts['ttl'], st.g['t0'])), 'no expired meter is measured', 'spec')
    st.g['measJ'] = z3.If(i == PJ, bv(st.g['measJ'], 64) + 1, bv(st.g['measJ'], 64))
    return None
