"""Shared by C04-C08: contracts of the meters' environment (ids, clock, measurements), the interference model of the
atomics, and the construction of arbitrary reachable meter states."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, FnPtr, Undef, Unsupported, fresh, State, Mem
from ..lib import contract

H = []
BV = z3.BitVecSort(64)
WT = z3.Function('id.with_tag', BV, BV, BV, BV)        # id, key, value
HAS = z3.Function('id.has_tag', BV, BV, z3.BoolSort())
NS = z3.Function('duration.ns', BV, z3.BitVecSort(32), BV)
SOURCES = [VERIF + '/vc/drivers/meters.cc', 'spectator/counter.cc', 'spectator/timer.cc', 'spectator/dist_summary.cc', 'spectator/gauge.cc',
           'spectator/max_gauge.cc', 'spectator/monotonic_counter.cc', 'spectator/monotonic_counter_uint.cc', 'spectator/monotonic_sampled.cc']
TRUSTED = ['Id (copy, move, WithTag, WithStat, WithDefaultStat): contract proved by C11', 'refs() returns the interned strings of its names (C10)',
           'std::vector<Measurement>::emplace_back/push_back append one element', 'absl::GetCurrentTimeNanos: a non-negative, non-decreasing clock',
           'absl::FromChrono(nanoseconds) is the duration of that many nanoseconds', 'absl::Duration: ToInt64Nanoseconds / IDivDuration by 1ns agree (the number of whole nanoseconds, saturating)',
           'absl::Mutex provides mutual exclusion', 'IEEE-754 double arithmetic (z3 floating point theory)']
ASSUMPTIONS = ['one measuring thread (the publisher); any number of recording threads',
               'atomic operations are sequentially consistent per field: between any two accesses of this thread any other thread may have written '
               '(interference model); relaxed reordering between different fields is not modelled',
               '64-bit counters and nanosecond arithmetic do not overflow', 'sums of doubles are exact up to IEEE rounding']


def strtok(n):
    return z3.BitVec('str!' + n, 64)


STAT = strtok('statistic')


def with_stat(i, s):
    return WT(i, STAT, s)


def with_default_stat(i, s):
    return z3.If(HAS(i, STAT), i, WT(i, STAT, s))


def idval(E, st, p):
    r = E.deref(st, p, 'id')
    if len(r) != 1:
        raise Unsupported('ambiguous id')
    s, q = r[0]
    v = st.absv.get((q.obj, q.off))
    if v is None:
        raise Unsupported('unknown id object %s' % (q,))
    return v


def setid(E, st, p, v):
    st.absv[(p.obj, p.off)] = v
    # an Id owns its storage; only its abstract value matters here
    size = st.size.get(p.obj)


def tok(E, v):
    v = E.to_int(v) if isinstance(v, (Ptr, FnPtr)) else v
    return bv(v, 64)


@contract(r'^spectator::refs\(\)$', H)
def _refs(E, st, a, c):
    if '@@refs' not in st.mem:
        st.mem['@@refs'] = Mem((), ('undef',))
        st.size['@@refs'] = 72
        st.alive['@@refs'] = True
        from ..engine import Obj
        E.objs['@@refs'] = Obj('@@refs', 'refs', 'global')
    return Ptr('@@refs', 0)


@contract(r'^spectator::Refs::(\w+)\(\) const$', H)
def _ref(E, st, a, c):
    n = re.match(r'^spectator::Refs::(\w+)', c.dem).group(1)
    return strtok(n)


@contract(r'^spectator::Id::Id\(spectator::Id( const)?&&?\)$', H)
def _idcopy(E, st, a, c):
    v = idval(E, st, a[1])
    setid(E, st, E.to_ptr(a[0]), v)
    return None


@contract(r'^spectator::Id::~Id\(\)$', H)
def _iddtor(E, st, a, c):
    p = E.to_ptr(a[0])
    if isinstance(p, Ptr):
        st.absv.pop((p.obj, p.off), None)
    return None


def sret(E, st, a, v):
    setid(E, st, E.to_ptr(a[0]), v)


@contract(r'^spectator::Id::WithDefaultStat\(spectator::StrRef\) const$', H)
def _wds(E, st, a, c):
    sret(E, st, a, with_default_stat(idval(E, st, a[1]), tok(E, a[2])))
    return None


@contract(r'^spectator::Id::WithStat\(spectator::StrRef\) const$', H)
def _ws(E, st, a, c):
    sret(E, st, a, with_stat(idval(E, st, a[1]), tok(E, a[2])))
    return None


@contract(r'^spectator::Id::WithTag\(spectator::StrRef, spectator::StrRef\) const$', H)
def _wt(E, st, a, c):
    sret(E, st, a, WT(idval(E, st, a[1]), tok(E, a[2]), tok(E, a[3])))
    return None


@contract(r'^spectator::Id::WithTags\(spectator::StrRef, spectator::StrRef, spectator::StrRef, spectator::StrRef\) const$', H)
def _wtt(E, st, a, c):
    sret(E, st, a, WT(WT(idval(E, st, a[1]), tok(E, a[2]), tok(E, a[3])), tok(E, a[4]), tok(E, a[5])))
    return None


@contract(r'^absl(::\w+)?::GetCurrentTimeNanos\(\)$', H)
def _now(E, st, a, c):
    t = fresh('now', 64)
    st.assume(z3.And(t >= 0, t <= (1 << 62)))
    prev = st.g.get('now')
    if prev is not None:
        st.assume(t >= prev)
    st.g['now'] = t
    return t


@contract(r'^absl(::\w+)?::ToInt64Nanoseconds\(', H)
def _ns(E, st, a, c):
    if isinstance(a[0], tuple):
        hi, lo = a[0][0], a[0][1]
    else:
        hi, lo = a[0], a[1]
    return nanos(hi, lo)


def nanos(hi, lo):
    if isc(hi) and isc(lo) and abs(sgn(hi, 64)) < (1 << 32):
        return (sgn(hi, 64) * 10 ** 9 + lo // 4) & M(64)
    return NS(bv(hi, 64), bv(lo, 32))


@contract(r'^absl(::\w+)?::FromChrono\(std::chrono::duration<long, std::ratio<1l, 1000000000l>', H)
def _fromchrono(E, st, a, c):
    hi, lo = fresh('dur.hi'), fresh('dur.lo', 32)
    x = a[0]
    if isinstance(x, Ptr):
        x = E._as_bits(E.mread(st, x.obj, x.off, 8), 8)
    st.assume(NS(hi, lo) == bv(x, 64))
    st.assume(z3.ULT(lo, 4000000000))
    return (hi, lo)


@contract(r'^absl(::\w+)?::time_internal::IDivDuration\(', H)
def _idiv(E, st, a, c):
    sat, hi, lo, dhi, dlo = a[0], a[1], a[2], a[3], a[4]
    if not (isc(dhi) and isc(dlo) and dhi == 0 and dlo == 4):
        raise Unsupported('division of durations by %s,%s' % (dhi, dlo))
    rem = E.to_ptr(a[5])
    E.mwrite(st, rem.obj, rem.off, 8, fresh('rem'))
    E.mwrite(st, rem.obj, add(rem.off, 8), 4, fresh('rem', 32))
    return nanos(hi, lo)


@contract(r'^[^(]*std::vector<spectator::Measurement,[^(]*>::(emplace_back|push_back)\b', H)
def _emplace(E, st, a, c):
    m = re.search(r'emplace_back<spectator::Id( const)?&, (double|int|long|unsigned long|float)( const)?&?&?>', c.dem)
    if m:
        iv = idval(E, st, a[1])
        ty = m.group(2)
        p = E.to_ptr(a[2])
        w = 4 if ty in ('int', 'float') else 8
        v = E._as_bits(E.mread(st, p.obj, p.off, w), w)
        if ty == 'int':
            v = sitofp(v, 32)
        elif ty == 'long':
            v = sitofp(v, 64)
        elif ty == 'unsigned long':
            v = uitofp(v, 64)
        elif ty == 'float':
            raise Unsupported('float measurement')
    else:
        q = E.to_ptr(a[1])
        iv = idval(E, st, E.to_ptr(E.mread(st, q.obj, q.off, 8)))
        v = E._as_bits(E.mread(st, q.obj, add(q.off, 8), 8), 8)
    st.g['ms'] = st.g.get('ms', ()) + ((iv, v),)
    return NULL


@contract(r'^absl(::\w+)?::Mutex::(Lock|lock|ReaderLock)\(', H)
def _lock(E, st, a, c):
    h = E.opts.get('on_lock')
    if st.g.get('locked'):
        E.fail(st, 'a mutex is not locked twice by one thread', 'lock')
    st.g['locked'] = True
    if h:
        h(E, st)
    return None


@contract(r'^absl(::\w+)?::Mutex::(Unlock|unlock|ReaderUnlock)\(', H)
def _unlock(E, st, a, c):
    if not st.g.get('locked'):
        E.fail(st, 'an unlocked mutex is not unlocked', 'lock')
    st.g['locked'] = False
    h = E.opts.get('on_unlock')
    if h:
        h(E, st)
    return None


@contract(r'^absl(::\w+)?::Mutex::~Mutex\(', H)
def _mdtor(E, st, a, c):
    return None


ID0 = z3.BitVec('the_id', 64)


# ------------------------------------------------------------------ meter construction
def new_meter(E, cls, st=None, args=()):
    """states right after construction: list of (state, meter pointer)"""
    st = st or State()
    g = E.m.global_init('vc_sizeof_' + cls)
    size = g[1][2]
    p = E.new_obj(st, cls, size, 'arg')
    i = E.new_obj(st, 'id', None, 'arg')
    setid(E, st, i, ID0)
    r = E.run_fn(st, E.m.find1('^vc_%s_new$' % cls), [p, i] + list(args))
    if not r:
        raise Unsupported('constructor of %s never returns' % cls)
    return [(s, p) for s, _ in r]


def results(E, st):
    p = E.new_obj(st, 'results', 24, 'arg')
    return p


def op(E, st, cls, name, p, args=()):
    """run one operation: list of (state, value); the event log of the operation is in g['ev'] and g['ms']"""
    s = st.copy()
    s.g['ev'] = ()
    s.g['ms'] = ()
    s.g['lk'] = ()
    s.g['rd'] = ()
    s.g.pop('now', None)
    a = [p]
    if name.startswith('Measure'):
        a.append(results(E, s))
    return E.run_fn(s, E.m.find1('^vc_%s_%s$' % (cls, name)), a + list(args))


class Interference:
    """environment-writable fields of the meter are arbitrary at every access of this thread.

    `inv` maps a field to its rely/guarantee invariant (value -> Bool): assumed of what other threads leave there, and
    an obligation on what this thread writes."""

    def __init__(self, E, meter, env, inv=None):
        self.E, self.obj, self.env, self.inv = E, meter.obj, env, inv or {}
        E.atomic_hook = self.hook

    def hook(self, E, st, kind, p, ty, val, exp):
        r = E.deref(st, p, 'atomic access')
        if len(r) != 1 or r[0][1].obj != self.obj or not isc(r[0][1].off):
            return None
        st, q = r[0]
        w = ty.size if ty.kind != 'int' else (ty.width + 7) // 8
        if not E.check_access(st, q, w, 'atomic access'):
            return []
        off = q.off
        if self.env is None or off in self.env:
            old = fresh('env.f%d' % off, 8 * w)
            f = self.inv.get(off)
            if f is not None:
                st.assume(f(old))
            E.mwrite(st, q.obj, off, w, old)
        else:
            old = E._as_bits(E.mread(st, q.obj, off, w), w)
        oldv = E.coerce(old, ty)
        if self.E.opts.get('rd'):
            st.g['rd'] = st.g.get('rd', ()) + ((off, old),)
        if kind == 'load':
            st.g['last:%d' % off] = old
            return [(st, oldv)]
        if kind == 'store':
            self.write(st, off, w, 'store', old, self.bits(val, ty, w))
            return [(st, None)]
        if kind.startswith('rmw:'):
            new = E.rmw_new(kind[4:], oldv, val, ty)
            self.write(st, off, w, 'rmw', old, self.bits(new, ty, w))
            return [(st, oldv)]
        if kind == 'cas':
            out = []
            c = eq(E._as_bits(oldv, w), E._as_bits(exp, w), 8 * w)
            if c is not False and E.S.sat(st.pc, c):
                s1 = st.copy()
                s1.assume(c)
                self.write(s1, off, w, 'rmw', old, self.bits(val, ty, w))
                out.append((s1, (oldv, True)))
            s2 = st.copy()
            s2.g['last:%d' % off] = old
            out.append((s2, (oldv, False)))
            return out
        raise Unsupported('atomic %s' % kind)

    def bits(self, v, ty, w):
        if ty.kind == 'int' and ty.width == 1:
            return zext(v, 1, 8)
        return self.E._as_bits(v, w)

    def write(self, st, off, w, kind, old, new):
        E = self.E
        st.g['ev'] = st.g.get('ev', ()) + ((kind, off, old, new),)
        st.g['last:%d' % off] = new
        E.mwrite(st, self.obj, off, w, new)
        f = self.inv.get(off)
        if f is not None:
            E.oblige(st, f(new), 'field invariant of offset %d kept' % off, 'inv')


def source_of(st, v):
    """the field whose value read is v"""
    for off, x in st.g.get('rd', ()):
        if z3.is_expr(v) and z3.is_expr(x) and v.get_id() == x.get_id():
            return off
    return None


def writes(st, off=None):
    return [e for e in st.g.get('ev', ()) if off is None or e[1] == off]


def cells(E, st, p):
    """current content of the meter object: off -> (w, value)"""
    r = {}
    for L in st.mem[p.obj].layers:
        if isinstance(L, dict):
            r.update(L)
        elif L[0] in ('set', 'copy') and isc(L[1]) and isc(L[2]):
            for o in [o for o in r if L[1] <= o < L[1] + L[2]]:
                del r[o]
            if L[0] == 'set' and isc(L[3]) and L[3] == 0:
                for o in range(L[1] + (-L[1]) % 8, L[1] + L[2] - 7, 8):
                    r[o] = (8, NULL)
        else:
            raise Unsupported('meter object written at a symbolic offset')
    return r


def states(E, cls, args=(), arg_meas=()):
    """reachable shapes of the non-atomic part of a meter: fresh, and after a measurement that cached its ids.
    The atomic fields are replaced by arbitrary values by the caller (interference, or `symbolise`)."""
    out = []
    for s, p in new_meter(E, cls, None, args):
        out.append(('fresh', s, p))
        E.quiet += 1
        hook, E.atomic_hook = E.atomic_hook, None
        try:
            I = Interference(E, p, None)
            seen = []
            for s2, _ in op(E, s, cls, 'Measure', p, arg_meas):
                k = shape(E, s2, p)
                if k not in seen and k != shape(E, s, p):
                    seen.append(k)
                    out.append(('measured', s2, p))
        finally:
            E.quiet -= 1
            E.atomic_hook = hook
    return out


def shape(E, st, p):
    return tuple(sorted((o, c[1].obj) for o, c in cells(E, st, p).items() if isinstance(c[1], Ptr)))


def same_id(a, b):
    return a.get_id() == b.get_id() or eq(a, b)


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def ids_stable(E, cls, st0, st1, p):
    """frame: the non-atomic part only goes from no cached ids to cached ids"""
    a, b = shape(E, st0, p), shape(E, st1, p)
    da, db = dict(a), dict(b)
    ok = set(da) == set(db) and all(da[o] == db[o] or da[o] is None for o in da)
    E.oblige(st1, ok, 'cached ids are never replaced or dropped', 'frame')


def harness(cc, what, more=()):
    return dict(srcs=[VERIF + '/harness/' + cc, 'spectator/string_pool.cc', 'spectator/common_refs.cc'] + SOURCES[1:] + list(more),
                flags=['-include', VERIF + '/harness/shim.h'], libs=ABSL + ['-lfmt', '-lxxhash', '-lpthread'], what=what)


def absl_libs():
    import subprocess, glob
    try:
        return subprocess.run(['pkg-config', '--libs', 'absl_synchronization', 'absl_time', 'absl_strings', 'absl_base'], capture_output=True,
                              text=True, check=True).stdout.split()
    except Exception:
        return ['-labsl_synchronization', '-labsl_time', '-labsl_strings', '-labsl_base']


ABSL = absl_libs()
