"""C08: monotonic counters report each increase exactly once.

Telescoping argument: a measurement moves the baseline from p0 to p1, where p1 is the value of the source at an instant of
that measurement, and reports p1 - p0 (when positive); nothing else moves the baseline.  So the reports between two
measurements add up to the increase between the two instants, whatever recorders do meanwhile."""
from .meters import *
HANDLERS = H
NAN = 0x7FF8000000000000


def roles(E, cls, w=64):
    """value: where Set puts its argument; base: what a measurement moves; the rest of Set's writes are flags"""
    E.quiet += 1
    try:
        s, p = new_meter(E, cls)[0]
        I = Interference(E, p, None)
        x = z3.BitVec('role.x', 64)
        R, flags, upd = {}, {}, None
        for s2, _ in op(E, s, cls, 'Set', p, [x] + ([z3.BitVec('role.ts', 64)] if cls == 'MonotonicSampled' else [])):
            for k, off, old, new in writes(s2):
                if z3.is_expr(new) and new.get_id() == x.get_id():
                    R['value'] = off
                elif z3.is_expr(new) and s2.g.get('now') is not None and new.get_id() == s2.g['now'].get_id():
                    R['updated'] = off
                elif isc(new):
                    flags[off] = new
                else:
                    raise Unsupported('Set writes something else')
        for s2, _ in op(E, s, cls, 'Measure', p):
            for k, off, old, new in writes(s2):
                if off == R.get('value'):
                    R['bad'] = off
                elif z3.is_expr(new) and off not in flags:
                    R['base'] = off
        if 'value' not in R or 'base' not in R:
            raise Unsupported('the fields of %s could not be told apart: %s' % (cls, R))
        return R, flags
    finally:
        E.quiet -= 1


class LoadLog(Interference):
    def hook(self, E, st, kind, p, ty, val, exp):
        r = super().hook(E, st, kind, p, ty, val, exp)
        q = E.to_ptr(p)
        for s, v in r or []:
            if kind in ('load', 'cas') or kind.startswith('rmw'):
                old = v[0] if kind == 'cas' else v
                if isinstance(q, Ptr) and isc(q.off):
                    s.g['loads'] = s.g.get('loads', ()) + ((q.off, E._as_bits(old, 8) if not isinstance(old, bool) and (not z3.is_expr(old) or z3.is_bv(old)) else old),)
        return r


def same_d(a, b):
    return b_or(eq(a, b), feq(a, b), b_and(f_isnan(a), f_isnan(b)))


# ------------------------------------------------------------------ MonotonicCounter
def t_double(E):
    cls = 'MonotonicCounter'
    R, flags = roles(E, cls)
    for s, p in new_meter(E, cls):
        E.oblige(s, f_isnan(E._as_bits(E.mread(s, p.obj, R['base'], 8), 8)), 'a new counter has no earlier value', 'spec')
        E.oblige(s, f_isnan(E._as_bits(E.mread(s, p.obj, R['value'], 8), 8)), 'a new counter has no value', 'spec')
    n = 0
    x = z3.BitVec('x', 64)
    for nm, s, p in states(E, cls):
        I = Interference(E, p, None)
        for s2, _ in op(E, s, cls, 'Set', p, [x]):
            w = writes(s2, R['value'])
            E.oblige(s2, len(w) == 1 and eq(w[0][3], x), 'Set replaces the source value', 'spec')
            E.oblige(s2, not writes(s2, R['base']) and not s2.g['ms'], 'Set neither moves the baseline nor reports', 'spec')
            ids_stable(E, cls, s, s2, p)
        for vary in (True, False):
            s0 = s.copy()
            p0 = fresh('base', 64)
            E.mwrite(s0, p.obj, R['base'], 8, p0)
            v0 = fresh('value', 64)
            E.mwrite(s0, p.obj, R['value'], 8, v0)
            I = LoadLog(E, p, frozenset([R['value']] if vary else []))
            s0.g['loads'] = ()
            for s2, _ in op(E, s0, cls, 'Measure', p):
                n += 1
                p1 = E._as_bits(E.mread(s2, p.obj, R['base'], 8), 8)
                seen = [v for o, v in s2.g.get('loads', ()) if o == R['value']]
                hk = None if vary else (lambda m: 'mono %d %d' % (m.eval(p0, model_completion=True).as_long(), m.eval(v0, model_completion=True).as_long()))
                E.oblige(s2, b_or(*[same_d(p1, v) for v in seen]), 'the baseline becomes a value the source had during the measurement', 'spec', hk)
                E.oblige(s2, not writes(s2, R['value']), 'measuring does not touch the source value', 'frame')
                report(E, s2, flt(0, fsub(p1, p0)), fsub(p1, p0), with_default_stat(ID0, strtok('count')), hk)
                ids_stable(E, cls, s, s2, p)
    cover(E, cls, n >= 4)


def report(E, s2, cond, val, idv, hk=None, same=eq):
    ms = s2.g['ms']
    E.oblige(s2, len(ms) <= 1, 'at most one value is reported', 'spec')
    if ms:
        E.oblige(s2, cond, 'only an increase is reported', 'spec', hk)
        E.oblige(s2, same(ms[0][1], val), 'the value reported is the increase from the old to the new baseline', 'spec', hk)
        E.oblige(s2, eq(ms[0][0], idv), 'reported as a count', 'spec')
    else:
        E.oblige(s2, b_not(cond), 'every increase is reported', 'spec', hk)


# ------------------------------------------------------------------ MonotonicCounterUint
LIMIT = d2b(9.223372e18)


def flagkey(E, s, p, R, but=()):
    r = []
    for off, (w, v) in sorted(cells(E, s, p).items()):
        if isinstance(v, Ptr) or off in (R['value'], R['base'], R.get('updated')):
            continue
        if z3.is_expr(v):
            v = simp(v)
        if not isc(v):
            raise Unsupported('flag at offset %d is not a constant' % off)
        r.append((off, w, v))
    return tuple(r)


def t_uint(E):
    cls = 'MonotonicCounterUint'
    R, flags = roles(E, cls)
    I = LoadLog(E, new_meter(E, cls)[0][1], frozenset())
    x = z3.BitVec('x', 64)
    n = [0]

    def symbolic(s, p, which):
        s = s.copy()
        r = {}
        for k in which:
            r[k] = fresh(k, 64)
            E.mwrite(s, p.obj, R[k], 8, r[k])
        if 'updated' in R:
            E.mwrite(s, p.obj, R['updated'], 8, fresh('updated', 64))
        return s, r

    def run(s, p, name, args=(), env=()):
        LoadLog(E, p, frozenset(env))
        s = s.copy()
        s.g['loads'] = ()
        return op(E, s, cls, name, p, args)

    def cur(s, p, k):
        return E._as_bits(E.mread(s, p.obj, R[k], 8), 8)

    # abstract states: what Set and Measure lead to
    NEW, SET, LIVE = 'no value yet', 'first value not yet measured', 'measured'
    seen = {}
    work = [(NEW, s, p) for s, p in new_meter(E, cls)]
    while work:
        kind, s, p = work.pop()
        key = (kind, flagkey(E, s, p, R), tuple(q is not None for o, q in shape(E, s, p)))
        if key in seen:
            continue
        seen[key] = True
        if len(seen) > 24:
            raise Unsupported('too many meter states')
        s, v = symbolic(s, p, ['value', 'base'] if kind == LIVE else (['value'] if kind == SET else []))
        for s2, _ in run(s, p, 'Set', [x]):
            E.oblige(s2, eq(cur(s2, p, 'value'), x), 'Set replaces the source value', 'spec')
            E.oblige(s2, not writes(s2, R['base']) and not s2.g['ms'], 'Set neither moves the baseline nor reports', 'spec')
            ids_stable(E, cls, s, s2, p)
            work.append((SET if kind == NEW else kind, s2, p))
        for env in ((), (R['value'],)):
            if kind == NEW and env:
                continue
            for s2, _ in run(s, p, 'Measure', (), env):
                n[0] += 1
                p1 = cur(s2, p, 'base')
                vals = [v2 for o, v2 in s2.g['loads'] if o == R['value']]
                E.oblige(s2, not writes(s2, R['value']), 'measuring does not touch the source value', 'frame')
                ids_stable(E, cls, s, s2, p)
                if kind == NEW:
                    E.oblige(s2, not s2.g['ms'], 'without a value nothing is reported', 'spec')
                    work.append((NEW, s2, p))
                    continue
                E.oblige(s2, b_or(*[eq(p1, v2) for v2 in vals]), 'the baseline becomes a value the source had during the measurement', 'spec')
                if kind == SET:
                    E.oblige(s2, not s2.g['ms'], 'the first value is only a baseline', 'spec', lambda m: 'uint0 %d' % m.eval(v['value'], model_completion=True).as_long())
                else:
                    d = uitofp(sub(p1, v['base']))
                    hk = None if env else (lambda m: 'uint %d %d' % (m.eval(v['base'], model_completion=True).as_long(), m.eval(v['value'], model_completion=True).as_long()))
                    report(E, s2, b_not(eq(p1, v['base'])), ite(flt(LIMIT, d), 0, d, 64), with_default_stat(ID0, strtok('count')), hk, lambda a, b: feq(a, b))
                work.append((LIVE, s2, p))
    cover(E, 'MonotonicCounterUint: states', {NEW, SET, LIVE} <= {k[0] for k in seen})
    cover(E, cls, n[0] >= 6)


# ------------------------------------------------------------------ MonotonicSampled
def sampled_fields(E):
    """roles of the four fields behind the lock, by running Set twice on a new meter and then Measure"""
    cls = 'MonotonicSampled'
    a, ta, b, tb = (z3.BitVec(n, 64) for n in ('r.a', 'r.ta', 'r.b', 'r.tb'))
    E.quiet += 1
    try:
        s, p = new_meter(E, cls)[0]
        I = Interference(E, p, frozenset())
        s.assume(z3.And(ta > 0, tb > ta))
        R = {}
        for s1, _ in op(E, s, cls, 'Set', p, [a, ta]):
            for off, (w, v) in cells(E, s1, p).items():
                if z3.is_expr(v):
                    if v.get_id() == a.get_id():
                        R['value'] = off
                    if v.get_id() == ta.get_id():
                        R['ts'] = off
            for s2, _ in op(E, s1, cls, 'Set', p, [b, tb]):
                if not (z3.is_expr(cur8(E, s2, p, R['ts'])) and cur8(E, s2, p, R['ts']).get_id() == tb.get_id()):
                    continue
                for off, (w, v) in cells(E, s2, p).items():
                    if off in R.values():
                        continue
                    if z3.is_expr(v):
                        if v.get_id() == a.get_id():
                            R['pvalue'] = off
                        if v.get_id() == ta.get_id():
                            R['pts'] = off
        if len(R) != 4:
            raise Unsupported('the fields of MonotonicSampled could not be told apart: %s' % R)
        return R
    finally:
        E.quiet -= 1


def cur8(E, s, p, off):
    return E._as_bits(E.mread(s, p.obj, off, 8), 8)


def rate(v, t, pv, pt):
    return fdiv(fsub(v, pv), fdiv(sitofp(sub(t, pt)), d2b(1e9)))


def t_sampled(E):
    """all four fields change only under the lock; one critical section per operation"""
    cls = 'MonotonicSampled'
    R = sampled_fields(E)
    F = ['value', 'ts', 'pvalue', 'pts']
    n = 0
    x, t = z3.BitVec('x', 64), z3.BitVec('t', 64)
    for s, p in new_meter(E, cls):
        E.oblige(s, b_and(f_isnan(cur8(E, s, p, R['value'])), f_isnan(cur8(E, s, p, R['pvalue'])), eq(cur8(E, s, p, R['ts']), 0)), 'a new counter has no value and no earlier value', 'spec')
    for nm, s, p in states(E, cls):
        I = Interference(E, p, frozenset())

        def havoc(E, st):
            """what other threads may have left when the lock is obtained: any state satisfying the class invariant"""
            st.g['lk'] = st.g['lk'] + (havoc1(E, st, p),)

        def havoc1(E, st, p):
            v = {k: fresh('s.' + k, 64) for k in F}
            for k in F:
                E.mwrite(st, p.obj, R[k], 8, v[k])
            st.assume(inv(v))
            return v

        def inv(v):
            # 0 <= pts <= ts; without an earlier value there was at most one sample; a value that is a number came with a timestamp
            return z3.And(v['pts'] >= 0, v['pts'] <= v['ts'], v['ts'] <= (1 << 62))

        def release(E, st):
            c = {k: cur8(E, st, p, R[k]) for k in F}
            st.g['out'] = c
            E.oblige(st, z3.And(bv(c['pts'], 64) >= 0, bv(c['pts'], 64) <= bv(c['ts'], 64)), 'the earlier sample is not younger than the latest', 'inv')
        E.opts['on_lock'], E.opts['on_unlock'] = havoc, release
        E.opts['unlocked_fields'] = None
        s0 = s.copy()
        s0.assume(z3.And(t >= 0, t <= (1 << 62)))
        for s2, _ in op(E, s0, cls, 'Set', p, [x, t]):
            n += 1
            lk = s2.g['lk']
            E.oblige(s2, len(lk) == 1, 'one critical section', 'spec')
            if len(lk) != 1:
                continue
            v, c = lk[0], {k: cur8(E, s2, p, R[k]) for k in F}
            E.oblige(s2, b_and(*[eq(c[k], s2.g['out'][k]) for k in F]), 'nothing is changed outside the lock', 'frame')
            old = icmp('slt', t, v['ts'])
            E.oblige(s2, b_or(b_not(old), b_and(*[eq(c[k], v[k]) for k in F])), 'an older sample is ignored', 'spec')
            E.oblige(s2, b_or(old, b_and(eq(c['value'], x), eq(c['ts'], t))), 'a sample replaces the latest one', 'spec')
            nb = f_isnan(v['pvalue'])
            E.oblige(s2, b_or(old, b_and(b_or(b_not(nb), b_and(eq(c['pvalue'], v['value']), eq(c['pts'], v['ts']))), b_or(nb, b_and(eq(c['pvalue'], v['pvalue']), eq(c['pts'], v['pts']))))),
                     'the earlier sample is kept, or becomes the sample before this one if there was none', 'spec')
            E.oblige(s2, not s2.g['ms'], 'Set reports nothing', 'frame')
            ids_stable(E, cls, s, s2, p)
        for s2, _ in op(E, s0, cls, 'Measure', p):
            n += 1
            lk = s2.g['lk']
            E.oblige(s2, len(lk) == 1, 'one critical section: the rate and the new baseline come from one state', 'spec')
            if len(lk) != 1:
                continue
            v, c = lk[0], {k: cur8(E, s2, p, R[k]) for k in F}
            r = rate(v['value'], v['ts'], v['pvalue'], v['pts'])
            E.oblige(s2, b_and(*[eq(c[k], s2.g['out'][k]) for k in F]), 'nothing is changed outside the lock', 'frame')
            E.oblige(s2, b_and(eq(c['value'], v['value']), eq(c['ts'], v['ts'])), 'measuring does not touch the latest sample', 'frame')
            nan = f_isnan(r)
            moved = b_and(eq(c['pvalue'], v['value']), eq(c['pts'], v['ts']))
            kept = b_and(eq(c['pvalue'], v['pvalue']), eq(c['pts'], v['pts']))
            E.oblige(s2, b_or(nan, moved), 'the sample measured becomes the baseline', 'spec')
            E.oblige(s2, b_or(kept, moved), 'the baseline moves only to the sample measured', 'spec')
            report(E, s2, flt(0, r), r, with_stat(ID0, strtok('count')))
            ids_stable(E, cls, s, s2, p)
        for s2, r in op(E, s0, cls, 'SampledRate', p):
            lk = s2.g['lk']
            if len(lk) == 1:
                v = lk[0]
                E.oblige(s2, eq(r, rate(v['value'], v['ts'], v['pvalue'], v['pts'])), 'SampledRate is the increase over the seconds between the samples', 'spec')
            else:
                E.oblige(s2, False, 'one critical section', 'spec')
        del E.opts['on_lock'], E.opts['on_unlock']
    cover(E, cls, n >= 6)


def tasks(m):
    return [('MonotonicCounter', t_double), ('MonotonicCounterUint', t_uint), ('MonotonicSampled', t_sampled)]


HARNESS = harness('c08.cc', 'sequences of values; every placement of up to two interfering Set operations before each atomic access or lock of Measure')
