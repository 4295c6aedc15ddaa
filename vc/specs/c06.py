"""C06: a gauge reports its last value until its TTL runs out (operations that do not overlap)."""
from .meters import *
HANDLERS = H
ASSUMPTIONS = ['operations on one gauge do not overlap in time'] + ASSUMPTIONS[2:]
DHI, DLO = z3.BitVec('dur.hi', 64), z3.BitVec('dur.lo', 32)
MIN = 5 * 10 ** 9


def lt5(hi, lo):
    return b_or(icmp('slt', hi, 5))


def dur_ok():
    """representation invariant of absl::Duration, and what its conversion to nanoseconds means"""
    big = icmp('sge', DHI, 9223372036)
    return b_and(b_or(icmp('ult', DLO, 4000000000, 32), b_and(eq(DLO, M(32), 32), b_or(eq(DHI, M(63)), eq(DHI, 1 << 63)))),
                 b_implies(icmp('sge', DHI, 5), icmp('sge', NS(DHI, DLO), MIN)))


def arb(E, s, p, R=None):
    """arbitrary values in the atomic fields"""
    s = s.copy()
    r = {}
    for off, (w, v) in cells(E, s, p).items():
        if isinstance(v, Ptr):
            continue
        if R is None or off in R.values():
            x = fresh('f%d' % off, 8 * w)
            E.mwrite(s, p.obj, off, w, x)
            r[off] = x
    return s, r


def roles(E):
    E.quiet += 1
    try:
        R = {}
        s, p = new_meter(E, 'Gauge', None, [DHI, DLO])[0]
        s0, p0 = s, p
        I = Interference(E, p, frozenset())
        v = z3.BitVec('role.v', 64)
        for s2, _ in op(E, s, 'Gauge', 'Set', p, [v]):
            for k, off, old, new in writes(s2):
                if z3.is_expr(new) and new.get_id() == v.get_id():
                    R['value'] = off
                elif z3.is_expr(new) and s2.g.get('now') is not None and new.get_id() == s2.g['now'].get_id():
                    R['updated'] = off
        for s2, _ in op(E, s, 'Gauge', 'SetTtl', p, [DHI, DLO]):
            for k, off, old, new in writes(s2):
                if off not in R.values():
                    R['ttl'] = off
        if set(R) != {'value', 'updated', 'ttl'}:
            raise Unsupported('the fields of the gauge could not be told apart: %s' % R)
        return R
    finally:
        E.quiet -= 1


def field(E, s, p, off):
    return E._as_bits(E.mread(s, p.obj, off, 8), 8)


def gstates(E, R):
    for nm, s, p in states(E, 'Gauge', [0, 0], [z3.BitVec('now0', 64)]):
        s = s.copy()
        s.assume(dur_ok())
        v = {k: fresh('g.' + k, 64) for k in R}
        for k in R:
            E.mwrite(s, p.obj, R[k], 8, v[k])
        s.assume(z3.And(v['updated'] >= 0, v['updated'] <= (1 << 62), v['ttl'] >= MIN))
        yield s, p, v


def eff(hi, lo):
    return ite(lt5(hi, lo), MIN, nanos(hi, lo), 64)


def t_new(E):
    R = roles(E)
    E.mem_dur = None
    st = State()
    st.assume(dur_ok())
    n = 0
    for s, p in new_meter(E, 'Gauge', st, [DHI, DLO]):
        n += 1
        E.oblige(s, f_isnan(field(E, s, p, R['value'])), 'a new gauge has no value', 'spec')
        E.oblige(s, eq(field(E, s, p, R['ttl']), eff(DHI, DLO)), 'the ttl is the one requested, at least 5 seconds', 'spec', lambda m: 'ttl %d' % m.eval(DHI, model_completion=True).as_signed_long())
    cover(E, 'Gauge()', n)


def same(E, s2, p, R, v, but=()):
    return b_and(*[eq(field(E, s2, p, R[k]), v[k]) for k in R if k not in but])


def t_set(E):
    R = roles(E)
    x = z3.BitVec('x', 64)
    for s, p, v in gstates(E, R):
        I = Interference(E, p, frozenset())
        for s2, _ in op(E, s, 'Gauge', 'Set', p, [x]):
            E.oblige(s2, eq(field(E, s2, p, R['value']), x), 'Set stores the value', 'spec')
            E.oblige(s2, eq(field(E, s2, p, R['updated']), s2.g.get('now', 0)), 'Set makes the gauge fresh', 'spec')
            E.oblige(s2, same(E, s2, p, R, v, ('value', 'updated')), 'Set leaves the ttl alone', 'frame')
            E.oblige(s2, not s2.g['ms'], 'Set reports nothing', 'frame')
            ids_stable(E, 'Gauge', s, s2, p)


def t_ttl(E):
    R = roles(E)
    for s, p, v in gstates(E, R):
        I = Interference(E, p, frozenset())
        for s2, _ in op(E, s, 'Gauge', 'SetTtl', p, [DHI, DLO]):
            E.oblige(s2, eq(field(E, s2, p, R['ttl']), eff(DHI, DLO)), 'SetTtl takes effect, at least 5 seconds', 'spec', lambda m: 'ttl %d' % m.eval(DHI, model_completion=True).as_signed_long())
            E.oblige(s2, same(E, s2, p, R, v, ('ttl', 'updated')), 'SetTtl keeps the value', 'frame')
            E.oblige(s2, not s2.g['ms'], 'SetTtl reports nothing', 'frame')
            ids_stable(E, 'Gauge', s, s2, p)


def t_measure(which):
    def f(E):
        R = roles(E)
        n = 0
        for s, p, v in gstates(E, R):
            I = Interference(E, p, frozenset())
            now = z3.BitVec('now', 64)
            s.assume(z3.And(now >= v['updated'], now <= (1 << 62)))
            a = [now]
            if which == 'MeasureNow':
                s.g['clock'] = now
            for s2, _ in op(E, s, 'Gauge', which, p, a if which == 'Measure' else []):
                n += 1
                t = now if which == 'Measure' else s2.g.get('now', 0)
                expired = icmp('sgt', sub(t, v['updated']), v['ttl'])
                none = f_isnan(v['value'])
                ms = s2.g['ms']
                hk = lambda m: 'gauge %d %d' % (m.eval(v['ttl'], model_completion=True).as_signed_long(), m.eval(t - v['updated'], model_completion=True).as_signed_long())
                E.oblige(s2, len(ms) <= 1, 'at most one value is reported', 'spec')
                E.oblige(s2, b_or(expired, none, len(ms) == 1), 'a value set and not expired is reported', 'spec', hk)
                E.oblige(s2, b_or(b_not(none), len(ms) == 0), 'no value, no report', 'spec', hk)
                for i, x in ms:
                    E.oblige(s2, eq(x, v['value']), 'the value reported is the last one set', 'spec', hk)
                    E.oblige(s2, eq(i, with_default_stat(ID0, strtok('gauge'))), 'reported as a gauge unless the id carries a statistic', 'spec')
                E.oblige(s2, b_or(expired, eq(field(E, s2, p, R['value']), v['value']), b_and(none, f_isnan(field(E, s2, p, R['value'])))), 'a live gauge keeps its value', 'spec', hk)
                E.oblige(s2, b_or(b_not(expired), f_isnan(field(E, s2, p, R['value']))), 'an expired gauge loses its value', 'spec', hk)
                E.oblige(s2, same(E, s2, p, R, v, ('value',)), 'measuring keeps ttl and freshness', 'frame')
                ids_stable(E, 'Gauge', s, s2, p)
        cover(E, which, n >= 3)
    return f


def t_get(E):
    R = roles(E)
    for s, p, v in gstates(E, R):
        I = Interference(E, p, frozenset())
        now = z3.BitVec('now', 64)
        s.assume(z3.And(now >= v['updated'], now <= (1 << 62)))
        for s2, r in op(E, s, 'Gauge', 'Get', p, []):
            E.oblige(s2, eq(r, v['value']), 'Get is the value', 'spec')
            E.oblige(s2, same(E, s2, p, R, v), 'Get changes nothing', 'frame')
        for s2, r in op(E, s, 'Gauge', 'HasExpired', p, [now]):
            E.oblige(s2, ite_b(r, icmp('sgt', sub(now, v['updated']), v['ttl']), icmp('sle', sub(now, v['updated']), v['ttl'])), 'HasExpired: more than the ttl has passed', 'spec')
            E.oblige(s2, same(E, s2, p, R, v), 'HasExpired changes nothing', 'frame')


def tasks(m):
    return [('Gauge()', t_new), ('Set', t_set), ('SetTtl', t_ttl), ('Measure', t_measure('Measure')), ('Measure(now)', t_measure('MeasureNow')), ('Get, HasExpired', t_get)]


HARNESS = harness('c06.cc', 'histories of Set, SetTtl, Measure and clock steps against a reference gauge')
