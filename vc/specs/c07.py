"""C07: max gauges report the maximum, age gauges the elapsed seconds."""
from .meters import *
HANDLERS = H
LOWEST = d2b(-1.7976931348623157e308)
ASSUMPTIONS = ASSUMPTIONS + ['values given to a max gauge are greater than the lowest finite double (its "nothing yet" marker)']


def value_field(E):
    E.quiet += 1
    E.opts['rd'] = True
    try:
        for nm, s, p in states(E, 'MaxGauge'):
            I = Interference(E, p, None)
            for s2, _ in op(E, s, 'MaxGauge', 'Measure', p):
                for iv, v in s2.g['ms']:
                    off = source_of(s2, v)
                    if off is not None:
                        return off
    finally:
        E.quiet -= 1
        E.opts['rd'] = False
    raise Unsupported('no field is reported by a measurement')


def t_new(E):
    off = value_field(E)
    for s, p in new_meter(E, 'MaxGauge'):
        E.oblige(s, eq(E._as_bits(E.mread(s, p.obj, off, 8), 8), LOWEST), 'a new max gauge holds the marker', 'spec')


def t_update(which):
    def f(E):
        off = value_field(E)
        n = 0
        x = z3.BitVec('x', 64)
        hk = lambda m: 'max %d' % m.eval(x, model_completion=True).as_long()
        for nm, s, p in states(E, 'MaxGauge'):
            I = Interference(E, p, None)
            for s2, _ in op(E, s, 'MaxGauge', which, p, [x]):
                n += 1
                w = writes(s2, off)
                nan = f_isnan(x)
                if w:
                    E.oblige(s2, b_or(nan, len(w) == 1 and w[0][0] == 'rmw'), 'the maximum is changed by one atomic update', 'spec', hk)
                    E.oblige(s2, b_or(nan, b_and(eq(w[0][3], x), flt(w[0][2], x))), 'the maximum is replaced only by a larger value, the one given', 'spec', hk)
                else:
                    last = s2.g.get('last:%d' % off)
                    E.oblige(s2, b_or(nan, False if last is None else b_not(flt(last, x))), 'the maximum is left only if it is already as large', 'spec', hk)
                E.oblige(s2, b_or(b_not(nan), b_and(*[eq(e[2], e[3]) for e in w])), 'not-a-number changes nothing', 'spec', hk)
                E.oblige(s2, not s2.g['ms'], 'an update reports nothing', 'frame')
                ids_stable(E, 'MaxGauge', s, s2, p)
        cover(E, 'MaxGauge::' + which, n >= 2)
    return f


def t_measure(E):
    off = value_field(E)
    n = 0
    for nm, s, p in states(E, 'MaxGauge'):
        I = Interference(E, p, None)
        for s2, _ in op(E, s, 'MaxGauge', 'Measure', p):
            n += 1
            w, ms = writes(s2, off), s2.g['ms']
            E.oblige(s2, len(w) <= 1 and all(e[0] == 'rmw' for e in w) and len(ms) <= 1, 'a measurement takes and reports the maximum at most once', 'spec')
            for e in w:
                E.oblige(s2, eq(e[3], LOWEST), 'the gauge starts afresh', 'spec')
            old = w[0][2] if w else s2.g.get('last:%d' % off)
            if ms:
                E.oblige(s2, len(w) == 1 and eq(ms[0][1], old), 'the value reported is the maximum taken', 'spec')
                E.oblige(s2, b_not(eq(old, LOWEST)), 'nothing is reported without an update', 'spec')
                E.oblige(s2, eq(ms[0][0], with_stat(ID0, strtok('max'))), 'reported as a max', 'spec')
            else:
                E.oblige(s2, False if old is None else feq(old, LOWEST), 'nothing is left unreported', 'spec')
            ids_stable(E, 'MaxGauge', s, s2, p)
    cover(E, 'MaxGauge::Measure', n >= 3)


def t_get(E):
    off = value_field(E)
    for nm, s, p in states(E, 'MaxGauge'):
        I = Interference(E, p, None)
        for s2, r in op(E, s, 'MaxGauge', 'Get', p):
            last = s2.g.get('last:%d' % off)
            E.oblige(s2, False if last is None else b_or(eq(r, last), b_and(feq(last, LOWEST), f_isnan(r))), 'Get is the current maximum, or not-a-number', 'spec')
            E.oblige(s2, not writes(s2), 'Get changes nothing', 'frame')


# ------------------------------------------------------------------ age gauge
def age_field(E):
    E.quiet += 1
    E.opts['rd'] = True
    try:
        s, p = new_meter(E, 'AgeGauge')[0]
        I = Interference(E, p, None)
        t = z3.BitVec('t', 64)
        for s2, _ in op(E, s, 'AgeGauge', 'UpdateLastSuccess', p, [t]):
            for k, off, old, new in writes(s2):
                if z3.is_expr(new) and new.get_id() == t.get_id():
                    return off
    finally:
        E.quiet -= 1
        E.opts['rd'] = False
    raise Unsupported('no field holds the last success')


def t_age(E):
    off = age_field(E)
    t = z3.BitVec('t', 64)
    n = 0
    for s, p in new_meter(E, 'AgeGauge'):
        E.oblige(s, eq(E._as_bits(E.mread(s, p.obj, off, 8), 8), 0), 'a new age gauge counts from the epoch', 'spec')
    for nm, s, p in states(E, 'AgeGauge'):
        for which in ('UpdateLastSuccess', 'UpdateLastSuccessNow'):
            I = Interference(E, p, None)
            for s2, _ in op(E, s, 'AgeGauge', which, p, [t] if which == 'UpdateLastSuccess' else []):
                w = writes(s2, off)
                want = t if which == 'UpdateLastSuccess' else s2.g.get('now')
                E.oblige(s2, len(w) == 1 and want is not None and eq(w[0][3], want), 'the last success is recorded', 'spec')
                E.oblige(s2, not s2.g['ms'], 'recording reports nothing', 'frame')
                ids_stable(E, 'AgeGauge', s, s2, p)
        for s2, r in op(E, s, 'AgeGauge', 'Value', p, [t]):
            last = s2.g.get('last:%d' % off)
            E.oblige(s2, False if last is None else eq(r, fdiv(sitofp(sub(t, last)), d2b(1e9))), 'Value is the seconds since the last success', 'spec')
            E.oblige(s2, not writes(s2, off), 'Value changes nothing', 'frame')
        for s2, _ in op(E, s, 'AgeGauge', 'Measure', p):
            n += 1
            ms = s2.g['ms']
            last, now = s2.g.get('last:%d' % off), s2.g.get('now')
            ok = len(ms) == 1 and last is not None and now is not None
            E.oblige(s2, ok, 'every measurement reports one value', 'spec')
            if ok:
                E.oblige(s2, eq(ms[0][1], fdiv(sitofp(sub(now, last)), d2b(1e9))), 'the value is the seconds since the last success', 'spec')
                E.oblige(s2, eq(ms[0][0], with_default_stat(ID0, strtok('gauge'))), 'reported as a gauge unless the id carries a statistic', 'spec')
            E.oblige(s2, not writes(s2, off), 'measuring keeps the last success', 'frame')
            ids_stable(E, 'AgeGauge', s, s2, p)
    cover(E, 'AgeGauge::Measure', n >= 2)


def tasks(m):
    return [('MaxGauge()', t_new), ('MaxGauge::Set', t_update('Set')), ('MaxGauge::Update', t_update('Update')), ('MaxGauge::Measure', t_measure),
            ('MaxGauge::Get', t_get), ('AgeGauge', t_age)]


HARNESS = harness('c07.cc', 'sequences of values; every placement of up to two interfering operations before each atomic access of Update and Measure; age gauge clocks')
