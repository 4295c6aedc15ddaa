"""C04: counters neither lose, repeat nor invent increments."""
from .meters import *
HANDLERS = H
SPEC_FN = 'sum(reported) + held = sum(added) over the event log: every write of the count field is an atomic x -> x+delta or x -> 0 that reports x'


def nonneg(x):
    return icmp('ule', x, 0x7FF0000000000000)


def count_field(E, s, p):
    """role discovery: the field whose exchanged value a measurement reports"""
    I = Interference(E, p, None)
    E.quiet += 1
    E.opts['rd'] = True
    try:
        for s2, _ in op(E, s, 'Counter', 'Measure', p):
            for iv, v in s2.g['ms']:
                off = source_of(s2, v)
                if off is not None:
                    return off
    finally:
        E.quiet -= 1
        E.opts['rd'] = False
    raise Unsupported('no field is reported by a measurement')


def t_add(which):
    def f(E):
        n = 0
        for nm, s, p in states(E, 'Counter'):
            off = count_field(E, s, p)
            I = Interference(E, p, None, {off: nonneg})
            d = fresh('delta', 64) if which == 'Add' else d2b(1.0)
            hook = (lambda m: 'add %d' % m.eval(d, model_completion=True).as_long()) if which == 'Add' else None
            for s2, _ in op(E, s, 'Counter', which, p, [d] if which == 'Add' else []):
                n += 1
                w = writes(s2, off)
                valid = b_and(b_not(flt(d, 0)), b_not(f_isnan(d)))
                # exactly one atomic addition of delta for a valid delta (an addition of zero may be skipped) ...
                one = len(w) == 1 and w[0][0] == 'rmw'
                E.oblige(s2, b_or(b_not(valid), feq(d, 0) if not w else one), 'a non-negative delta is added by one atomic update', 'spec', hook)
                if one:
                    E.oblige(s2, b_or(b_not(valid), eq(w[0][3], fadd(w[0][2], d))), 'the update adds exactly the delta to the current amount', 'spec', hook)
                # ... and no change otherwise
                E.oblige(s2, b_or(valid, b_and(*[eq(x[2], x[3]) for x in w])), 'a negative or not-a-number delta changes nothing', 'spec', hook)
                E.oblige(s2, len(s2.g['ms']) == 0, 'adding reports nothing', 'frame')
                ids_stable(E, 'Counter', s, s2, p)
        cover(E, which, n >= 2)
    return f


def t_measure(E):
    n = 0
    for nm, s, p in states(E, 'Counter'):
        off = count_field(E, s, p)
        I = Interference(E, p, None, {off: nonneg})
        for s2, _ in op(E, s, 'Counter', 'Measure', p):
            n += 1
            w, ms = writes(s2, off), s2.g['ms']
            E.oblige(s2, len(w) <= 1 and all(x[0] == 'rmw' for x in w), 'a measurement takes the amount by at most one atomic update', 'spec')
            E.oblige(s2, len(ms) <= 1, 'a measurement reports at most one value', 'spec')
            if w:
                E.oblige(s2, feq(w[0][3], 0), 'the amount taken is reset to zero', 'spec')
            if ms:
                E.oblige(s2, len(w) == 1, 'what is reported is taken from the counter', 'spec')
                E.oblige(s2, b_and(flt(0, w[0][2]), eq(ms[0][1], w[0][2])), 'the reported value is exactly the amount taken, and positive', 'spec')
                E.oblige(s2, eq(ms[0][0], with_default_stat(ID0, strtok('count'))), 'tagged as a count unless the id carries a statistic', 'spec')
            elif w:
                E.oblige(s2, feq(w[0][2], 0), 'nothing is reported only if nothing was added', 'spec')
            else:
                last = s2.g.get('last:%d' % off)
                E.oblige(s2, False if last is None else feq(last, 0), 'nothing is taken only if nothing was added', 'spec')
            ids_stable(E, 'Counter', s, s2, p)
    cover(E, 'Measure', n >= 2)


def t_new(E):
    for s, p in new_meter(E, 'Counter'):
        off = count_field(E, s, p)
        E.oblige(s, eq(E.mread(s, p.obj, off, 8), 0), 'a new counter holds nothing', 'spec')


def t_count(E):
    for nm, s, p in states(E, 'Counter'):
        off = count_field(E, s, p)
        I = Interference(E, p, None, {off: nonneg})
        for s2, r in op(E, s, 'Counter', 'Count', p):
            E.oblige(s2, eq(r, s2.g.get('last:%d' % off, 1)), 'Count is the amount held', 'spec')
            E.oblige(s2, not writes(s2), 'Count changes nothing', 'frame')


def tasks(m):
    return [('Counter()', t_new), ('Add', t_add('Add')), ('Increment', t_add('Increment')), ('Measure', t_measure), ('Count', t_count)]


HARNESS = harness('c04.cc', 'single deltas; every placement of up to two interfering Add/Measure actions before each atomic access of Add and Measure')
