"""C05: timers and distribution summaries report exact totals."""
from .meters import *
HANDLERS = H
KINDS = {'Timer': 'totalTime', 'DistributionSummary': 'totalAmount'}


def expect(cls, stat, old):
    """the value a measurement reports for a statistic whose field held `old`"""
    if stat == 'count':
        return sitofp(old)
    if cls == 'Timer':
        return fdiv(old, d2b(1e18)) if stat == 'totalOfSquares' else fdiv(sitofp(old), d2b(1e9))
    return old


def stats(cls):
    return ['count', KINDS[cls], 'totalOfSquares', 'max']


def mentions(e, x):
    if not z3.is_expr(e):
        return False
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() == x.get_id():
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo += t.children()
    return False


def roles(E, cls):
    """role discovery: which field feeds which reported statistic"""
    E.quiet += 1
    E.opts['rd'] = True
    try:
        for nm, s, p in states(E, cls):
            I = Interference(E, p, None)
            for s2, _ in op(E, s, cls, 'Measure', p):
                if len(s2.g['ms']) != 4:
                    continue
                r = {}
                for iv, v in s2.g['ms']:
                    for stat in stats(cls):
                        if same_id(iv, with_stat(ID0, strtok(stat))) is True:
                            for off, old in s2.g.get('rd', ()):
                                if z3.is_expr(old) and mentions(v, old):
                                    r[stat] = off
                if len(r) == 4 and len(set(r.values())) == 4:
                    return r
    finally:
        E.quiet -= 1
        E.opts['rd'] = False
    raise Unsupported('the four statistics could not be told apart')


def t_record(cls, which):
    def f(E):
        R = roles(E, cls)
        n = 0
        for nm, s, p in states(E, cls):
            I = Interference(E, p, None)
            if cls == 'Timer':
                if which == 'Record':
                    args = [z3.BitVec('dur.hi', 64), z3.BitVec('dur.lo', 32)]
                    x = nanos(*args)
                else:
                    args = [z3.BitVec('ns', 64)]
                    s = s.copy()
                    x = args[0]
                valid = icmp('sge', x, 0)
                dx = sitofp(x)
            else:
                args = [z3.BitVec('amount', 64)]
                x = dx = args[0]
                valid = b_and(b_not(flt(x, 0)), b_not(f_isnan(x)))
            for s2, _ in op(E, s, cls, which, p, args):
                n += 1
                nv = b_not(valid)
                m = lambda stat, e: b_or(nv, e)
                W = {k: writes(s2, o) for k, o in R.items()}
                for k in ('count', KINDS[cls], 'totalOfSquares'):
                    w = W[k]
                    skip = False if k == 'count' else (eq(x, 0) if cls == 'Timer' else feq(x, 0))
                    E.oblige(s2, b_or(nv, skip if not w else (len(w) == 1 and w[0][0] == 'rmw')),
                             'a non-negative amount changes the %s by one atomic update' % k, 'spec', amount_hook(cls, x))
                    if len(w) == 1:
                        old, new = w[0][2], w[0][3]
                        if k == 'count':
                            want = add(old, 1)
                        elif k == 'totalOfSquares':
                            want = fadd(old, fmul(dx, dx))
                        else:
                            want = add(old, x) if cls == 'Timer' else fadd(old, x)
                        E.oblige(s2, b_or(nv, eq(new, want)), 'the %s grows by exactly its share of the amount' % k, 'spec', amount_hook(cls, x))
                w = W['max']
                lt = (lambda a, b: icmp('slt', a, b)) if cls == 'Timer' else flt
                if w:
                    E.oblige(s2, b_or(nv, len(w) == 1 and w[0][0] == 'rmw'), 'the max is changed by one atomic update', 'spec', amount_hook(cls, x))
                    E.oblige(s2, b_or(nv, b_and(eq(w[0][3], x), lt(w[0][2], x))), 'the max is replaced only by a larger amount', 'spec', amount_hook(cls, x))
                else:
                    last = s2.g.get('last:%d' % R['max'])
                    E.oblige(s2, b_or(nv, False if last is None else b_not(lt(last, x))), 'the max is left only if it is already as large', 'spec', amount_hook(cls, x))
                E.oblige(s2, b_or(valid, b_and(*[eq(e[2], e[3]) for k in W for e in W[k]])), 'a negative amount changes no statistic', 'spec', amount_hook(cls, x))
                E.oblige(s2, len(s2.g['ms']) == 0, 'recording reports nothing', 'frame')
                ids_stable(E, cls, s, s2, p)
        cover(E, '%s::%s' % (cls, which), n >= 3)
    return f


def amount_hook(cls, x):
    def h(m):
        return 'rec %s %d' % (cls, m.eval(x, model_completion=True).as_long())
    return h


def t_measure(cls):
    def f(E):
        R = roles(E, cls)
        n = 0
        for nm, s, p in states(E, cls):
            I = Interference(E, p, None)
            for s2, _ in op(E, s, cls, 'Measure', p):
                n += 1
                ms = s2.g['ms']
                E.oblige(s2, len(ms) in (0, 4), 'a measurement reports the four statistics or nothing', 'spec')
                for k, off in R.items():
                    w = writes(s2, off)
                    E.oblige(s2, len(w) <= 1 and all(e[0] == 'rmw' for e in w), 'the %s is taken by at most one atomic update' % k, 'spec')
                    for e in w:
                        E.oblige(s2, eq(e[3], 0), 'the %s is reset to zero' % k, 'spec')
                    mine = [v for i, v in ms if same_id(i, with_stat(ID0, strtok(k))) is True]
                    if ms:
                        E.oblige(s2, len(mine) == 1 and len(w) == 1, 'the %s is reported once under its statistic, and taken' % k, 'spec')
                        if len(mine) == 1 and len(w) == 1:
                            E.oblige(s2, eq(mine[0], expect(cls, k, w[0][2])), 'the reported %s is what was taken, in the unit reported' % k, 'spec')
                    elif w:
                        zero = eq(w[0][2], 0) if k == 'count' or (cls == 'Timer' and k != 'totalOfSquares') else feq(w[0][2], 0)
                        E.oblige(s2, zero, 'nothing taken from the %s goes unreported' % k, 'spec')
                w = writes(s2, R['count'])
                old = w[0][2] if w else s2.g.get('last:%d' % R['count'])
                if ms:
                    E.oblige(s2, b_not(eq(old, 0)), 'nothing is reported unless something was recorded', 'spec')
                else:
                    E.oblige(s2, False if old is None else eq(old, 0), 'nothing is reported only if nothing was recorded', 'spec')
                ids_stable(E, cls, s, s2, p)
        cover(E, cls + '::Measure', n >= 3)
    return f


def t_new(cls):
    def f(E):
        R = roles(E, cls)
        for s, p in new_meter(E, cls):
            for k, off in R.items():
                E.oblige(s, eq(E._as_bits(E.mread(s, p.obj, off, 8), 8), 0), 'a new %s has a zero %s' % (cls, k), 'spec')
    return f


def t_get(cls, fn, stat):
    def f(E):
        R = roles(E, cls)
        for nm, s, p in states(E, cls):
            I = Interference(E, p, None)
            for s2, r in op(E, s, cls, fn, p):
                E.oblige(s2, eq(r, s2.g.get('last:%d' % R[KINDS[cls] if stat == 'total' else stat], 1)), '%s::%s is the %s held' % (cls, fn, stat), 'spec')
                E.oblige(s2, not [w for o in R.values() for w in writes(s2, o)], '%s::%s changes nothing' % (cls, fn), 'frame')
    return f


def tasks(m):
    r = []
    for c in KINDS:
        r += [(c + '()', t_new(c)), (c + '::Measure', t_measure(c)), (c + '::Record', t_record(c, 'Record'))]
    r += [('Timer::Record(chrono)', t_record('Timer', 'RecordChrono')), ('Timer::Count', t_get('Timer', 'Count', 'count')), ('Timer::TotalTime', t_get('Timer', 'TotalTime', 'total')),
          ('DistributionSummary::Count', t_get('DistributionSummary', 'Count', 'count')),
          ('DistributionSummary::TotalAmount', t_get('DistributionSummary', 'TotalAmount', 'total'))]
    return r


HARNESS = harness('c05.cc', 'single amounts; every placement of an interfering Record/Measure before each atomic access of Record and Measure')
