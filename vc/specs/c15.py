"""C15: parse_statsd_line, for a line of any length and content.

The grammar NAME:VALUE|TYPE[|@RATE][|#TAG[:VALUE],...] is run as ghost code: `at` is where the first tag not yet added begins
(one beyond the end of the line when there is none); every tag added has to be the one that starts there."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State
from ..lib import contract
from . import logging as lg, text as tx, c14
from .reg import *

SOURCES = [VERIF + '/vc/drivers/c15.cc', 'server/spectatord.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = tx.TRUSTED + lg.TRUSTED + ['lround: a function of its argument, at least 1 for the inverse of a rate in (0, 1]']
ASSUMPTIONS = ['the inverse of the rate and a timing in nanoseconds fit a 64-bit integer (their conversion is undefined otherwise)', 'lines are shorter than 2^40 bytes',
               'characters that follow the type, or stand between parts, and are not part of the protocol are ignored (as the code does)']
HARNESS = dict(srcs=[VERIF + '/harness/c15.cc'] + SERVER + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='fixed edge cases, then sequences of 1 to 6 generated statsd lines (valid and mutated, all types, rates down to 1e-5, 0 to 29 tags) against a reference registry driven through the meter API')
NPOS = tx.NPOS
k, cover = c14.k, c14.cover
F1, F2 = ',', ''.join(sorted(',:'))


def tag(L, st, a):
    """(key length, position of the value, its length, has a value, end) of the tag that begins at a <= n"""
    s = L.first(st, F2, a)
    sep = z3.If(s == NPOS, L.n, s)
    has = z3.And(s != NPOS, L.byte(st, sep) == ord(':'))
    e = L.first(st, F1, z3.If(has, sep + 1, L.n))
    end = z3.If(has, z3.If(e == NPOS, L.n, e), sep)
    return sep - a, sep + 1, end - sep - 1, has, end


@contract(r'^spectator::Tags::add\(std::basic_string_view<char[^()]*>, std::basic_string_view<char[^()]*>\)$', H)
def _add(E, st, a, c):
    L = E.opts['line']
    p = E.to_ptr(a[0])
    E.oblige(st, st.absv.get((p.obj, p.off)) == ('tags',), 'tags are added to the one tag set', 'spec')
    c0 = st.g['at']
    E.oblige(st, z3.And(E.opts['hastags'], z3.ULE(c0, L.n)), 'a tag is added only where the line has one', 'spec')
    wk, wp, wv, has, end = tag(L, st, c0)
    kl, kp, vl, vp = bv(a[1], 64), a[2], bv(a[3], 64), E.to_ptr(a[4])
    E.oblige(st, z3.And(tx.is_at(E, kp, c0), kl == wk, kl != 0), 'the key added is the text up to : or the end of the tag, and not empty', 'spec')
    if isinstance(vp, Ptr) and vp.obj == L.obj:
        E.oblige(st, z3.And(has, tx.is_at(E, vp, wp), vl == wv, vl != 0), 'the value added is the rest of the tag, and not empty', 'spec')
    else:
        s = E.cstring(st, vp)
        E.oblige(st, z3.And(z3.Not(has), vl == 1, z3.BoolVal(s is not None and s[:1] == b'1')), 'a tag without a value gets the value 1', 'spec')
    st.g['at'] = end + 1


@contract(r'^spectator::Id::Id\(spectator::StrRef, spectator::Tags\)$', H)
def _id(E, st, a, c):
    p, n, t = [E.to_ptr(x) for x in a]
    E.oblige(st, isinstance(n, Ptr) and n.obj == E.opts['nameref'].obj and eq(n.off, 0) is True, 'the id has the name', 'spec')
    tok = st.absv.get((t.obj, t.off))
    E.oblige(st, tok in (('tags',), ('copy',)) and z(st.g['copied'] == st.g['at'] if tok == ('copy',) else True), 'the id has all the tags added', 'spec')
    E.oblige(st, z3.Or(z3.Not(E.opts['hastags']), st.g['at'] == E.opts['line'].n + 1), 'the id has all the tags of the line', 'spec')
    st.absv[(p.obj, p.off)] = ('lineid',)


@contract(r'^spectator::(Counter|DistributionSummary|Timer|Gauge)::(\w+)\(([^()]*)\)$', H)
def _upd(E, st, a, c):
    m = re.match(r'^spectator::(\w+)::(\w+)\(([^()]*)\)', c.dem)
    o = E.opts['pl']
    p = E.to_ptr(a[0])
    cls, meth, sig = m.groups()
    if cls == 'Counter' and meth == 'Increment':
        return NotImplemented
    if not isinstance(p, Ptr) or E.opts.get('meters', {}).get(p.obj) != cls:
        raise Unsupported('update of an unknown meter')
    if not E.oblige(st, z3.BoolVal((o['type'], cls, meth) in (('c', 'Counter', 'Add'), ('g', 'Gauge', 'Set'), ('h', 'DistributionSummary', 'Record'), ('m', 'Timer', 'Record'))), 'the update is of the kind the type selects', 'spec'):
        return
    v = bv(a[1], 64)
    name = 'the update has the value of the line'
    rate, val = o['rate'], o['value']
    if o['type'] == 'c':
        E.oblige(st, z3.Or(*[v == w for w in ([fdiv(val, rate)] if True else [])] + [z3.And(rate == bv(d2b(1.0), 64), v == val)]), name, 'spec')
    elif o['type'] == 'm':
        if 'nano' not in sig and '1000000000l' not in sig:
            raise Unsupported('duration %s' % sig)
        E.oblige(st, v == LR(bv(fmul(val, d2b(1e6)), 64)), name, 'spec')
    else:
        E.oblige(st, v == val, name, 'spec')
    st.g['count'] = bv(st.g['count'], 64) + 1


LR = z3.Function('lround', z3.BitVecSort(64), z3.BitVecSort(64))


@contract(r'^(l?lround|std::l?lround\(double\)|llvm\.l?lround\.i64\.f64)$', H)
def _lround(E, st, a, c):
    return LR(bv(a[0], 64))


@contract(r'^std::optional<.*>::optional<', H)
def _optstr(E, st, a, c):
    """optional<string>(text): engaged"""
    p = E.to_ptr(a[0])
    if 'basic_string' not in c.dem:
        return NotImplemented
    E.mwrite(st, p.obj, add(p.off, k(E, 'str_size')), 1, 1)


def inv(L):
    """relations of the positions in the line and where the current tag begins"""
    def spec(loop):
        line = loop.E.opts['line']
        hv = [h for h in loop.hvars() if h.kind in ('phi', 'cell') and h.w == 64] + [h for h in loop.hvars() if h.kind == 'ghost' and h.key == 'at']
        r = []

        def off(h, s, e):
            v = h.get(loop.E, s, e)
            if h.kind == 'ghost':
                return bv(v, 64)
            return bv(v.off, 64) if isinstance(v, Ptr) and v.obj == line.obj else None

        def isnull(h, s, e):
            v = h.get(loop.E, s, e)
            return True if isinstance(v, Ptr) and v.obj is None else False if isinstance(v, Ptr) and v.obj == line.obj else None
        nullable = [h for h in hv if h.kind != 'ghost']
        conds = [('', lambda s, e: True)]
        def both(h):
            sh = loop.phi_objs[h.key] if h.kind == 'phi' else loop.cells[h.key][1]
            return ('obj', None) in sh and ('obj', line.obj) in sh
        for h in [h for h in nullable if both(h)]:
            conds += [(' if %r null' % h, lambda s, e, h=h: isnull(h, s, e) is True), (' if %r set' % h, lambda s, e, h=h: isnull(h, s, e) is False)]

        def cand(nm, f, cn, cf):
            def g(s, e):
                if not cf(s, e):
                    return True
                return f(s, e)
            r.append(('spec: ' + nm + cn, g))
        G1, G2 = line.sets[F1], line.sets[F2]
        for a in hv:
            for b in hv:
                if a is b:
                    continue

                def two(rel, a=a, b=b):
                    def f(s, e):
                        x, y = off(a, s, e), off(b, s, e)
                        return True if x is None or y is None else rel(x, y)
                    return f
                for cn, cf in conds:
                    if id(a) < id(b):
                        cand('%r =, %r' % (a, b), two(lambda x, y: G1(x) == G1(y)), cn, cf)
                        cand('%r =,: %r' % (a, b), two(lambda x, y: G2(x) == G2(y)), cn, cf)
                        cand('%r = %r' % (a, b), two(lambda x, y: x == y), cn, cf)
                    cand('%r = %r + 1' % (a, b), two(lambda x, y: x == y + 1), cn, cf)
                    cand('%r = first(%r)' % (a, b), two(lambda x, y: x == G2(y)), cn, cf)
                    cand('%r <= %r' % (a, b), two(lambda x, y: z3.ULE(x, y)), cn, cf)
        for a in hv:
            def inl(s, e, a=a):
                x = off(a, s, e)
                return True if x is None else z3.ULE(x, line.n)
            r.append(('spec: %r within the line' % a, inl))
        return r
    return spec


def prefix(E, st, L, letter, case):
    """the line up to its type is / is not of the protocol; -> (value, position behind the type) or None"""
    colon = E.opts['name'] = L.first(st, ':', z3.BitVecVal(0, 64))
    noname = z3.Or(colon == NPOS, colon == 0)
    if case == 'no name':
        st.assume(noname)
        return None
    st.assume(z3.Not(noname))
    val, e = L.num(st, 'd', colon + 1)
    if case == 'no value':
        st.assume(e == colon + 1)
        return None
    st.assume(e != colon + 1)
    b = L.byte(st, e)
    if case == 'no type':
        st.assume(b != ord('|'))
        return None
    st.assume(b == ord('|'))
    ty = L.byte(st, e + 1)
    if letter == 'other':
        st.assume(z3.And(*[ty != ord(x) for x in 'cghsm']))
        return None
    st.assume(ty == ord(letter))
    q = e + 2
    if letter == 'm':
        b = L.byte(st, q)
        if case == 'm but not ms':
            st.assume(b != ord('s'))
            return None
        st.assume(b == ord('s'))
        q = e + 3
    return val, q


PREFIX = ['no name', 'no value', 'no type']
REST = ['no more', 'no rate, no tags', 'no rate, tags', 'bad rate', 'rate, no bar, no tags', 'rate, no bar, tags', 'rate, bar, no tags', 'rate, bar, tags']


def rest(st, L, q, case):
    """-> (rate, position of the first tag or None) or None if the rate is bad"""
    one = bv(d2b(1.0), 64)
    b = L.byte(st, q)
    if case == 'no more':
        st.assume(b != ord('|'))
        return one, None
    st.assume(b == ord('|'))
    b = L.byte(st, q + 1)
    if case.startswith('no rate'):
        st.assume(b != ord('@'))
        t0, rate = q + 1, one
    else:
        st.assume(b == ord('@'))
        rate, e = L.num(st, 'd', q + 2)
        good = z3.And(e != q + 2, z(b_not(f_isnan(rate))), z(flt(d2b(0.0), rate)), z(b_not(flt(d2b(1.0), rate))))
        if case == 'bad rate':
            st.assume(z3.Not(good))
            return None
        st.assume(good)
        b = L.byte(st, e)
        bar = ', bar' in case
        st.assume((b == ord('|')) if bar else (b != ord('|')))
        t0 = e + 1 if bar else e
    b = L.byte(st, t0)
    tags = 'no tags' not in case
    st.assume((b == ord('#')) if tags else (b != ord('#')))
    return rate, (t0 + 1 if tags else None)


def t_line(letter, case):
    def run(E):
        st = State()
        L = tx.Line(E, st, [':', F1, F2])
        E.opts['nameref'] = E.sym_obj(st, 'name', 8)
        E.opts['base'] = z3.BitVecVal(0, 64)
        reg = E.sym_obj(st, 'registry', 4096)
        server = E.sym_obj(st, 'server', k(E, 'server_size'))
        E.mwrite(st, server.obj, k(E, 'registry'), 8, reg)
        st.g['logger'] = E.sym_obj(st, 'logger', 4096)
        ok, val, rate, t0 = False, None, bv(d2b(1.0), 64), None
        r = prefix(E, st, L, letter, case)
        if r is not None:
            val, q = r
            r = rest(st, L, q, case)
            if r is not None:
                ok = True
                rate, t0 = r
        hastags = t0 is not None
        E.opts['hastags'] = z3.BoolVal(hastags)
        st.g['at'], st.g['copied'], st.g['count'] = t0 if hastags else L.n + 1, z3.BitVecVal(0, 64), z3.BitVecVal(0, 64)
        reps = LR(bv(fdiv(d2b(1.0), rate), 64))
        E.opts['pl'] = dict(reg=reg, server=server, type=letter if ok else None, rate=rate, value=val)
        st.assume(reps >= 1)
        st.assume(LR(bv(d2b(1.0), 64)) == 1)
        E.loop_hooks.append(lambda lp: setattr(lp, 'spec', getattr(lp, 'spec', []) + [inv(L)]))
        res = E.sym_obj(st, 'result', k(E, 'optstr_size'))
        if not E.S.sat(st.pc):
            raise Unsupported('contradictory case')
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1(r'^spectatord::Server::parse_statsd_line\b(?!s)'), [res, server, L.p]):
            flag = bv(E._as_bits(E.mread(s, res.obj, k(E, 'str_size'), 1), 1), 8)
            E.oblige(s, z3.Or(flag == 0, flag == 1), 'the result is set', 'spec')
            cnt, got = bv(s.g['count'], 64), s.g.get('got', ())
            for f in (0, 1):
                t = s.copy()
                t.assume(flag == f)
                if not E.S.sat(t.pc):
                    continue
                seen.add(f)
                at = t.g['at']
                if f == 1:
                    bad = z3.BoolVal(not ok)
                    if hastags:
                        a = z3.If(z3.ULE(at, L.n), at, L.n)
                        wk, wp, wv, has, end = tag(L, t, a)
                        bad = z3.And(z3.ULE(at, L.n), z3.Or(wk == 0, z3.And(has, wv == 0)))
                    E.oblige(t, bad, 'an error only for a line that is not of the protocol', 'spec')
                    E.oblige(t, z3.And(cnt == 0, z3.BoolVal(not got)), 'a line in error updates nothing', 'spec')
                    continue
                E.oblige(t, z3.BoolVal(ok), 'a line that is not of the protocol is reported as an error', 'spec')
                E.oblige(t, at == L.n + 1, 'every tag of the line is looked at', 'spec')
                if letter == 's':
                    E.oblige(t, z3.And(cnt == 0, z3.BoolVal(not got)), 'a set updates nothing', 'spec')
                    continue
                if not E.oblige(t, len(got) == 1, 'exactly one meter is updated', 'spec'):
                    continue
                E.oblige(t, got[0][1] is None, 'no time-to-live is given', 'spec')
                E.oblige(t, cnt == (reps if letter in 'hm' else 1), 'the value is recorded as many times as the rounded inverse of the rate' if letter in 'hm' else 'exactly one update', 'spec')
        cover(E, 'type %s, %s' % (letter, case), seen == ({1} if not ok else {0, 1} if hastags else {0}))
    return run


HANDLERS = H + c14.H + tx.HANDLERS + lg.HANDLERS


def tasks(m):
    r = [('statsd line with %s' % c, t_line('c', c)) for c in PREFIX] + [('statsd line of unknown type', t_line('other', '')), ('statsd line of type m but not ms', t_line('m', 'm but not ms'))]
    return r + [('statsd line of type %s, %s' % ('ms' if x == 'm' else x, c), t_line(x, c)) for x in 'cghsm' for c in REST]
