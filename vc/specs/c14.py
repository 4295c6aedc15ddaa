"""C14: parse_line and get_measurement, for a line of any length and content.

get_measurement is checked against the grammar NAME[,KEY=VALUE]...:VALUE run as ghost code: the ghost position `at` is the
separator that ends what has been accepted so far; every tag added has to be the one that starts there.  parse_line is checked
against get_measurement's contract and contracts of the registry and the meters (C04 to C08, C17, C20, C25)."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State
from ..lib import contract
from . import logging as lg, text as tx
from .reg import *

SOURCES = [VERIF + '/vc/drivers/c14.cc', 'server/spectatord.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = tx.TRUSTED + lg.TRUSTED
ASSUMPTIONS = ['values whose conversion to a 64-bit integer is undefined (types A, D, t, T: NaN, infinite or beyond 2^63 after scaling) are outside the property',
               'a KEY is everything up to the next "=" (it may contain "," or ":")', 'lines are shorter than 2^40 bytes']
HARNESS = dict(srcs=[VERIF + '/harness/c14.cc'] + SERVER + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='fixed edge cases, then sequences of 1 to 6 generated lines (valid and mutated, all type letters, 0 to 29 tags, numbers of every form) against a reference registry driven through the meter API')
NPOS = tx.NPOS


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def k(E, n):
    return E.m.global_init('vc_' + n)[1][2]


# ------------------------------------------------------------------ tags and ids (C09, C11)
def at(E, st):
    return st.g['at']


@contract(r'^spectator::Tags::Tags\(\)$', H)
def _tags(E, st, a, c):
    p = E.to_ptr(a[0])
    st.absv[(p.obj, p.off)] = ('tags',)
    st.g['tags'] = st.g.get('tags', 0) + 1
    E.oblige(st, st.g['tags'] == 1, 'one tag set is built', 'spec')


@contract(r'^spectator::Tags::Tags\(spectator::Tags( const&|&&)\)$', H)
def _tagsc(E, st, a, c):
    p, q = E.to_ptr(a[0]), E.to_ptr(a[1])
    if st.absv.get((q.obj, q.off)) is None:
        raise Unsupported('copy of unknown tags')
    st.absv[(p.obj, p.off)] = ('copy',)
    st.g['copied'] = at(E, st)
    if '&&' in c.dem:
        st.absv[(q.obj, q.off)] = ('moved',)


@contract(r'^spectator::(Tags::~Tags|Id::~Id)\(\)$', H)
def _dtor(E, st, a, c):
    return None


@contract(r'^spectator::Tags::add\(std::basic_string_view<char[^()]*>, std::basic_string_view<char[^()]*>\)$', H)
def _add(E, st, a, c):
    L = E.opts['line']
    p = E.to_ptr(a[0])
    E.oblige(st, st.absv.get((p.obj, p.off)) == ('tags',), 'tags are added to the one tag set', 'spec')
    c0 = at(E, st)
    eqp = L.first(st, '=', c0 + 1)
    end = L.first(st, ',:', eqp + 1)
    E.oblige(st, z3.And(L.byte(st, c0) == ord(','), eqp != NPOS, end != NPOS), 'a tag is added only where the line has one', 'spec')
    kl, kp, vl, vp = bv(a[1], 64), a[2], bv(a[3], 64), a[4]
    E.oblige(st, z3.And(tx.is_at(E, kp, c0 + 1), kl == eqp - c0 - 1), 'the key added is the text up to =', 'spec')
    E.oblige(st, z3.And(tx.is_at(E, vp, eqp + 1), vl == end - eqp - 1), 'the value added is the text up to the next separator', 'spec')
    st.g['at'] = end


@contract(r'^spectator::intern_str\(std::basic_string_view<char[^()]*>\)$', H)
def _intern(E, st, a, c):
    L = E.opts['line']
    E.oblige(st, z3.And(tx.is_at(E, a[1], E.opts['base']), bv(a[0], 64) == E.opts['name'] - E.opts['base']), 'the name interned is the text up to the first separator', 'spec')
    return E.opts['nameref']


@contract(r'^spectator::Id::Id\(spectator::StrRef, spectator::Tags\)$', H)
def _id(E, st, a, c):
    p, n, t = [E.to_ptr(x) for x in a]
    E.oblige(st, isinstance(n, Ptr) and n.obj == E.opts['nameref'].obj and eq(n.off, 0) is True, 'the id has the name', 'spec')
    tok = st.absv.get((t.obj, t.off))
    E.oblige(st, tok in (('tags',), ('copy',)) and z(st.g['copied'] == at(E, st) if tok == ('copy',) else True), 'the id has all the tags added', 'spec')
    st.absv[(p.obj, p.off)] = ('id', at(E, st))


@contract(r'^spectator::Id::Id\(spectator::Id( const&|&&)\)$', H)
def _idc(E, st, a, c):
    p, q = E.to_ptr(a[0]), E.to_ptr(a[1])
    t = st.absv.get((q.obj, q.off))
    if t is None:
        raise Unsupported('copy of unknown id')
    st.absv[(p.obj, p.off)] = t
    if '&&' in c.dem:
        st.absv[(q.obj, q.off)] = ('moved',)


# ------------------------------------------------------------------ get_measurement
def t_get(isu):
    def run(E):
        st = State()
        L = tx.Line(E, st, ['=', ',:'])
        base = E.opts['base'] = fresh('base')
        st.assume(z3.ULE(base, L.n))
        E.opts['nameref'] = E.sym_obj(st, 'name', 8)
        ty = ord('U')
        if not isu:
            ty = fresh('type', 8)
            st.assume(ty != ord('U'))
        first = E.opts['name'] = L.first(st, ',:', base)
        st.g['at'], st.g['copied'] = first, z3.BitVecVal(0, 64)

        def spec(loop):
            def f(s, e):
                c = s.g['at']
                b = L.byte(s, z3.If(z3.ULT(c, L.n), c, L.n))
                return z3.And(z3.ULT(c, L.n), z3.Or(b == ord(','), b == ord(':')))
            return [('spec: at a separator', f)]
        E.loop_hooks.append(lambda lp: setattr(lp, 'spec', getattr(lp, 'spec', []) + [spec]))
        res, err = E.sym_obj(st, 'result', k(E, 'meas_size')), E.sym_obj(st, 'err_msg', 32)
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1(r'^spectatord::get_measurement'), [res, ty, L.n - base, Ptr(L.obj, base), err]):
            flag = bv(E._as_bits(E.mread(s, res.obj, k(E, 'inner'), 1), 1), 8)
            c0 = at(E, s)
            sep = L.byte(s, z3.If(z3.UGT(c0, L.n), L.n, c0))
            v, e = L.num(s, 'u' if isu else 'd', c0 + 1)
            eqp = L.first(s, '=', c0 + 1)
            end = L.first(s, ',:', eqp + 1)
            noname = z3.Or(first == NPOS, first == base)
            notag = z3.And(sep == ord(','), z3.Or(eqp == NPOS, end == NPOS))
            noval = z3.And(sep == ord(':'), e == c0 + 1)
            for f in (0, 1):
                t = s.copy()
                t.assume(flag == f)
                if not E.S.sat(t.pc):
                    continue
                seen.add(f)
                if f == 0:
                    E.oblige(t, z3.Or(noname, z3.And(z3.Not(noname), z3.Or(notag, noval))), 'no measurement only for a line without a name, with an unparsable tag or value', 'spec')
                else:
                    E.oblige(t, z3.And(z3.Not(noname), sep == ord(':'), e != c0 + 1), 'a measurement only for a line that has a name, parsable tags and value', 'spec')
                    tok = t.absv.get((res.obj, 0))
                    E.oblige(t, tok is not None and tok[0] == 'id' and z(tok[1] == c0), 'the measurement has the id of the line', 'spec')
                    E.oblige(t, bv(E._as_bits(E.mread(t, res.obj, k(E, 'val'), 8), 8), 64) == v, 'the measurement has the value of the line', 'spec')
            E.oblige(s, z3.Or(flag == 0, flag == 1), 'the result is set', 'spec')
        cover(E, 'measurement and none', seen == {0, 1})
    return run


# ------------------------------------------------------------------ parse_line
OKM = z3.Function('measurement', z3.BoolSort(), z3.BitVecSort(64), z3.BoolSort())
VAL = z3.Function('measurement.value', z3.BoolSort(), z3.BitVecSort(64), z3.BitVecSort(64))


@contract(r'^spectatord::get_measurement', H)
def _get(E, st, a, c):
    o = E.opts.get('pl')
    if o is None:
        return NotImplemented
    L = E.opts['line']
    res, ty, n, p = E.to_ptr(a[0]), bv(a[1], 8), bv(a[2], 64), a[3]
    off = L.off(p, 'measurement')
    E.oblige(st, z3.And(z3.ULE(off, L.n), n == L.n - off), 'the measurement is parsed from the rest of the line', 'spec')
    E.oblige(st, off == o['rest'], 'the measurement is parsed from behind the separator', 'spec')
    E.oblige(st, (ty == ord('U')) == (o['type'] == ord('U')), 'the value is parsed as the type of the line says', 'spec')
    u = o['type'] == ord('U')
    no = st.copy()
    no.assume(z3.Not(OKM(u, o['rest'])))
    E.mwrite(no, res.obj, add(res.off, k(E, 'inner')), 1, 0)
    st.assume(OKM(u, o['rest']))
    E.mwrite(st, res.obj, add(res.off, k(E, 'inner')), 1, 1)
    E.mwrite(st, res.obj, add(res.off, k(E, 'val')), 8, VAL(u, o['rest']))
    st.absv[(res.obj, res.off)] = ('lineid',)
    return [(st, None), (no, None)]


@contract(r'^spectator::Registry::Get(\w+)\(spectator::Id(, absl::(\w+::)?Duration)?\)$', H)
def _reg(E, st, a, c):
    o = E.opts['pl']
    kind = re.match(r'^spectator::Registry::Get(\w+)', c.dem).group(1)
    res, this, i = [E.to_ptr(x) for x in a[:3]]
    E.oblige(st, this.obj == o['reg'].obj and eq(this.off, 0) is True, 'the meter is one of the server\'s registry', 'spec')
    E.oblige(st, st.absv.get((i.obj, i.off)) == ('lineid',), 'the meter is the one with the id of the line', 'spec')
    ttl = None
    if 'Duration' in c.dem:
        ttl = (bv(a[3], 64), bv(a[4], 32))
    return meter(E, st, kind, res, ttl)


def meter(E, st, kind, res, ttl=None):
    m = E.sym_obj(st, kind, 4096)
    E.opts.setdefault('meters', {})[m.obj] = kind
    st.g['got'] = st.g.get('got', ()) + ((kind, ttl),)
    if res is None:
        return m
    E.mwrite(st, res.obj, res.off, 8, m)
    E.mwrite(st, res.obj, add(res.off, 8), 8, Ptr(None, 0))


@contract(r'^spectatord::expiring_cache<spectator::(\w+)>::get_or_create\(spectator::Registry\*, spectator::Id\)$', H)
def _cache(E, st, a, c):
    o = E.opts['pl']
    kind = re.search(r'<spectator::(\w+)>', c.dem).group(1)
    this, r, i = [E.to_ptr(x) for x in a]
    want = k(E, 'timers' if kind == 'PercentileTimer' else 'ds')
    E.oblige(st, this.obj == o['server'].obj and eq(this.off, want) is True and r.obj == o['reg'].obj, 'the percentile meter comes from the server\'s cache and registry', 'spec')
    E.oblige(st, st.absv.get((i.obj, i.off)) == ('lineid',), 'the meter is the one with the id of the line', 'spec')
    return meter(E, st, kind, None)


@contract(r'^std::(__)?shared_ptr<spectator::\w+[^()]*>::(~shared_ptr|~__shared_ptr)\(\)$', H)
def _spd(E, st, a, c):
    return None


@contract(r'^spectator::(Counter|MonotonicCounter|MonotonicCounterUint|MonotonicSampled|DistributionSummary|Timer|Gauge|MaxGauge|AgeGauge|PercentileTimer|PercentileDistributionSummary)::(\w+)\(([^()]*)\)( const)?$', H)
def _upd(E, st, a, c):
    m = re.match(r'^spectator::(\w+)::(\w+)\(([^()]*)\)', c.dem)
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or E.opts.get('meters', {}).get(p.obj) != m.group(1):
        raise Unsupported('update of an unknown meter')
    if m.group(1) == 'Counter' and m.group(2) == 'Increment':
        return NotImplemented
    args = []
    for x in a[1:]:
        args.append(x)
    st.g['upd'] = st.g.get('upd', ()) + ((m.group(1), m.group(2), m.group(3), tuple(args)),)


@contract(r'^absl::(\w+::)?GetCurrentTimeNanos\(\)$', H)
def _now(E, st, a, c):
    t = fresh('now')
    st.g['now'] = st.g.get('now', ()) + (t,)
    return t


@contract(r'^spectator::Registry::Size\(\) const$', H)
def _size(E, st, a, c):
    return fresh('size')


LETTERS = 'AcCdDgmtTUX'


def t_line(letter):
    def run(E):
        st = State()
        L = tx.Line(E, st, [])
        ty = L.byte(st, 0)
        if letter == 'other':
            st.assume(z3.And(*[ty != ord(x) for x in LETTERS]))
        else:
            st.assume(ty == ord(letter))
        reg = E.sym_obj(st, 'registry', 4096)
        server = E.sym_obj(st, 'server', k(E, 'server_size'))
        E.mwrite(st, server.obj, k(E, 'registry'), 8, reg)
        b1 = L.byte(st, z3.If(L.n == 0, L.n, z3.BitVecVal(1, 64)))
        given = z3.And(L.n != 0, b1 == ord(','))
        iv, ie = L.num(st, 'i', z3.If(given, z3.BitVecVal(2, 64), L.n))
        extra = z3.If(given, iv, z3.BitVecVal(0, 64))
        q = z3.If(L.n == 0, z3.BitVecVal(0, 64), z3.If(given, ie, z3.BitVecVal(1, 64)))
        sep = L.byte(st, q)
        rest = q + 1
        E.opts['pl'] = dict(reg=reg, server=server, type=ty, rest=rest)
        st.g['logger'] = E.sym_obj(st, 'logger', 4096)
        res = E.sym_obj(st, 'result', k(E, 'optstr_size'))
        u = ty == ord('U')
        lim = ((1 << 63) - 1) // 1000000
        bad = z3.Or(L.n == 0, sep != ord(':'), z3.Not(OKM(u, rest)), z3.BoolVal(letter == 'other'))
        if letter == 'g':
            bad = z3.Or(bad, z3.And(given, extra <= 0))
        if letter == 'X':
            bad = z3.Or(bad, extra <= 0, extra > lim)
        v = VAL(u, rest)
        nanos = fptosi(fmul(v, d2b(1e9)))
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1(r'^spectatord::Server::parse_line\b(?!s)'), [res, server, L.p]):
            flag = bv(E._as_bits(E.mread(s, res.obj, k(E, 'str_size'), 1), 1), 8)
            E.oblige(s, z3.Or(flag == 0, flag == 1), 'the result is set', 'spec')
            upd, got = s.g.get('upd', ()), s.g.get('got', ())
            for f in (0, 1):
                t = s.copy()
                t.assume(flag == f)
                if not E.S.sat(t.pc):
                    continue
                seen.add(f)
                if f == 1:
                    E.oblige(t, bad, 'an error only for a line that is not of the protocol', 'spec')
                    E.oblige(t, not upd and not got, 'a line in error updates nothing', 'spec')
                    continue
                E.oblige(t, z3.Not(bad), 'a line that is not of the protocol is reported as an error', 'spec')
                if not E.oblige(t, len(upd) == 1 and len(got) == 1, 'exactly one update of exactly one meter', 'spec'):
                    continue
                cls, meth, sig, args = upd[0]
                name = 'the update is the one the type letter selects, with the value of the line'
                gk, ttl = got[0]
                w = dict(c=('Counter', 'Add'), C=('MonotonicCounter', 'Set'), d=('DistributionSummary', 'Record'), D=('PercentileDistributionSummary', 'Record'), g=('Gauge', 'Set'), m=('MaxGauge', 'Update'),
                         t=('Timer', 'Record'), T=('PercentileTimer', 'Record'), U=('MonotonicCounterUint', 'Set'), X=('MonotonicSampled', 'Set'), A=('AgeGauge', 'UpdateLastSuccess')).get(letter)
                if not E.oblige(t, (cls, meth) == w, 'the update is of the kind the type letter selects', 'spec'):
                    continue
                if letter in 'cCdgmU':
                    E.oblige(t, len(args) == 1 and bv(args[0], 64) == v, name, 'spec')
                elif letter == 'D':
                    E.oblige(t, bv(args[0], 64) == fptosi(v), name, 'spec')
                elif letter in 'tT':
                    if 'nano' not in sig and '1000000000l' not in sig:
                        raise Unsupported('duration %s' % sig)
                    E.oblige(t, bv(args[0], 64) == nanos, name, 'spec')
                elif letter == 'X':
                    E.oblige(t, z3.And(bv(args[0], 64) == v, bv(args[1], 64) == extra * 1000000), name, 'spec')
                elif letter == 'A':
                    iszero = feq(v, 0)
                    E.oblige(t, z3.If(z(iszero), z3.Or(*[bv(args[0], 64) == x for x in t.g.get('now', ())]), bv(args[0], 64) == nanos), name, 'spec')
                if letter == 'g':
                    E.oblige(t, z(z3.And(extra > 0, ttl[0] == extra, ttl[1] == 0) if ttl is not None else z3.Not(given)), 'a gauge gets the TTL given, in seconds, and keeps its own without one', 'spec')
                else:
                    E.oblige(t, ttl is None, 'only gauges have a TTL', 'spec')
        cover(E, 'letter ' + letter, seen == ({0, 1} if letter != 'other' else {1}))
    return run


HANDLERS = H + tx.HANDLERS + lg.HANDLERS


def tasks(m):
    return [('get_measurement U', t_get(True)), ('get_measurement other', t_get(False))] + [('parse_line ' + x, t_line(x)) for x in list(LETTERS) + ['other']]
