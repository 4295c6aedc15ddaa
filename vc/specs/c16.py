"""C16: parse_lines, for a packet of any length and content and any parser of single lines.

Ghost code splits the packet: `at` is where the next line not yet parsed begins (n when there is none left), `want` the text
of the errors so far.  The only change to the packet the contract allows is a NUL in place of the newline that ends the line
at `at`; what the code reads before that place is unknown to it."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State, Mem
from ..lib import contract
from . import logging as lg, text as tx, c14
from .reg import *

SOURCES = [VERIF + '/vc/drivers/c16.cc', 'server/spectatord.cc', 'spectator/registry.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = ['strchr, std::string_view: the position of the first such character (ISO C++)', 'std::string: copy, assignment, append, empty are those of a sequence of characters', 'std::function calls the function it holds'] + lg.TRUSTED
ASSUMPTIONS = ['the parser of a line reports errors as nonempty text and does not change the packet (C14, C15)', 'packets are shorter than 2^40 bytes',
               'an empty line at the very start of a packet may be skipped or parsed (the property speaks of empty lines between lines)']
HARNESS = dict(srcs=[VERIF + '/harness/c16.cc'] + SERVER + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='generated packets (0 to 400 lines, runs of empty lines, with and without a final newline) through parse_lines with a recording parser, through parse and parse_statsd, status metrics on and off')
NPOS = tx.NPOS
LIMIT = 200
k, cover = c14.k, c14.cover
BV = z3.BitVecSort(64)
SKIP = z3.Function('skip', BV, BV)
JUNK = z3.Function('overwritten', BV, BV, z3.BitVecSort(8))
CH = z3.Function('text.append_char', BV, z3.BitVecSort(8), BV)
ST = z3.Function('text.append', BV, BV, BV)
EMPTY = z3.BitVecVal(0, 64)


class Packet(tx.Line):
    """the packet; st.g['nul'] is one beyond the last newline replaced by NUL (0 for none)"""
    def __init__(self, E, st):
        tx.Line.__init__(self, E, st, ['\n'])
        E.objs[self.obj].facts.clear()
        self.orig = z3.Function('mem!%s!1' % self.obj, BV, z3.BitVecSort(8))
        st.g['nul'] = z3.BitVecVal(0, 64)
        st.mem[self.obj] = Mem((), ('fn', self.read))
        E.objs[self.obj].onwrite = self.write

    def byte(self, st, off):
        off = bv(off, 64)
        b = self.orig(off)
        st.assume(tx.Line.facts(self, self.E, st, off, 1, b))
        st.assume(z3.Implies(z3.ULE(off, self.n), SKIP(off) == z3.If(z3.And(off != self.n, b == 10), SKIP(off + 1), off)))
        return b

    def skip(self, st, x):
        r = SKIP(x)
        st.assume(z3.Implies(z3.ULE(x, self.n), z3.And(z3.ULE(x, r), z3.ULE(r, self.n))))
        b = self.byte(st, r)
        st.assume(z3.Implies(z3.ULE(x, self.n), b != 10))
        self.byte(st, z3.If(z3.ULE(x, self.n), x, self.n))
        return r

    def read(self, E, st, off, w):
        if w != 1:
            raise Unsupported('wide read of the packet')
        off = bv(off, 64)
        b = self.byte(st, off)
        nul = bv(st.g['nul'], 64)
        return z3.If(off + 1 == nul, z3.BitVecVal(0, 8), z3.If(z3.UGE(off, nul), b, JUNK(off, nul)))

    def write(self, E, st, off, w, v):
        off = bv(off, 64)
        if w != 1:
            raise Unsupported('wide write to the packet')
        at = bv(st.g['at'], 64)
        end = self.first(st, '\n', at)
        lead = z3.And(off == 0, self.orig(z3.BitVecVal(0, 64)) == 10, st.g['first'])
        E.oblige(st, z3.And(bv(v, 8) == 0, z3.UGE(off, bv(st.g['nul'], 64)), z3.Or(lead, z3.And(off == end, end != NPOS))), 'the packet is changed only where a line ends', 'spec')
        st.g['nul'] = off + 1
        return True


@contract(r'^strchr$|^std::strchr\(|^(std::)?(strchr|index)\(char( const)?\*, int\)$', H)
def _strchr(E, st, a, c):
    L = E.opts.get('line')
    if L is None:
        return NotImplemented
    p = L.off(a[0], 'strchr')
    E.oblige(st, z3.ULE(p, L.n), 'search starts within the packet', 'bounds')
    if a[1] != 10:
        raise Unsupported('character searched for')
    E.oblige(st, z3.UGE(p, bv(st.g['nul'], 64)), 'the search starts behind the lines already split off', 'bounds')
    L.byte(st, p)
    r = L.first(st, '\n', p)
    no = st.copy()
    no.assume(r == NPOS)
    st.assume(r != NPOS)
    return [(st, Ptr(L.obj, r)), (no, Ptr(None, 0))]


def parser_call(E, st, res, p, which=None):
    """one line is parsed: p has to be the next line, NUL-terminated where it ends"""
    L = E.opts['line']
    at, nul = bv(st.g['at'], 64), bv(st.g['nul'], 64)
    off = L.off(p, 'line parsed')
    end = L.first(st, '\n', off)
    stop = z3.If(end == NPOS, L.n, end)
    lead = z3.And(off == 0, L.byte(st, z3.BitVecVal(0, 64)) == 10, st.g['first'])
    E.oblige(st, z3.Or(lead, z3.And(off == at, z3.ULT(at, L.n))), 'every line is parsed once, in order, and empty lines are skipped', 'spec')
    E.oblige(st, z3.Or(stop == L.n, nul == stop + 1), 'the line parsed ends where the line of the packet ends', 'spec')
    nxt = z3.If(end == NPOS, L.n, L.skip(st, z3.If(end == NPOS, L.n, end + 1)))
    st.g['at'] = nxt
    st.g['first'] = z3.BoolVal(False)
    bad, err = fresh('failed', 1), fresh('error')
    st.assume(err != EMPTY)
    E.mwrite(st, res.obj, add(res.off, k(E, 'str_size')), 1, z3.If(bad, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    E.mwrite(st, res.obj, res.off, 8, err)
    w = bv(st.g['want'], 64)
    nl = CH(w, z3.BitVecVal(10, 8))
    st.assume(z3.And(nl != EMPTY, ST(nl, err) != EMPTY))
    st.g['want'] = z3.If(bad, z3.If(w == EMPTY, err, ST(nl, err)), w)
    st.g['good'] = bv(st.g['good'], 64) + z3.If(bad, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))
    st.g['bad'] = bv(st.g['bad'], 64) + z3.If(bad, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


@contract(r'^std::function<std::optional<std::(__cxx11::)?basic_string<char.*>\s*> \(char\*\)>::operator\(\)\(char\*\) const$', H)
def _parser(E, st, a, c):
    if E.opts.get('whole'):
        return NotImplemented
    res, f = E.to_ptr(a[0]), E.to_ptr(a[1])
    if f.obj != E.opts['parser'].obj:
        raise Unsupported('call of another function')
    parser_call(E, st, res, a[2])


@contract(r'^spectator::Counter::Increment\(\)$', H)
def _inc(E, st, a, c):
    p = E.to_ptr(a[0])
    for n in ('parsed', 'errors'):
        if isinstance(p, Ptr) and p.obj == E.opts[n].obj:
            st.g['n' + n] = bv(st.g['n' + n], 64) + 1
            return
    raise Unsupported('increment of an unknown counter')


# ---- the text of the errors: a std::string object holds its content as one abstract word
def val(E, st, a):
    p = E.to_ptr(a)
    return bv(E._as_bits(E.mread(st, p.obj, p.off, 8), 8), 64)


def put(E, st, a, v):
    p = E.to_ptr(a)
    E.mwrite(st, p.obj, p.off, 8, v)


STR = r'^std::(__cxx11::)?basic_string<char[^()]*>::'


@contract(STR + r'basic_string\(\)$', H)
def _s0(E, st, a, c):
    put(E, st, a[0], EMPTY)


@contract(STR + r'(basic_string|operator=|assign)\(std::(__cxx11::)?basic_string<char[^()]*>( const&|&&)\)$', H)
def _scopy(E, st, a, c):
    put(E, st, a[0], val(E, st, a[1]))
    if '&&' in c.dem:
        put(E, st, a[1], fresh('moved'))
    return a[0] if 'operator' in c.dem or 'assign' in c.dem else None


@contract(STR + r'(operator\+=|append)\(std::(__cxx11::)?basic_string<char[^()]*> const&\)$', H)
def _sapp(E, st, a, c):
    x, y = val(E, st, a[0]), val(E, st, a[1])
    st.assume(z3.And(ST(EMPTY, y) == y, z3.Implies(y != EMPTY, ST(x, y) != EMPTY), ST(x, EMPTY) == x))
    put(E, st, a[0], ST(x, y))
    return a[0]


@contract(STR + r'(operator\+=\(char\)|push_back\(char\))$', H)
def _schr(E, st, a, c):
    x = val(E, st, a[0])
    r = CH(x, bv(a[1], 8))
    st.assume(r != EMPTY)
    put(E, st, a[0], r)
    return a[0] if 'operator' in c.dem else None


@contract(STR + r'(operator\+=|append)\(char const\*\)$', H)
def _scs(E, st, a, c):
    s = E.cstring(st, a[1])
    if s is None:
        raise Unsupported('text appended')
    x = val(E, st, a[0])
    for ch in s:
        x = CH(x, z3.BitVecVal(ch, 8))
        st.assume(x != EMPTY)
    put(E, st, a[0], x)
    return a[0]


@contract(STR + r'empty\(\) const$', H)
def _sempty(E, st, a, c):
    return val(E, st, a[0]) == EMPTY


LEN = z3.Function('text.length', BV, BV)


@contract(STR + r'(size|length)\(\) const$', H)
def _slen(E, st, a, c):
    v = val(E, st, a[0])
    st.assume((LEN(v) == 0) == (v == EMPTY))
    return LEN(v)


@contract(STR + r'~basic_string\(\)$', H)
def _sdel(E, st, a, c):
    return None


@contract(STR, H)
def _sother(E, st, a, c):
    raise Unsupported('use of a string')


def inv(loop):
    E = loop.E
    L = E.opts['line']
    r = []

    def off(h, s, e):
        v = h.get(E, s, e)
        return bv(v.off, 64) if isinstance(v, Ptr) and v.obj == L.obj else None
    g = lambda s, n: bv(s.g[n], 64)
    for h in [h for h in loop.hvars() if h.kind in ('phi', 'cell') and h.w == 64]:
        for d in (0, 1):
            def c(rel, h=h, d=d):
                def f(s, e):
                    x = off(h, s, e)
                    return True if x is None else rel(s, x + d)
                return f
            n = 'spec: %r+%d ' % (h, d)
            r.append((n + 'then empty lines, then the next line', c(lambda s, x: z3.Or(SKIP(x) == g(s, 'at'), z3.And(s.g['first'], x == 0)))))
            r.append((n + 'is the next line', c(lambda s, x: z3.Or(x == g(s, 'at'), z3.And(s.g['first'], x == 0)))))
            r.append((n + 'behind what was changed', c(lambda s, x: z3.ULE(g(s, 'nul'), x))))
            r.append((n + 'in the packet', c(lambda s, x: z3.ULE(x, L.n))))
            r.append((n + 'not before', c(lambda s, x: z3.ULE(x, g(s, 'at')))))
            r.append((n + 'not behind an empty line', c(lambda s, x: z3.Or(s.g['first'], L.orig(x) != 10))))
    r.append(('spec: next line in the packet', lambda s, e: z3.And(z3.ULE(g(s, 'at'), L.n), L.orig(g(s, 'at')) != 10, SKIP(g(s, 'at')) == g(s, 'at'))))
    r.append(('spec: at first nothing was changed', lambda s, e: z3.Implies(s.g['first'], z3.And(g(s, 'nul') == 0, g(s, 'at') == SKIP(z3.BitVecVal(0, 64))))))
    for h in [h for h in loop.hvars() if h.kind == 'cell' and h.w == 64]:
        def f(s, e, h=h):
            v = h.get(E, s, e)
            return bv(v, 64) == g(s, 'want') if isc(v) or z3.is_bv(v) else None
        r.append(('spec: %r is the text of the errors' % h, f))
    for a, b in (('nparsed', 'good'), ('nerrors', 'bad')):
        r.append(('spec: %s = %s' % (a, b), lambda s, e, a=a, b=b: g(s, a) == g(s, b)))
    return r


def setup(E, st, status):
    L = Packet(E, st)
    reg = E.sym_obj(st, 'registry', k(E, 'registry_size'))
    cfg = E.sym_obj(st, 'config', k(E, 'config_size'))
    server = E.sym_obj(st, 'server', k(E, 'server_size'))
    E.mwrite(st, server.obj, k(E, 'registry'), 8, reg)
    E.mwrite(st, reg.obj, k(E, 'config'), 8, cfg)
    E.mwrite(st, cfg.obj, k(E, 'status'), 1, int(status))
    for n in ('parsed', 'errors'):
        E.opts[n] = E.sym_obj(st, n, 4096)
        E.mwrite(st, server.obj, k(E, n), 8, E.opts[n])
        st.g['n' + n] = z3.BitVecVal(0, 64)
    for n in ('good', 'bad'):
        st.g[n] = z3.BitVecVal(0, 64)
    st.g['want'] = EMPTY
    st.g['first'] = z3.BoolVal(True)
    st.g['at'] = L.skip(st, z3.BitVecVal(0, 64))
    st.g['logger'] = E.sym_obj(st, 'logger', 4096)
    E.loop_hooks.append(lambda lp: setattr(lp, 'spec', getattr(lp, 'spec', []) + [inv]))
    return L, server, E.sym_obj(st, 'result', k(E, 'optstr_size'))


def check(E, s, L, res, status, seen):
    flag = bv(E._as_bits(E.mread(s, res.obj, k(E, 'str_size'), 1), 1), 8)
    E.oblige(s, z3.Or(flag == 0, flag == 1), 'the result is set', 'spec')
    g = lambda n: bv(s.g[n], 64)
    E.oblige(s, z3.Or(g('at') == L.n, z3.And(s.g['first'], g('at') == L.n)), 'every line of the packet has been parsed', 'spec')
    E.oblige(s, (flag == 1) == (g('want') != EMPTY), 'an error is returned exactly when a line had one', 'spec')
    E.oblige(s, z3.And(g('nparsed') == (g('good') if status else 0), g('nerrors') == (g('bad') if status else 0)), 'each line adds one to one counter exactly when status metrics are enabled', 'spec')
    t = s.copy()
    t.assume(flag == 1)
    if E.S.sat(t.pc):
        seen.add(1)
        E.oblige(t, val(E, t, res) == g('want'), 'the result carries the errors of all failing lines in order', 'spec')
    t = s.copy()
    t.assume(flag == 0)
    if E.S.sat(t.pc):
        seen.add(0)


def t_lines(status):
    def run(E):
        st = State()
        L, server, res = setup(E, st, status)
        E.opts['parser'] = E.sym_obj(st, 'parser', 32)
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1(r'^spectatord::Server::parse_lines\b'), [res, server, L.p, E.opts['parser']]):
            check(E, s, L, res, status, seen)
        cover(E, 'with and without errors', seen == {0, 1})
    return run


@contract(r'^spectatord::Server::parse_(statsd_)?line\b(?!s)', H)
def _line(E, st, a, c):
    if not E.opts.get('whole'):
        raise Unsupported('a line is parsed directly')
    E.oblige(st, E.to_ptr(a[1]).obj == E.opts['server'].obj, 'the line is parsed by this server', 'spec')
    E.oblige(st, ('statsd' in c.dem) == (E.opts['whole'] == 'parse_statsd'), 'the line is parsed by the parser of its protocol', 'spec')
    parser_call(E, st, E.to_ptr(a[0]), a[2])


def t_whole(name):
    def run(E):
        st = State()
        L, server, res = setup(E, st, True)
        E.opts['whole'], E.opts['server'] = name, server
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1(r'^spectatord::Server::%s(\[abi:\w+\])*\(char\*\)$' % name), [res, server, L.p]):
            check(E, s, L, res, True, seen)
        cover(E, 'with and without errors', seen == {0, 1})
    return run


HANDLERS = H + lg.HANDLERS


def tasks(m):
    return [('parse_lines, status metrics on', t_lines(True)), ('parse_lines, status metrics off', t_lines(False)), ('parse', t_whole('parse')), ('parse_statsd', t_whole('parse_statsd'))]
