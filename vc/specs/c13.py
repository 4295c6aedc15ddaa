"""C13: max_buffer_size and udp_info over contracts of the C library and of absl's split and number parsing."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, FnPtr
from ..lib import contract
from .meters import ABSL
from . import logging as lg

SOURCES = ['server/proc_utils.cc']
H = []
TRUSTED = ['open/read/close, fopen/fgets/fclose/setbuffer: POSIX/ISO C semantics; read may fail or give fewer bytes, fgets stores at most size-1 bytes and a NUL',
           'absl::SimpleAtoi: a function of the text it is given; on failure the result is unspecified', 'absl::StrSplit by any of blank, colon, newline with SkipEmpty: the fields of the line',
           'strtol/strtoul (and the ll forms): the number at the start of the text in the given base'] + lg.TRUSTED
ASSUMPTIONS = ['the numbers in the UDP table are below 2^63 (strtol and strtoul agree)', 'the maximum-buffer file does not change while the process runs (the code remembers its value per path pointer)',
               'lines of the UDP table are shorter than 4096 bytes (longer ones are read as several)', 'files are text: a NUL byte ends the text']
HARNESS = dict(srcs=[VERIF + '/harness/c13.cc', 'server/proc_utils.cc', 'util/logger.cc'], libs=ABSL + ['-lspdlog', '-lfmt', '-lpthread'],
               what='generated files: numbers, junk, whitespace, missing, empty, 4095 to 10000 bytes; UDP tables of 0 to 40 lines, ports repeated, short and junk lines')
BV = z3.BitVecSort(64)
OK = z3.Function('parses', BV, z3.BoolSort())
VAL = z3.Function('number', BV, z3.BitVecSort(32))
NF = z3.Function('fields', BV, BV)
TOK = z3.Function('field', BV, BV, BV)
NUM = z3.Function('strtol', BV, z3.BitVecSort(32), BV)
DEFAULT = 16 * 1024 * 1024


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


# ------------------------------------------------------------------ files
@contract(r'^open$', H)
def _open(E, st, a, c):
    o = E.opts['file']
    E.oblige(st, same(E, a[0], o['path']), 'the file opened is the one asked for', 'spec')
    E.oblige(st, (bv(a[1], 32) & 3) == 0, 'the file is opened for reading', 'spec')
    fd = fresh('fd', 32)
    st.assume(z3.If(o['exists'], fd >= 0, fd < 0))
    st.g['fd'], st.g['opened'], st.g['nread'] = fd, z3.If(o['exists'], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), z3.BitVecVal(0, 8)
    return fd


def same(E, v, w):
    v = E.to_ptr(v)
    return isinstance(v, Ptr) and v.obj == w.obj and z(eq(bv(v.off, 64), bv(w.off, 64)))


@contract(r'^read$', H)
def _read(E, st, a, c):
    o = E.opts['file']
    E.oblige(st, z3.And(bv(a[0], 32) == st.g.get('fd', z3.BitVecVal(-1, 32)), st.g['opened'] == 1), 'read from the open file', 'spec')
    E.oblige(st, st.g['nread'] == 0, 'the file is read once', 'spec')
    p = E.to_ptr(a[1])
    E.oblige(st, z3.ULE(bv(add(p.off, a[2]), 64), bv(st.size[p.obj], 64)), 'the buffer read into is as long as the call says', 'bounds')
    E.oblige(st, z3.UGE(bv(a[2], 64), 32), 'the buffer takes any number', 'spec')
    n = o['n']
    st.assume(n <= z3.ZeroExt(0, bv(a[2], 64)))
    src = E.sym_obj(st, 'content', 1 << 20)
    rs = []
    bad = st.copy()
    bad.assume(n == -1)
    st.assume(n >= 0)
    st.g['buf'] = 1
    E.opts['bufp'] = p
    out = []
    for s in E.memcpy(st, p, src, n):
        s.g['nread'] = z3.BitVecVal(1, 8)
        out.append((s, n))
    bad.g['nread'] = z3.BitVecVal(1, 8)
    return out + [(bad, n)]


@contract(r'^close$', H)
def _close(E, st, a, c):
    E.oblige(st, z3.And(bv(a[0], 32) == st.g['fd'], st.g['opened'] == 1), 'close of the open file', 'lifetime')
    st.g['opened'] = z3.BitVecVal(0, 8)
    return 0


@contract(r'^strlen$|^std::char_traits<char>::length\(char const\*\)$|^absl::[^()]*::StrlenInternal\(char const\*\)$', H)
def _strlen(E, st, a, c):
    p = E.to_ptr(a[0])
    if isinstance(p, Ptr) and p.obj.startswith('@'):
        return len(E.cstring(st, p))
    if 'line' in st.g:
        E.oblige(st, same(E, p, E.opts['linep']), 'the text measured is the current line', 'spec')
        return st.g['len']
    o = E.opts['file']
    if 'bufp' not in E.opts or E.to_ptr(a[0]).obj != E.opts['bufp'].obj:
        raise Unsupported('strlen')
    n = o['n']
    E.oblige(st, bv(E.mread(st, p.obj, add(p.off, n), 1), 8) == 0, 'the text read is followed by a NUL', 'bounds')
    L = fresh('len')
    st.assume(z3.And(z3.ULE(L, n), bv(E.mread(st, p.obj, add(p.off, L), 1), 8) == 0))
    st.g['L'] = L
    return L


@contract(r'^([^()]* )?absl::[^()]*SimpleAtoi<int>\(', H)
def _atoi(E, st, a, c):
    p, L = E.to_ptr(a[0]), bv(a[1], 64)
    o = E.opts['file']
    E.oblige(st, same(E, p, E.opts['bufp']), 'the text parsed starts at the start of the file', 'spec')
    E.oblige(st, z3.Or(L == o['n'], L == st.g.get('L', o['n'])), 'the text parsed ends where the file or a NUL does', 'spec')
    st.g['parsed'] = L
    q = E.to_ptr(a[2])
    junk = fresh('junk', 32)
    E.mwrite(st, q.obj, q.off, 4, z3.If(OK(L), VAL(L), junk))
    return OK(L)


def t_max(E):
    st = State()
    path = E.sym_obj(st, 'path', 64)
    o = E.opts['file'] = dict(path=path, exists=fresh('exists', 1), n=fresh('n'))
    mut = [g for g in E.m.globals_matching(r'max_buffer_size\(char const\*\)::')]
    names = {E.m.demangle(g).split('::')[-1]: g for g in mut}
    cached = z3.BoolVal(False)
    res0 = None
    last = 'no cache'
    if set(names) == {'result', 'last_proc_file'}:
        r, l = E.global_obj(st, names['result']), E.global_obj(st, names['last_proc_file'])
        res0 = fresh('result0', 32)
        E.mwrite(st, r, 0, 4, res0)
    elif any(not x.startswith('kDefault') for x in names):
        raise Unsupported('static variables %s' % sorted(names))
    seen = set()
    for which in ('same', 'other') if res0 is not None else ('none',):
        s0 = st.copy()
        if res0 is not None:
            E.mwrite(s0, l, 0, 8, path if which == 'same' else NULL)
        for s, v in E.run_fn(s0, E.m.find1(r'^spectatord::max_buffer_size\('), [path]):
            v = bv(v, 32)
            L = s.g.get('parsed')
            usable = z3.And(o['exists'], z3.BoolVal(L is not None), o['n'] > 0, OK(L) if L is not None else False)
            if 'opened' not in s.g:
                # no read: only right when this very path was read before
                E.oblige(s, which == 'same' and z3.And(res0 > 0, v == res0), 'a remembered value is returned only for the path it was read from', 'spec')
                seen.add('cached')
                continue
            E.oblige(s, s.g['opened'] == 0, 'the file is closed', 'lifetime')
            want_read = z3.And(o['exists'], s.g['nread'] == 1)
            E.oblige(s, z3.Implies(o['exists'], s.g['nread'] == 1), 'an existing file is read', 'spec')
            E.oblige(s, z3.Implies(z3.And(o['exists'], o['n'] > 0), z3.BoolVal(L is not None)), 'a non-empty file is parsed', 'spec')
            E.oblige(s, z3.If(usable, v == (VAL(L) if L is not None else v), v == DEFAULT), 'the number in the file, or 16 MiB', 'spec')
            seen |= {'number' if L is not None else 'default'}
            if res0 is not None:
                E.oblige(s, bv(E.mread(s, r, 0, 4), 32) == v, 'the value remembered is the one returned', 'inv')
                E.oblige(s, same(E, E.mread(s, l, 0, 8), path), 'the path remembered is the one read', 'inv')
    cover(E, 'max_buffer_size', seen >= {'number', 'default'})


# ------------------------------------------------------------------ the UDP table
@contract(r'^fopen$', H)
def _fopen(E, st, a, c):
    o = E.opts['file']
    E.oblige(st, same(E, a[0], o['path']), 'the file opened is the one asked for', 'spec')
    no = st.copy()
    no.assume(z3.Not(o['exists']))
    st.assume(o['exists'])
    st.g['open'] = z3.BitVecVal(1, 8)
    st.g['line'] = z3.BitVecVal(0, 64)
    return [(st, o['fp']), (no, NULL)]


@contract(r'^fclose$', H)
def _fclose(E, st, a, c):
    E.oblige(st, z3.And(same(E, a[0], E.opts['file']['fp']), st.g['open'] == 1), 'close of the open file', 'lifetime')
    st.g['open'] = z3.BitVecVal(0, 8)
    return 0


@contract(r'^(setbuffer|setvbuf)$', H)
def _setbuf(E, st, a, c):
    p = E.to_ptr(a[1])
    n = a[2] if c.name == 'setbuffer' else a[3]
    if isinstance(p, Ptr) and p.obj is not None:
        E.oblige(st, z3.ULE(bv(add(p.off, n), 64), bv(st.size[p.obj], 64)), 'the stream buffer is as long as the call says', 'bounds')
    return None


@contract(r'^fgets$', H)
def _fgets(E, st, a, c):
    o = E.opts['file']
    E.oblige(st, z3.And(same(E, a[2], o['fp']), st.g['open'] == 1), 'a line is read from the open file', 'spec')
    p = E.to_ptr(a[0])
    n = zext(a[1], 32, 64)
    E.oblige(st, z3.And(bv(a[1], 32) > 1, z3.ULE(bv(add(p.off, n), 64), bv(st.size[p.obj], 64))), 'the line buffer is as long as the call says', 'bounds')
    E.oblige(st, z3.UGE(bv(n, 64), 4096), 'the line buffer takes any line', 'spec')
    if E.opts.setdefault('linep', p).obj != p.obj or not (eq(E.opts['linep'].off, p.off) is True):
        raise Unsupported('two line buffers')
    cur = st.g['line']
    eof = st.copy()
    eof.assume(cur == o['lines'])
    st.assume(z3.ULT(cur, o['lines']))
    L = fresh('len')
    st.assume(z3.And(L != 0, z3.ULT(L, n)))
    st.g['line'], st.g['len'] = cur + 1, L
    return [(st, p), (eof, NULL)]


@contract(r'^absl::[^()]*ByAnyChar::ByAnyChar\(absl::', H)
def _any(E, st, a, c):
    s = E.cstring(st, a[1])
    if s is None or set(s) != set(b' :\n') or len(s) != a[2]:
        raise Unsupported('delimiters %r' % (s,))
    return None


@contract(r'^absl::[^()]*(ByAnyChar::~ByAnyChar|Splitter<.*>::~Splitter)\(\)$', H)
def _d(E, st, a, c):
    return None


@contract(r'^absl::.*Splitter<.*ByAnyChar.*SkipEmpty.* absl::[^()]*StrSplit<', H)
def _split(E, st, a, c):
    E.oblige(st, same(E, a[1], E.opts['linep']), 'the line split is the one read', 'spec')
    E.oblige(st, bv(a[2], 64) == st.g['len'], 'the whole line is split', 'spec')
    st.g['split'] = st.g['line'] - 1
    return None


@contract(r'^absl::.*Splitter<.*ByAnyChar.*SkipEmpty.*>::operator std::vector<std::(__cxx11::)?basic_string<char', H)
def _vec(E, st, a, c):
    st.g['vec'] = st.g['split']
    E.opts['vecp'] = E.to_ptr(a[0])
    return None


V = r'^std::vector<std::(__cxx11::)?basic_string<char.*>::'


@contract(V + r'(~vector)\(\)', H)
def _vd(E, st, a, c):
    return None


@contract(V + r'size\(\) const$', H)
def _vs(E, st, a, c):
    return NF(st.g['vec'])


@contract(V + r'(operator\[\]|at)\(unsigned long\)', H)
def _vi(E, st, a, c):
    E.oblige(st, z3.ULT(bv(a[1], 64), NF(st.g['vec'])), 'the field exists', 'bounds')
    return Ptr(E.opts['file']['fields'].obj, bv(a[1], 64))


@contract(r'^std::(__cxx11::)?basic_string<char[^()]*>::(c_str|data)\(\) const$', H)
def _cs(E, st, a, c):
    p = E.to_ptr(a[0])
    if p.obj != E.opts['file']['fields'].obj:
        raise Unsupported('c_str of an unknown string')
    return p


@contract(r'^(__isoc23_)?strto(l|ul|ll|ull)$', H)
def _strtol(E, st, a, c):
    p = E.to_ptr(a[0])
    e = E.to_ptr(a[1])
    if p.obj != E.opts['file']['fields'].obj or not (isinstance(e, Ptr) and e.obj is None):
        raise Unsupported('strtol')
    return NUM(TOK(st.g['vec'], bv(p.off, 64)), bv(a[2], 32))


def t_udp(E):
    st = State()
    path = E.sym_obj(st, 'path', 64)
    o = E.opts['file'] = dict(path=path, exists=fresh('exists', 1), lines=fresh('lines'), fp=E.sym_obj(st, 'FILE', 216), fields=E.sym_obj(st, 'fields', 1 << 40))
    st.assume(z3.ULT(o['lines'], 1 << 60))
    st.g['open'] = z3.BitVecVal(0, 8)
    port = fresh('port', 32)
    c16, c10 = z3.BitVecVal(16, 32), z3.BitVecVal(10, 32)
    j = fresh('j')
    idx = lambda i: z3.BitVecVal(i, 64)

    def match(i):
        return z3.And(z3.UGE(NF(i), 17), NUM(TOK(i, idx(2)), c16) == z3.SignExt(32, port))

    def spec(L):
        return [('spec: no earlier line matches', lambda s, env: z3.Implies(z3.And(z3.UGE(j, 1), z3.ULT(j, s.g['line'])), z3.Not(match(j))) if 'line' in s.g else None),
                ('spec: the table is read in order', lambda s, env: z3.And(z3.UGE(s.g['line'], 1), z3.ULE(s.g['line'], o['lines']), s.g['open'] == 1) if 'line' in s.g else None)]
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
    f = E.m.find1(r'^spectatord::udp_info\(')
    r = E.sym_obj(st, 'ret', 24)
    seen = set()
    for s, _ in E.run_fn(st, f, [r, port, path]):
        eng = E.mread(s, r.obj, 16, 1)
        E.oblige(s, s.g['open'] == 0, 'the file is closed', 'lifetime')
        eng = bv(eng, 8)
        yes, no = s.copy(), s
        yes.assume(eng == 1)
        no.assume(eng == 0)
        E.oblige(s, True, 'result', 'spec')
        if E.S.sat(yes.pc):
            seen.add(1)
            i = yes.g['vec']
            E.oblige(yes, z3.And(o['exists'], z3.UGE(i, 1), z3.ULT(i, o['lines']), match(i)), 'a result comes from a data line that has the port', 'spec')
            E.oblige(yes, z3.Implies(z3.And(z3.UGE(j, 1), z3.ULT(j, i)), z3.Not(match(j))), 'no earlier line has the port', 'spec')
            E.oblige(yes, bv(E.mread(yes, r.obj, 8, 8), 64) == NUM(TOK(i, idx(7)), c16), 'the receive queue is that of the line', 'spec')
            E.oblige(yes, bv(E.mread(yes, r.obj, 0, 8), 64) == NUM(TOK(i, idx(16)), c10), 'the drops are those of the line', 'spec')
        if E.S.sat(no.pc):
            seen.add(0)
            E.oblige(no, z3.Implies(z3.And(o['exists'], z3.UGE(j, 1), z3.ULT(j, o['lines'])), z3.Not(match(j))), 'no result only when no line has the port', 'spec')
    cover(E, 'udp_info', seen == {0, 1})


HANDLERS = H + lg.HANDLERS


def tasks(m):
    return [('max_buffer_size', t_max), ('udp_info', t_udp)]
