"""C24: attempts of an HTTP request, over libcurl's interface.

HttpClient::perform is verified for any attempt number 0..2, any outcome of the transfer and any time; its recursive call is checked
against its contract.  Post, Get and Put are verified to make the first attempt of the request they are asked for."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, FnPtr, Unsupported, fresh, State, Mem
from ..lib import contract
from . import meters as mt, logging as lg
from .reg import *
from .maps import strip, method, k
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c24.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = ['libcurl: curl_easy_perform makes the one request its options describe, getinfo(RESPONSE_CODE) gives its status (0..999)', 'curl_slist_append appends a copy of a string',
           'std::string and std::shared_ptr as values; absl time arithmetic is exact; std::this_thread::sleep_for only waits', 'LogEntry only records the attempt in the registry',
           'gzip_compress: gives Z_OK and the compressed payload, or another code'] + lg.TRUSTED
ASSUMPTIONS = ['memory is available to libcurl', 'metatron configuration only sets TLS options of the transfer']
HARNESS = dict(srcs=[VERIF + '/harness/c24.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random sequences of transfer results, statuses and elapsed times against an oracle; libcurl, the clock and sleeping are stand-ins that record every request')
APP = z3.Function('list.append', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
GZ = z3.Function('compressed', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
LIST = z3.Function('first.headers', z3.BitVecSort(64), z3.BitVecSort(64))      # the list of the first i headers given
NH = z3.BitVec('headers given', 64)
URL, HEADER, FIELDS, SIZE, POST, CUSTOM, TIMEOUT, CONNECT, SIZE_L, COPY, HTTPGET, NOBODY, UPLOAD, PUT, WRITEF, WRITED = 10002, 10023, 10015, 60, 47, 10036, 155, 156, 30120, 10165, 80, 44, 46, 54, 20011, 10001


def lit(b):
    return z3.BitVec('lit!' + b.decode('latin1'), 64)


def chars(E, st, p):
    """the token of a C string"""
    s = E.cstring(st, p)
    if s is not None:
        return lit(s)
    p = E.to_ptr(p)
    if not isinstance(p, Ptr) or (p.obj, p.off) not in st.absv:
        raise Unsupported('unknown text')
    return st.absv[(p.obj, p.off)]


def text(E, st, p):
    p = E.to_ptr(p)
    if not isinstance(p, Ptr):
        raise Unsupported('string at an unknown place')
    if (p.obj, p.off) in st.absv:
        return st.absv[(p.obj, p.off)]
    if E.opts.get('vector') is not None and p.obj == E.opts['vector'].obj:
        i = z3.LShR(bv(p.off, 64), 5)
        st.assume(LIST(i + 1) == APP(LIST(i), z3.Function('header', z3.BitVecSort(64), z3.BitVecSort(64))(i)))
        return z3.Function('header', z3.BitVecSort(64), z3.BitVecSort(64))(i)
    if p.obj == E.opts['client'].obj:
        return z3.Function('configured', z3.BitVecSort(64), z3.BitVecSort(64))(bv(p.off, 64))
    raise Unsupported('unknown string')


def settext(E, st, p, v):
    p = E.to_ptr(p)
    st.absv[(p.obj, p.off)] = v


# ---- strings
@contract(r'^(\S+ )?std::(__cxx11::)?basic_string<char.*>::(c_str|data|~basic_string|basic_string|operator=|operator basic_string_view|swap)(?!\w)', H)
def _string(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('std::'):
        return NotImplemented
    if m in ('c_str', 'data'):
        p = E.new_obj(st, 'chars', 1, 'arg')
        st.absv[(p.obj, 0)] = text(E, st, a[0])
        return p
    if m == '~basic_string':
        return None
    if m == 'basic_string':
        args = s[s.index('(') + 1:]
        if args.startswith(')') or args.startswith('std::allocator'):
            settext(E, st, a[0], lit(b''))
        elif args.startswith('char const*, std::allocator') or args == 'char const*)':
            try:
                v = chars(E, st, a[1])
            except Unsupported:
                v = fresh('text')
            settext(E, st, a[0], v)
        elif args.startswith('std::basic_string const&)') or args.startswith('std::basic_string&&)') or args.startswith('std::__cxx11::basic_string const&)') or args.startswith('std::__cxx11::basic_string&&)'):
            settext(E, st, a[0], text(E, st, a[1]))
            if '&&' in args:
                settext(E, st, a[1], lit(b''))
        else:
            settext(E, st, a[0], fresh('text'))
        return None
    if m == 'operator=':
        if 'basic_string' in s.split('(', 1)[1]:
            v = text(E, st, a[1])
            if '&&)' in s:
                settext(E, st, a[1], lit(b''))
        else:
            v = chars(E, st, a[1])
        settext(E, st, a[0], v)
        return a[0]
    if m == 'swap':
        v, w = text(E, st, a[0]), text(E, st, a[1])
        settext(E, st, a[0], w)
        settext(E, st, a[1], v)
        return None
    raise Unsupported(s)


@contract(r'^(\S+ )?std::unordered_map<std::(__cxx11::)?basic_string<char.*>::(unordered_map|operator=|~unordered_map)\(', H)
def _map(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    p = E.to_ptr(a[0])
    if m == '~unordered_map':
        return None
    if len(a) == 1:
        st.absv[(p.obj, p.off)] = lit(b'no headers')
        return None
    q = E.to_ptr(a[1])
    st.absv[(p.obj, p.off)] = st.absv.get((q.obj, q.off), fresh('headers'))
    return a[0] if m == 'operator=' else None


@contract(r'^(\S+ )?fmt::', H)
def _fmt(E, st, a, c):
    if re.search(r'std::(__cxx11::)?basic_string<char.*> fmt::v\d+::format<', c.dem) or strip(c.dem).split('(')[0].endswith('vformat'):
        settext(E, st, a[0], fresh('text'))
        return None
    return E._undef(c.retty) if c.retty is not None and c.retty.kind != 'void' else None


@contract(r'^strcmp$', H)
def _strcmp(E, st, a, c):
    x, y = E.cstring(st, a[0]), E.cstring(st, a[1])
    if x is None or y is None:
        raise Unsupported('comparison of unknown texts')
    return 0 if x == y else (1 if x > y else M(32))


# ---- shared_ptr<CurlHeaders>
@contract(r'std::(__)?shared_ptr(_access)?<(std::enable_if<!is_array<)?spectator::CurlHeaders', H)
def _sp(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('std::'):
        return NotImplemented

    def get(p):
        p = E.to_ptr(p)
        return E.mread(st, p.obj, p.off, 8)

    def put(p, v):
        p = E.to_ptr(p)
        E.mwrite(st, p.obj, p.off, 8, v)
    if m == 'make_shared':
        n = k(E, 'headers_size')
        p = E.new_obj(st, 'headers', n, 'heap')
        E.opts['made'] = p
        r = E.run_fn(st, E.m.find1(r'^spectator::CurlHeaders::CurlHeaders\(\)$'), [p])
        if len(r) != 1 or r[0][0] is not st:
            if len(r) != 1:
                raise Unsupported('constructor of CurlHeaders')
            st = r[0][0]
        put(a[0], p)
        return [(st, None)]
    if m in ('operator@', 'operator*', 'get', '_M_get'):
        return get(a[0])
    if m in ('shared_ptr', '__shared_ptr'):
        if len(a) == 1 or 'nullptr' in s:
            put(a[0], NULL)
            return None
        if 'shared_ptr const&)' in s or 'shared_ptr&&)' in s:
            v = get(a[1])
            if '&&)' in s:
                put(a[1], NULL)
            put(a[0], v)
            return None
        raise Unsupported(s)
    if m == 'operator=':
        v = get(a[1])
        if '&&)' in s:
            put(a[1], NULL)
        put(a[0], v)
        return a[0]
    if m in ('~shared_ptr', '~__shared_ptr'):
        return None
    raise Unsupported(s)


# ---- libcurl
@contract(r'^curl_easy_init$', H)
def _init(E, st, a, c):
    p = E.new_obj(st, 'curl', 8, 'heap')
    st.g['opts'] = dict(st.g['opts'])
    st.g['opts'][p.obj] = {}
    return p


@contract(r'^curl_easy_(setopt|perform|getinfo|cleanup|strerror|reset)$', H)
def _curl(E, st, a, c):
    f = c.dem.split('_')[-1]
    if f == 'strerror':
        return E.new_obj(st, 'message', 1, 'arg')
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj not in st.g['opts']:
        raise Unsupported('unknown curl handle')
    O = st.g['opts'][p.obj]
    if O is None:
        E.fail(st, 'a handle is not used after its cleanup', 'spec')
        return []
    def store(v):
        st.g['opts'] = dict(st.g['opts'])
        st.g['opts'][p.obj] = v
    if f == 'setopt':
        o, v = a[1], a[2]
        if not isc(o):
            raise Unsupported('unknown option')
        if o in (URL, CUSTOM):
            v = chars(E, st, v)
        store(dict(O, **{str(o): v}))
        return 0
    if f == 'reset':
        store({})
        return None
    if f == 'cleanup':
        store(None)
        return None
    if f == 'getinfo':
        if not isc(a[1]) or a[1] != 0x200002:
            raise Unsupported('getinfo')
        q = E.to_ptr(a[2])
        if not st.g['performed']:
            raise Unsupported('status before the request')
        E.mwrite(st, q.obj, q.off, 8, st.g['performed'][-1][1])
        return 0
    request(E, st, O)
    res, code = fresh('result', 32), fresh('code')
    st.assume(z3.And(code >= 0, code <= 999, z3.ULE(res, 99)))
    st.g['performed'] += ((res, code),)
    st.g['diffs'] = ()
    d = O.get(str(WRITED))
    if d is not None and isinstance(E.to_ptr(d), Ptr):
        settext(E, st, d, E.opts['answer'])
    return res


def request(E, st, O):
    """the request described by the options is the one asked for"""
    w = E.opts['want']
    g = lambda o: O.get(str(o))
    def same(v, x, n):
        ok = z3.BoolVal(False)
        if v is not None:
            ok = num(E, v) == num(E, x)
        E.oblige(st, ok, n, 'spec')
    for o in (NOBODY, UPLOAD, PUT, HTTPGET, SIZE_L, COPY):
        if g(o) is not None:
            raise Unsupported('option %d' % o)
    same(g(URL), w['url'], 'each attempt is for the URL given')
    L = g(HEADER)
    same(L, w['list'], 'each attempt has the headers given')
    if w['method'] == b'POST':
        same(g(POST), 1, 'each attempt is with the method given')
        same(g(FIELDS), w['payload'], 'each attempt has the body given')
        same(g(SIZE), w['size'], 'each attempt has the whole body given')
        E.oblige(st, z3.BoolVal(g(CUSTOM) is None), 'each attempt is with the method given', 'spec')
    elif w['method'] == b'GET':
        E.oblige(st, z3.BoolVal(g(POST) is None and g(FIELDS) is None and g(CUSTOM) is None), 'each attempt is with the method given', 'spec')
    else:
        same(g(CUSTOM), lit(w['method']), 'each attempt is with the method given')
        E.oblige(st, z3.BoolVal(g(POST) is None and g(FIELDS) is None), 'each attempt is with the method given', 'spec')


@contract(r'^curl_slist_(append|free_all)$', H)
def _slist(E, st, a, c):
    if 'free' in c.dem:
        return None
    l = a[0] if not isinstance(a[0], Ptr) else E.to_int(a[0])
    r = APP(bv(l, 64), chars(E, st, a[1]))
    st.assume(r != 0)
    return r


# ---- time
def dur(st, ns):
    hi, lo = fresh('dur.hi'), fresh('dur.lo', 32)
    st.assume(mt.NS(hi, lo) == ns)
    return hi, lo


def flat(a):
    r = []
    for x in a:
        r += list(x) if isinstance(x, tuple) else [x]
    return r


def val(hi, lo):
    return mt.NS(bv(hi, 64), bv(lo, 32))


@contract(r'^absl(::\w+)?::Now\(\)$', H)
def _now(E, st, a, c):
    n = fresh('now')
    st.assume(z3.And(n >= st.g['time'], n <= (1 << 61)))
    st.g['time'] = n
    return dur(st, n)


@contract(r'^absl(::\w+)?::operator([-+]|[<>]=?|[=!]=)\(absl(::\w+)?::(Time|Duration), absl(::\w+)?::(Time|Duration)\)$', H)
def _arith(E, st, a, c):
    op = re.search(r'operator(\S+?)\(', c.dem).group(1)
    a = flat(a)
    x, y = val(a[0], a[1]), val(a[2], a[3])
    if op == '-':
        st.g['diffs'] += (x - y,)
        return dur(st, x - y)
    if op == '+':
        return dur(st, x + y)
    return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]


@contract(r'^absl(::\w+)?::ToInt64Milliseconds\(', H)
def _ms(E, st, a, c):
    return fresh('ms')


@contract(r'^(void )?std::this_thread::sleep_for<|^absl(::\w+)?::SleepFor\(', H)
def _sleep(E, st, a, c):
    return None


# ---- log entries
@contract(r'^spectator::LogEntry::', H)
def _entry(E, st, a, c):
    m = method(c.dem)
    if m == 'LogEntry':
        n = fresh('start')
        st.assume(z3.And(n >= st.g['time'], n <= (1 << 61)))
        st.g['time'] = n
        st.g['start'] = n
    if m == 'start':
        return dur(st, st.g['start'])
    return None


@contract(r'^spectator::Registry::GetLogger\(\) const$', H)
def _logger(E, st, a, c):
    return None


@contract(r'^(spectator::|metatron::)(gzip_compress|sslctx_metatron_verify)\(|^compressBound$', H)
def _gz(E, st, a, c):
    if 'compressBound' in c.dem:
        r = fresh('bound')
        st.assume(z3.ULE(r, 1 << 60))
        return r
    if 'gzip_compress' not in c.dem:
        raise Unsupported(c.dem)
    src = bv(E.to_int(a[2]) if isinstance(a[2], Ptr) else a[2], 64)
    E.oblige(st, z3.And(src == E.opts['source'][0], bv(a[3], 64) == E.opts['source'][1]), 'the payload given is compressed', 'spec')
    n = fresh('compressed_size')
    q = E.to_ptr(a[1])
    E.mwrite(st, q.obj, q.off, 8, n)
    r = fresh('compress', 32)
    st.g['compressed'] = (E.to_int(a[0]) if isinstance(a[0], Ptr) else a[0], n, r)
    return r


def fields(E, st, a):
    """the arguments of perform: response, method, url, list of headers, payload, size, attempt"""
    r, this, meth, url, hp, payload, size, n = a
    h = E.to_ptr(hp)
    H_ = E.to_ptr(E.mread(st, h.obj, h.off, 8))
    if not isinstance(H_, Ptr):
        if z3.is_expr(H_):
            raise Unsupported('unknown headers')
        return r, E.cstring(st, meth), text(E, st, url), 0, payload, size, n
    L = E.mread(st, H_.obj, H_.off + k(E, 'list'), 8)
    return r, E.cstring(st, meth), text(E, st, url), L, payload, size, n


def num(E, v):
    if isinstance(v, (Ptr, FnPtr)):
        v = E.to_int(v)
    if z3.is_bv(v) and v.size() < 64:
        return z3.SignExt(64 - v.size(), v)   # an int among the variable arguments
    return bv(v, 64)


@contract(r'^spectator::HttpClient::perform\(', H)
def _perform(E, st, a, c):
    w = E.opts['want']
    if len(a) != 8:
        raise Unsupported('perform has other arguments')
    r, meth, url, L, payload, size, n = fields(E, st, a)
    what = 'each attempt' if w['attempt'] is not None else 'the first attempt'
    E.oblige(st, z3.BoolVal(meth == w['method']), what + ' is with the method given', 'spec')
    E.oblige(st, url == w['url'], what + ' is for the URL given', 'spec')
    E.oblige(st, num(E, L) == num(E, w['list']), what + ' has the headers given', 'spec')
    if w['method'] == b'POST':
        wp, ws = w['payload'], w['size']
        if st.g.get('compressed') is not None and w.get('compress') is not None:
            wp, ws = st.g['compressed'][:2]
        E.oblige(st, z3.And(num(E, payload) == num(E, wp), num(E, size) == num(E, ws)), what + ' has the body given', 'spec')
    if w['attempt'] is not None:
        E.oblige(st, z3.And(bv(n, 32) == w['attempt'] + 1, w['attempt'] < 2), 'there are at most three attempts', 'spec')
        E.oblige(st, z3.BoolVal(len(st.g['performed']) == 1), 'a request is retried only after it was made', 'spec')
    else:
        E.oblige(st, bv(n, 32) == 0, 'a request starts with its first attempt', 'spec')
    S, B = fresh('status', 32), fresh('answer')
    p = E.to_ptr(r)
    E.mwrite(st, p.obj, add(p.off, k(E, 'status')), 4, S)
    settext(E, st, p + k(E, 'body'), B)
    st.g['retried'] += (S,)
    st.g['again'] = B
    return None


HANDLERS = [h for h in H if 'HttpClient' in h[0].pattern or 'LogEntry' in h[0].pattern] + H + lg.HANDLERS


def start(E):
    st = State()
    for g in ('performed', 'retried', 'diffs'):
        st.g[g] = ()
    st.g['opts'] = {}
    st.g['time'] = z3.BitVecVal(0, 64)
    st.g['compressed'] = None
    c = E.sym_obj(st, 'client', k(E, 'client_size'))
    E.opts['client'] = c
    r = E.sym_obj(st, 'registry', k(E, 'registry_size'))
    E.mwrite(st, c.obj, k(E, 'registry'), 8, r)
    u = E.sym_obj(st, 'url', 32)
    st.absv[(u.obj, 0)] = z3.BitVec('the url', 64)
    out = E.new_obj(st, 'response', k(E, 'response_size'), 'arg')
    E.opts['answer'] = z3.BitVec('the answer', 64)
    return st, c, u, out


def literal(E, st, b):
    p = E.new_obj(st, 'literal', len(b) + 1, 'arg')
    for i, x in enumerate(b + b'\0'):
        E.mwrite(st, p.obj, i, 1, x)
    return p


def status(E, s, out):
    return bv(E._as_bits(E.mread(s, out.obj, k(E, 'status'), 4), 4), 32)


def perform(meth):
    def run(E):
        st, c, u, out = start(E)
        n = z3.BitVec('attempt', 32)
        st.assume(z3.And(n >= 0, n <= 2))
        h = E.new_obj(st, 'headers', k(E, 'headers_size'), 'arg')
        L = z3.BitVec('the headers', 64)
        E.mwrite(st, h.obj, k(E, 'list'), 8, L)
        sp = E.new_obj(st, 'shared', 16, 'arg')
        E.mwrite(st, sp.obj, 0, 8, h)
        pay, size = z3.BitVec('the payload', 64), z3.BitVec('the size', 64)
        E.opts['want'] = dict(method=meth, url=z3.BitVec('the url', 64), list=L, payload=pay, size=size, attempt=n)
        cfg = k(E, 'config')
        rd = lambda s, o: val(E._as_bits(E.mread(s, c.obj, cfg + o, 8), 8), E._as_bits(E.mread(s, c.obj, cfg + o + 8, 4), 4))
        total = rd(st, k(E, 'connect')) + rd(st, k(E, 'read'))
        body = bv(E._as_bits(E.mread(st, c.obj, cfg + k(E, 'read_body'), 1), 1), 8)
        seen = set()
        for s, r in E.run_fn(st, E.m.find1(r'^spectator::HttpClient::perform\('), [out, c, literal(E, st, meth), u, sp, pay, size, n]):
            if len(s.g['performed']) != 1:
                E.fail(s, 'an attempt makes one request', 'spec')
                continue
            res, code = s.g['performed'][0]
            code = z3.Extract(31, 0, code)
            again = z3.Or(code == 429, z3.And(code >= 500, code <= 599))
            S = status(E, s, out)
            if s.g['retried']:
                E.oblige(s, z3.BoolVal(len(s.g['retried']) == 1), 'an attempt is followed by at most one other', 'spec')
                E.oblige(s, z3.Implies(res == 0, again), 'a request is retried only after a retryable status', 'spec')
                E.oblige(s, z3.Implies(res != 0, z3.Or([d < total for d in s.g['diffs']] + [z3.BoolVal(False)])), 'a failed connection is retried only before the timeout', 'spec')
                E.oblige(s, S == s.g['retried'][-1], 'the status of the last attempt is returned', 'spec')
                E.oblige(s, text(E, s, out + k(E, 'body')) == s.g['again'], 'the body of the last answer is returned', 'spec')
            else:
                E.oblige(s, z3.Implies(z3.And(res == 0, n < 2), z3.Not(again)), 'a retryable status is retried', 'spec')
                E.oblige(s, z3.Implies(z3.And(res != 0, n < 2), z3.Or([d >= total for d in s.g['diffs']] + [z3.BoolVal(False)])), 'a failed connection is retried before the timeout', 'spec')
                E.oblige(s, S == z3.If(res == 0, code, z3.BitVecVal(0xffffffff, 32)), 'the status of the answer is returned, or -1', 'spec')
                E.oblige(s, z3.Implies(z3.And(res == 0, body == 1), text(E, s, out + k(E, 'body')) == E.opts['answer']), 'the body of the answer is returned', 'spec')
            for w, q in (('failure retried', z3.And(res != 0, z3.BoolVal(bool(s.g['retried'])))), ('failure given up', z3.And(res != 0, n < 2, z3.BoolVal(not s.g['retried']))),
                         ('status retried', z3.And(res == 0, z3.BoolVal(bool(s.g['retried'])))), ('answer', z3.And(res == 0, z3.BoolVal(not s.g['retried'])))):
                if E.S.sat(s.pc, q):
                    seen.add(w)
        for w in ('failure retried', 'failure given up', 'status retried', 'answer'):
            cover(E, w, w in seen)
    return run


GZIP = b'Content-Encoding: gzip'


def inv(L):
    """the list being made has the headers before the one being read"""
    E, r = L.E, []
    v, m = E.opts.get('vector'), E.opts.get('made')
    if v is None or m is None:
        return r
    for h in [h for h in L.hvars() if h.kind in ('phi', 'cell') and h.w == 64]:
        def at(s, e, h=h):
            q = h.get(E, s, e)
            return bv(q.off, 64) if isinstance(q, Ptr) and q.obj == v.obj else None

        def place(s, e, at=at):
            o = at(s, e)
            return True if o is None else z3.And(o & 31 == 0, z3.ULE(z3.LShR(o, 5), NH))

        def made(s, e, at=at):
            o = at(s, e)
            return True if o is None else num(E, E.mread(s, m.obj, k(E, 'list'), 8)) == LIST(z3.LShR(o, 5))
        r += [('spec: %r in bounds' % h, place), ('spec: the headers before %r' % h, made)]
    return r


def first(entry, compressed=False):
    def run(E):
        st, c, u, out = start(E)
        t = E.sym_obj(st, 'content_type', 1)
        T = st.absv[(t.obj, 0)] = z3.BitVec('the content type', 64)
        pay, size = z3.BitVec('the payload', 64), z3.BitVec('the size', 64)
        w = E.opts['want'] = dict(method=b'GET', url=z3.BitVec('the url', 64), list=z3.BitVecVal(0, 64), payload=pay, size=size, attempt=None)
        E.opts['source'] = (pay, size)
        st.assume(z3.ULE(size, 1 << 40))
        args = [out, c, u]
        if entry == 'post':
            q = E.sym_obj(st, 'payload', max(k(E, 'payload_data'), k(E, 'payload_size')) + 8)
            E.mwrite(st, q.obj, k(E, 'payload_data'), 8, pay)
            E.mwrite(st, q.obj, k(E, 'payload_size'), 8, size)
            args += [t, q]
            w.update(method=b'POST', list=APP(APP(z3.BitVecVal(0, 64), T), lit(GZIP)))
        elif entry == 'post_raw':
            E.mwrite(st, c.obj, k(E, 'config') + k(E, 'compress'), 1, int(compressed))
            args += [t, pay, size]
            w.update(method=b'POST', list=APP(APP(z3.BitVecVal(0, 64), T), lit(GZIP)) if compressed else APP(z3.BitVecVal(0, 64), T))
            if compressed:
                w['compress'] = True
        elif entry in ('get_headers', 'put'):
            st.assume(z3.And(z3.ULT(NH, 1 << 31), LIST(z3.BitVecVal(0, 64)) == 0))
            v = E.opts['vector'] = E.sym_obj(st, 'given_headers', NH << 5)
            vec = E.new_obj(st, 'vector', 24, 'arg')
            for i, o in enumerate((0, NH << 5, NH << 5)):
                E.mwrite(st, vec.obj, 8 * i, 8, Ptr(v.obj, o))
            args += [vec]
            w.update(method=b'PUT' if entry == 'put' else b'GET', list=LIST(NH))
            E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [inv]))
        n = 0
        for s, r in E.run_fn(st, E.m.find1(r'^vc_%s$' % entry), args):
            n += 1
            S = status(E, s, out)
            z = s.g['compressed']
            if not s.g['retried']:
                ok = z3.BoolVal(False)
                if z is not None:
                    ok = z3.And(z[2] != 0, S == 0xffffffff)
                E.oblige(s, ok, 'the request is made, or -1 is returned because the payload cannot be compressed', 'spec')
                continue
            if compressed:
                E.oblige(s, z3.BoolVal(z is not None) if z is None else z[2] == 0, 'what cannot be compressed is not sent', 'spec')
            E.oblige(s, z3.BoolVal(len(s.g['retried']) == 1), 'the request is made once', 'spec')
            E.oblige(s, S == s.g['retried'][-1], 'the status of the request is returned', 'spec')
        cover(E, entry, n > 0)
    return run


def tasks(module):
    r = [('perform %s' % m.decode(), perform(m)) for m in (b'POST', b'GET', b'PUT')]
    return r + [('Post of a compressed payload', first('post')), ('Post, compressing', first('post_raw', True)), ('Post, plain', first('post_raw')), ('Get', first('get')), ('Get with headers', first('get_headers')), ('Put', first('put'))]
