"""C26: requests to the admin server, over the interface of Poco.

RequestHandler::handleRequest is verified for any method, path and host (texts of any length and content) and any body: one that does
not parse, one that is no JSON object, and objects with any number of members of any keys and kinds of values."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, FnPtr, Throw, Unsupported, fresh, State, Mem
from ..lib import contract
from . import meters as mt, logging as lg
from .reg import *
from .maps import strip, method, k
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c26.cc', 'spectator/registry.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = ['Poco: the method, path and headers of a request are as sent; get and getHost throw NotFoundException for a header that is not there; setStatus sets the status that send or sendBuffer sends',
           'Poco JSON: parse gives the value the body denotes or throws; an object is a map of its keys; Var::type, extract and isString describe a value', 'std::string: comparison, search and substrings of texts',
           'std::find over the allowed tags'] + lg.TRUSTED
ASSUMPTIONS = ['fewer than 2^31 members and characters', 'Registry::UpdateCommonTag and EraseCommonTag change the tag they are given (a separate task), DeleteMeter and DeleteAllMeters are C17 and C18']
HARNESS = dict(srcs=[VERIF + '/harness/c26.cc', 'admin/admin_server.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS + ['-lPocoNet', '-lPocoJSON', '-lPocoFoundation'],
               what='random requests (hosts, methods, paths, JSON bodies valid and not) to the real handler over a stand-in connection, against an oracle of the configuration and the registry')
B64 = z3.BitVecSort(64)
ALLOWED = z3.Function('allowed', B64, z3.BoolSort())       # the key of member i is in the allowed set
STR = z3.Function('is_string', B64, z3.BoolSort())         # the value of member i is a string
VLEN, KLEN = z3.Function('value.len', B64, B64), z3.Function('key.len', B64, B64)
W, NN, NA = z3.BitVec('any_member', 64), z3.BitVec('members', 64), z3.BitVec('allowed_count', 64)
PARSED, OBJECT, HOSTGIVEN = z3.Bool('parsed'), z3.Bool('object'), z3.Bool('host_given')
NPOS = M(64)
NODE = 128


class T:
    """a text: its length, its bytes, and what it is"""
    def __init__(self, len, byte, tag=None, lit=None):
        self.len, self.byte, self.tag, self.lit = len, byte, tag, lit


def lit(b):
    return T(len(b), lambda j: b[j] if isc(j) and j < len(b) else None, ('lit', b), b)


def named(n):
    f = z3.Function(n + '.byte', B64, z3.BitVecSort(8))
    return T(z3.BitVec(n + '.len', 64), lambda j: f(bv(j, 64)), (n,))


URI, METHOD, HOST = named('uri'), named('method'), named('host')


def chars(E, st, p):
    s = E.cstring(st, p)
    if s is not None:
        return lit(s)
    p = E.to_ptr(p)
    if not isinstance(p, Ptr) or (p.obj, p.off) not in st.absv:
        raise Unsupported('unknown characters %s' % (p,))
    return st.absv[(p.obj, p.off)]


def member(E, st, p, at):
    """index of the member whose part at offset `at` is pointed to"""
    off = bv(p.off, 64)
    if E.S.sat(st.pc, off & (NODE - 1) != at):
        raise Unsupported('part of a member')
    i = z3.LShR(off, 7)
    E.oblige(st, z3.ULT(i, NN), 'only members that are there are used', 'bounds')
    # no branch depends on W: what is established about W is established about every member
    for f in (ALLOWED, STR):
        if E.S.prove(st.pc, z3.Implies(z3.ULT(W, NN), f(W)), full=False)[0] == 'proved':
            st.assume(f(i))
    return i


def text(E, st, p):
    p = E.to_ptr(p)
    if not isinstance(p, Ptr):
        raise Unsupported('string at an unknown place')
    O = E.opts
    if p.obj == O['members'].obj:
        i = member(E, st, p, 32)
        return T(KLEN(i), None, ('key', i))
    if p.obj == O['values'].obj:
        i = z3.LShR(bv(p.off, 64), 7)
        return T(VLEN(i), None, ('value', i))
    v = st.absv.get((p.obj, p.off))
    if not isinstance(v, T):
        raise Unsupported('unknown string %s %s' % (p, [kk for kk in st.absv]))
    return v


def settext(E, st, p, v):
    p = E.to_ptr(p)
    if not isinstance(p, Ptr) or not isc(p.off):
        raise Unsupported('string at an unknown place')
    st.absv[(p.obj, p.off)] = v


def match(t, at, b):
    """text t continues with the literal b at `at`"""
    n = len(b)
    if t.lit is not None and isc(at):
        return t.lit[at:at + n] == b
    if t.byte is None:
        raise Unsupported('content of a member')
    L = bv(t.len, 64)
    a = bv(at, 64)
    return z3.And(z3.ULE(a, L), z3.ULE(n, L - a), *[bv(t.byte(a + i), 8) == b[i] for i in range(n)])


def equal(E, st, x, y):
    if x.lit is not None and y.lit is not None:
        return x.lit == y.lit
    if x.lit is not None:
        x, y = y, x
    if y.lit is None:
        if x is y:
            return True
        if x.tag == y.tag and x.tag is not None and x.tag[0] not in ('key', 'value'):
            return True
        raise Unsupported('comparison of unknown texts')
    if x.byte is None:
        if y.lit == b'':
            return bv(x.len, 64) == 0
        raise Unsupported('content of a member')
    return z3.And(bv(x.len, 64) == len(y.lit), match(x, 0, y.lit))


def search(E, st, t, b, pos, backwards, c):
    """find / rfind of a literal"""
    n = len(b)
    L = bv(t.len, 64)
    if backwards and isc(pos) and pos == 0:
        return z3.If(z(match(t, 0, b)), z3.BitVecVal(0, 64), z3.BitVecVal(NPOS, 64))
    r = fresh('found')
    P = bv(pos, 64)
    st.assume(z3.Or(r == NPOS, z3.And(z3.ULE(r, L), z(match(t, r, b)), z3.ULE(r, P) if backwards else z3.UGE(r, P))))
    first = z3.And(z(match(t, 0, b)), z3.BoolVal(True) if backwards else P == 0)
    st.assume(z3.Implies(first, r != NPOS if backwards else r == 0))     # one instance of "nowhere else"; more is not claimed
    E.opts['approx'] = True
    return r


class Name:
    """matches the qualified name of a function, template arguments aside"""
    def __init__(self, rx, args=''):
        self.rx, self.args = re.compile(rx), re.compile(args)

    def search(self, dem):
        s = strip(dem)
        m = method(dem)
        q = s.split('operator')[0] + m if m.startswith('operator') else s.split('(')[0]
        return self.rx.search(q.split(' ')[-1]) and self.args.search(dem)


def named_contract(rx, args=''):
    def deco(f):
        H.append((Name(rx, args), f))
        return f
    return deco


@named_contract(r'^std::(__cxx11::)?basic_string::(c_str|data|~basic_string|basic_string|operator=|operator basic_string_view|swap|size|length|empty|compare|rfind|find|substr|operator\[\]|at|front|back|starts_with|assign|append|operator\+=)$', 'basic_string<char')
def _string(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    args = s[s.index('(') + 1:]
    if m == '~basic_string':
        return None
    if m == 'basic_string':
        if args.startswith(')') or args.startswith('std::allocator'):
            settext(E, st, a[0], lit(b''))
        elif re.match(r'char const\*(, std::allocator const&)?\)', args):
            settext(E, st, a[0], chars(E, st, a[1]))
        elif re.match(r'std::(__cxx11::)?basic_string( const&|&&)\)', args):
            settext(E, st, a[0], text(E, st, a[1]))
        else:
            raise Unsupported(s)
        return None
    if m in ('operator=', 'assign'):
        if re.match(r'std::(__cxx11::)?basic_string( const&|&&)\)', args):
            v = text(E, st, a[1])
        elif args.startswith('char const*)'):
            v = chars(E, st, a[1])
        else:
            raise Unsupported(s)
        settext(E, st, a[0], v)
        return a[0]
    if m == 'swap':
        v, w = text(E, st, a[0]), text(E, st, a[1])
        settext(E, st, a[0], w)
        settext(E, st, a[1], v)
        return None
    if m == 'substr':
        t = text(E, st, a[1])
        L = bv(t.len, 64)
        at, n = bv(a[2], 64), bv(a[3], 64)
        out = []
        if E.S.sat(st.pc, z3.UGT(at, L)):
            s2 = st.copy()
            s2.assume(z3.UGT(at, L))
            out.append((s2, Throw(('_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception'))))
        st.assume(z3.ULE(at, L))
        if E.S.sat(st.pc):
            if t.lit is not None and isc(a[2]) and isc(a[3]):
                r = lit(t.lit[a[2]:a[2] + a[3]])
            else:
                if t.byte is None:
                    raise Unsupported('part of a member')
                r = T(simp(z3.If(z3.ULT(n, L - at), n, L - at)), lambda j, t=t, at=at: t.byte(bv(j, 64) + at), ('part', t, simp(at)))
            settext(E, st, a[0], r)
            out.append((st, None))
        return out
    t = text(E, st, a[0])
    if m in ('append', 'operator+='):
        if re.match(r'(char const\*|std::(__cxx11::)?basic_string( const&|&&))\)', args):
            u = chars(E, st, a[1]) if args.startswith('char') else text(E, st, a[1])
        elif re.match(r'char const\*, unsigned long\)', args) and isc(a[2]):
            u = chars(E, st, a[1])
            u = lit(u.lit[:a[2]]) if u.lit is not None else u
        elif re.match(r'char\)', args) and isc(a[1]):
            u = lit(bytes([a[1] & 255]))
        else:
            raise Unsupported(s)
        if t.lit is None or u.lit is None:
            raise Unsupported(s)
        settext(E, st, a[0], lit(t.lit + u.lit))
        return a[0]
    if m in ('size', 'length'):
        return t.len
    if m == 'empty':
        return t.len == 0 if isc(t.len) else bv(t.len, 64) == 0
    if m in ('c_str', 'data'):
        p = E.new_obj(st, 'chars', 1, 'arg')
        st.absv[(p.obj, 0)] = t
        return p
    if m in ('operator[]', 'at', 'front', 'back'):
        j = a[1] if m in ('operator[]', 'at') else 0 if m == 'front' else sub(t.len, 1, 64)
        if t.byte is None:
            raise Unsupported('characters of a member')
        p = E.new_obj(st, 'char', 1, 'arg')
        if t.lit is not None and isc(j):
            E.mwrite(st, p.obj, 0, 1, (t.lit + b'\0')[j])
            return p
        E.oblige(st, z3.ULE(bv(j, 64), bv(t.len, 64)), 'only characters that are there are used', 'bounds')
        E.mwrite(st, p.obj, 0, 1, z3.If(bv(j, 64) == bv(t.len, 64), z3.BitVecVal(0, 8), bv(t.byte(j), 8)))
        return p
    if m == 'starts_with':
        u = chars(E, st, a[1]) if args.startswith('char const*)') else None
        if u is None or u.lit is None:
            raise Unsupported(s)
        return match(t, 0, u.lit)
    if m == 'compare':
        if re.match(r'unsigned long, unsigned long, (char const\*|std::(__cxx11::)?basic_string const&)\)', args) and isc(a[1]):
            u = chars(E, st, a[3]) if 'char const*' in args else text(E, st, a[3])
            if u.lit is None or not isc(a[2]):
                raise Unsupported(s)
            at, n = a[1], a[2]
            L = bv(t.len, 64)
            if at:
                E.oblige(st, z3.ULE(at, L), 'comparison from a place that is there', 'bounds')
            rest = z3.If(z3.ULT(n, L - at), z3.BitVecVal(n, 64), L - at)
            q = z3.And(rest == len(u.lit), z(match(t, at, u.lit)))
        elif re.match(r'(char const\*|std::(__cxx11::)?basic_string const&)\)', args):
            q = z(equal(E, st, t, chars(E, st, a[1]) if 'char const*' in args else text(E, st, a[1])))
        else:
            raise Unsupported(s)
        r = fresh('order', 32)
        st.assume((r == 0) == q)
        return r
    if m in ('rfind', 'find'):
        if args.startswith('char const*, unsigned long)'):
            u = chars(E, st, a[1])
        elif re.match(r'std::(__cxx11::)?basic_string const&, unsigned long\)', args):
            u = text(E, st, a[1])
        elif args.startswith('char, unsigned long)') and isc(a[1]):
            u = lit(bytes([a[1] & 255]))
        else:
            raise Unsupported(s)
        if u.lit is None:
            raise Unsupported(s)
        return search(E, st, t, u.lit, a[2], m == 'rfind', c)
    raise Unsupported(s)


@contract(r'^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\(', H)
def _eq(E, st, a, c):
    args = strip(c.dem).split('(', 1)[1].split(', ')
    x, y = [chars(E, st, v) if 'char const*' in t else text(E, st, v) for v, t in zip(a, args)]
    r = equal(E, st, x, y)
    if 'operator!=' in c.dem:
        r = b_not(r)
    return r


# ---- the request and the response
@contract(r'^Poco::Net::HTTPRequest::(getURI|getMethod|getHost)(\[abi:cxx11\])?\(\) const$', H)
def _req(E, st, a, c):
    O = E.opts
    m = method(c.dem.replace('[abi:cxx11]', ''))
    if m == 'getHost':
        return host(E, st, None)
    return O['uri' if m == 'getURI' else 'method']


NOTFOUND = Throw(('_ZTIN4Poco17NotFoundExceptionE', '_ZTIN4Poco16RuntimeExceptionE', '_ZTIN4Poco9ExceptionE', '_ZTISt9exception'))


def host(E, st, default):
    out = []
    for c in (HOSTGIVEN, z3.Not(HOSTGIVEN)):
        if E.S.sat(st.pc, c):
            s = st.copy()
            s.assume(c)
            out.append((s, E.opts['host'] if c is HOSTGIVEN else NOTFOUND if default is None else default))
    return out


@contract(r'^Poco::Net::NameValueCollection::(get|has|operator\[\])\(', H)
def _header(E, st, a, c):
    n = text(E, st, a[1])
    if n.lit is None:
        raise Unsupported('header of an unknown name')
    m = method(c.dem)
    if n.lit.lower() != b'host':
        raise Unsupported('another header')
    if m == 'has':
        return HOSTGIVEN
    return host(E, st, a[2] if len(a) > 2 else None)


@contract(r'^Poco::Net::HTTP(Server)?(Response|Message)::(set|get)\w+(\[abi:cxx11\])?\(', H)
def _res(E, st, a, c):
    m = method(c.dem.replace('[abi:cxx11]', ''))
    args = strip(c.dem).split('(', 1)[1]
    if m in ('setStatus', 'setStatusAndReason'):
        if not args.startswith('Poco::Net::HTTPResponse::HTTPStatus'):
            raise Unsupported('status as text')
        st.g['status'] = bv(a[1], 32)
        return None
    if m == 'getStatus':
        return st.g['status']
    if m.startswith('set'):
        return None
    raise Unsupported(strip(c.dem))


@contract(r'^vc_(send|send_buffer|sent|stream|other)$', H)
def _virtual(E, st, a, c):
    m = c.name
    if m in ('vc_send', 'vc_send_buffer'):
        g = z(st.g['sent'])
        st.g['answer'] = z3.If(g, st.g['answer'], st.g['status'])
        st.g['sent'] = z3.BoolVal(True)
        return E.opts['stream'] if m == 'vc_send' else None
    if m == 'vc_sent':
        return z(st.g['sent'])
    if m == 'vc_stream':
        return E.opts['stream']
    raise Unsupported('virtual function')


@contract(r'^(\S+ )*std::(operator<<|basic_ostream<char.*>::operator<<)|^std::basic_ostream<.*& std::operator<<', H)
def _out(E, st, a, c):
    return a[0]


# ---- JSON
@contract(r'^Poco::JSON::Parser::parse\(', H)
def _parse(E, st, a, c):
    if 'std::' not in strip(c.dem).split('(', 1)[1]:
        raise Unsupported(c.dem)
    s2 = st.copy()
    s2.assume(z3.Not(PARSED))
    s2.g['bad'] = z3.BoolVal(True)
    out = []
    if E.S.sat(s2.pc):
        s2.g['threw'] = True
        out.append((s2, Throw(('_ZTIN4Poco4JSON13JSONExceptionE', '_ZTIN4Poco9ExceptionE', '_ZTISt9exception'), E.opts['stream'])))
    st.assume(PARSED)
    if E.S.sat(st.pc):
        p = E.to_ptr(a[0])
        st.absv[(p.obj, p.off)] = ('result',)
        out.append((st, None))
    return out


@contract(r'^Poco::Exception::\w+(\[abi:cxx11\])?\(\) const$', H)
def _message(E, st, a, c):
    p = E.new_obj(st, 'message', 32, 'arg')
    st.absv[(p.obj, 0)] = named('message')
    return p


def var(E, st, p):
    p = E.to_ptr(p)
    if not isinstance(p, Ptr):
        raise Unsupported('unknown value')
    if p.obj == E.opts['members'].obj:
        return ('value', member(E, st, p, 32 + k(E, 'second')))
    v = st.absv.get((p.obj, p.off))
    if not isinstance(v, tuple) or v[0] not in ('result', 'value', 'empty'):
        raise Unsupported('unknown value')
    return v


def isstr(E, st, v):
    """whether the value is a string; a member that is not is a reason to reject"""
    if v[0] != 'value':
        return z3.BoolVal(False) if v[0] == 'empty' else z3.And(fresh('string', 1), z3.Not(OBJECT))
    st.g['bad'] = z3.Or(z(st.g['bad']), z3.Not(STR(v[1])))
    return STR(v[1])


def isobj(E, st, v):
    if v[0] == 'value':
        return z3.And(fresh('object', 1), z3.Not(STR(v[1])))
    if v[0] == 'empty':
        return z3.BoolVal(False)
    st.g['bad'] = z3.Or(z(st.g['bad']), z3.Not(OBJECT))
    return OBJECT


BADCAST = Throw(('_ZTIN4Poco16BadCastExceptionE', '_ZTIN4Poco16RuntimeExceptionE', '_ZTIN4Poco9ExceptionE', '_ZTISt9exception'))


@contract(r'Poco::Dynamic::Var::\w*|^Poco::Dynamic::Var::', H)
def _var(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('Poco::Dynamic::Var::'):
        return NotImplemented
    p = E.to_ptr(a[0])
    if m == 'Var':
        if len(a) == 1:
            st.absv[(p.obj, p.off)] = ('empty',)
        elif 'Poco::Dynamic::Var' in s.split('(', 1)[1]:
            st.absv[(p.obj, p.off)] = var(E, st, a[1])
        else:
            raise Unsupported(s)
        return None
    if m == '~Var':
        return None
    if m == 'operator=':
        if 'Poco::Dynamic::Var' not in s.split('(', 1)[1]:
            raise Unsupported(s)
        st.absv[(p.obj, p.off)] = var(E, st, a[1])
        return a[0]
    if m == 'swap':
        q = E.to_ptr(a[1])
        x, y = var(E, st, a[0]), var(E, st, a[1])
        st.absv[(p.obj, p.off)], st.absv[(q.obj, q.off)] = y, x
        return None
    if m == 'type':
        t = E.new_obj(st, 'type', 16, 'arg')
        st.absv[(t.obj, 0)] = ('type', var(E, st, a[0]))
        return t
    if m == 'isString':
        return isstr(E, st, var(E, st, a[0]))
    if m == 'isEmpty':
        if var(E, st, a[0])[0] != 'empty':
            raise Unsupported('isEmpty')
        return True
    if m == 'extract':
        v = var(E, st, a[0])
        if 'extract<Poco::SharedPtr<Poco::JSON::Object' in c.dem:
            if v[0] != 'result':
                raise Unsupported('nested object')
            ok, r = OBJECT, E.opts['object']
        elif re.search(r'extract<std::(__cxx11::)?basic_string<char', c.dem):
            if v[0] != 'value':
                raise Unsupported('text of the body')
            ok, r = STR(v[1]), Ptr(E.opts['values'].obj, v[1] << 7)
        else:
            raise Unsupported(s)
        out = []
        if E.S.sat(st.pc, z3.Not(ok)):
            s2 = st.copy()
            s2.assume(z3.Not(ok))
            out.append((s2, BADCAST))
        if E.S.sat(st.pc, ok):
            st.assume(ok)
            out.append((st, r))
        return out
    raise Unsupported(s)


@contract(r'^std::type_info::(operator==|operator!=)\(std::type_info const&\) const$', H)
def _type(E, st, a, c):
    x, y = a
    if E.global_name(x) is not None:
        x, y = y, x
    n = E.global_name(y)
    p = E.to_ptr(x)
    t = st.absv.get((p.obj, p.off)) if isinstance(p, Ptr) else None
    if n is None or not t or t[0] != 'type':
        raise Unsupported('comparison of types')
    if n == '_ZTINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE':
        r = isstr(E, st, t[1])
    elif re.match(r'_ZTIN4Poco9SharedPtrINS_4JSON6ObjectE', n):
        r = isobj(E, st, t[1])
    else:
        r = fresh('type', 1)
        st.assume(z3.Implies(r, z3.Not(STR(t[1][1]) if t[1][0] == 'value' else OBJECT)))
    return z3.Not(r) if 'operator!=' in c.dem else r


@contract(r'^(\S+ )*Poco::(SharedPtr|AutoPtr)<', H)
def _shared(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('Poco::'):
        return NotImplemented
    if m in ('operator*', 'operator@', 'get'):
        return E.opts['object']
    if m in ('isNull', 'operator!'):
        return False
    if m in ('SharedPtr', '~SharedPtr', 'operator='):
        return a[0] if m == 'operator=' else None
    raise Unsupported(s)


@contract(r'^Poco::JSON::Object::(begin|end)(\[abi:cxx11\])?\(\)( const)?$', H)
def _range(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['object'].obj:
        raise Unsupported('another object')
    return Ptr(E.opts['members'].obj, 0 if '::begin' in c.dem else simp(NN << 7))


@contract(r'^Poco::JSON::Object::size\(\) const$', H)
def _osize(E, st, a, c):
    return NN


@contract(r'^Poco::JSON::(Parser|ParseHandler|Handler)::~?(Parser|ParseHandler|Handler|reset|setLimit|setDepth|\w*)\(', H)
def _parser(E, st, a, c):
    if method(c.dem) not in ('Parser', '~Parser', 'ParseHandler', '~ParseHandler', 'reset'):
        raise Unsupported(c.dem)
    return None


@contract(r'^std::_Rb_tree_(increment|decrement)\(', H)
def _incr(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['members'].obj:
        raise Unsupported('iterator of another map')
    return Ptr(p.obj, simp(bv(p.off, 64) + NODE if 'increment' in c.dem else bv(p.off, 64) - NODE))


# ---- the allowed tags
@contract(r'^std::vector<std::(__cxx11::)?basic_string<char.*>::(c?begin|c?end|size|empty)\(\)( const)?$', H)
def _allowed(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['handler'].obj or not isc(p.off) or p.off != k(E, 'allowed'):
        raise Unsupported('another list')
    m = method(c.dem)
    if m == 'size':
        return NA
    if m == 'empty':
        return NA == 0
    return Ptr(E.opts['allowed'].obj, 0 if 'begin' in m else simp(NA << 5))


@contract(r'(^|[ *>])std::(find|count)<', H)
def _find(E, st, a, c):
    if not strip(c.dem).split('(')[0].split(' ')[-1].startswith('std::'):
        return NotImplemented
    x, y = E.to_ptr(a[0]), E.to_ptr(a[1])
    o = E.opts['allowed'].obj
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == o and y.obj == o) or E.S.sat(st.pc, z3.Or(bv(x.off, 64) != 0, bv(y.off, 64) != NA << 5)):
        raise Unsupported('part of the allowed tags')
    t = text(E, st, a[2])
    if t.tag is None or t.tag[0] != 'key':
        raise Unsupported('another text')
    i = t.tag[1]
    st.g['bad'] = z3.Or(z(st.g['bad']), z3.Not(ALLOWED(i)))
    r = fresh('found_at')
    if method(c.dem) == 'count':
        st.assume((r != 0) == ALLOWED(i))
        return r
    st.assume(z3.And(z3.ULE(r, NA), (r != NA) == ALLOWED(i)))
    return Ptr(o, simp(r << 5))


# ---- what changes state
def local(strict):
    """whether the host names the local machine: certainly (strict), or possibly"""
    h = HOST
    alts = []
    for n in (b'localhost', b'127.0.0.1', b'[::1]'):
        L = len(n)
        by = lambda j: bv(h.byte(j), 8)
        if strict:
            digits = [z3.Or(z3.UGE(L + 1 + d, h.len), z3.And(z3.UGE(by(L + 1 + d), 48), z3.ULE(by(L + 1 + d), 57))) for d in range(5)]
            alts.append(z3.And(z(match(h, 0, n)), z3.Or(h.len == L, z3.And(z3.UGT(h.len, L + 1), z3.ULE(h.len, L + 6), by(L) == 58, *digits))))
        else:
            same = [z3.Or(*[by(i) == x for x in {n[i], ord(chr(n[i]).upper()), ord(chr(n[i]).lower())}]) for i in range(L)]
            end = lambda i: z3.Or(h.len == i, z3.And(z3.UGT(h.len, i), by(i) == 58))
            alts.append(z3.And(z3.UGE(h.len, L), *same, z3.Or(end(L), z3.And(z3.UGT(h.len, L), by(L) == 46, end(L + 1)))))
    return z3.And(HOSTGIVEN, z3.Or(*alts))


def is_text(t, b):
    return z3.And(t.len == len(b), z(match(t, 0, b)))


def post():
    return z3.And(is_text(METHOD, b'POST'), is_text(URI, b'/config/common_tags'))


def delete():
    return z3.And(is_text(METHOD, b'DELETE'), z3.Or(z(match(URI, 0, b'/metrics/A')), z(match(URI, 0, b'/metrics/g'))))


def registry(E, st, p):
    p = E.to_ptr(p)
    if not isinstance(p, Ptr) or p.obj != E.opts['registry'].obj:
        raise Unsupported('another registry')


@contract(r'^spectator::Registry::(UpdateCommonTag|EraseCommonTag)\(', H)
def _tag(E, st, a, c):
    registry(E, st, a[0])
    up = 'Update' in c.dem
    E.opts['works'] += 1
    E.oblige(st, local(False), 'common tags change only for a host that names the local machine', 'spec')
    E.oblige(st, post(), 'common tags change only by a POST to their endpoint', 'spec')
    E.oblige(st, z3.And(PARSED, OBJECT), 'common tags change only if the body is a JSON object', 'spec')
    E.oblige(st, z3.Implies(z3.ULT(W, NN), z3.And(ALLOWED(W), STR(W))), 'common tags change only if every key is allowed and every value is a string', 'spec')
    t = text(E, st, a[1])
    if t.tag is None or t.tag[0] != 'key':
        E.fail(st, 'the tag that changes is one the request names', 'spec')
        return None
    i = t.tag[1]
    if up:
        v = text(E, st, a[2])
        if v.tag is None or v.tag[0] != 'value':
            E.fail(st, 'the value set is one the request gives', 'spec')
            return None
        E.oblige(st, v.tag[1] == i, 'a tag gets its own value', 'spec')
    E.oblige(st, VLEN(i) != 0 if up else VLEN(i) == 0, 'tags with an empty value are removed, others are set', 'spec')
    st.g['done'] = z3.If(i == W, z3.BitVecVal(1 if up else 2, 8), st.g['done'])
    st.g['effect'] = z3.BoolVal(True)
    return None


@contract(r'^spectator::Registry::(DeleteMeter|DeleteAllMeters)\(', H)
def _delete(E, st, a, c):
    registry(E, st, a[0])
    E.opts['deletes'] += 1
    E.oblige(st, local(False), 'meters are deleted only for a host that names the local machine', 'spec')
    E.oblige(st, delete(), 'meters are deleted only by a DELETE of their endpoint', 'spec')
    t = text(E, st, a[1])
    if t.lit is None or len(t.lit) != 1:
        if t.byte is None or not E.S.prove(st.pc, bv(t.len, 64) == 1)[0] == 'proved':
            raise Unsupported('kind of meters')
    E.oblige(st, bv(t.byte(0), 8) == bv(URI.byte(9), 8), 'only meters of the kind named are deleted', 'spec')
    st.g['effect'] = z3.BoolVal(True)
    if 'All' in c.dem:
        E.oblige(st, URI.len == 10, 'all meters of a kind are deleted only if none is named', 'spec')
        return None
    p = E.to_ptr(a[2])
    i = st.absv.get((p.obj, p.off))
    if not isinstance(i, T) or i.tag[0] != 'part' or i.tag[1].tag != URI.tag:
        raise Unsupported('id of the meter')
    E.oblige(st, z3.And(bv(i.tag[2], 64) == 11, bv(i.len, 64) == URI.len - 11), 'the meter deleted is the one named', 'spec')
    r = fresh('deleted', 1)
    return r


@contract(r'^spectator::Registry::\w+\(', H)
def _other(E, st, a, c):
    if method(c.dem) == 'GetConfig':
        return E.opts['config']
    raise Unsupported(strip(c.dem))


@contract(r'^admin::parse_id\(', H)
def _id(E, st, a, c):
    p = E.to_ptr(a[0])
    st.absv[(p.obj, p.off)] = text(E, st, a[1])
    return None


@contract(r'^spectator::Id::~Id\(\)$', H)
def _nid(E, st, a, c):
    return None


@contract(r'^admin::join\(', H)
def _join(E, st, a, c):
    settext(E, st, a[0], named('joined'))
    return None


def calls(E, name, seen):
    """names of the functions reachable from a function"""
    if name in seen:
        return
    seen.add(name)
    fn = E.m.fns.get(name)
    if fn is None or fn.decl:
        return
    fn.load()
    for b in fn.blocks.values():
        for ins in b.instrs:
            if ins.op in ('call', 'invoke') and ins.x['callee'][0] == 'g':
                calls(E, ins.x['callee'][1], seen)


READS = ('AgeGauges', 'Counters', 'DistSummaries', 'Gauges', 'MaxGauges', 'MonotonicCounters', 'MonotonicCountersUint', 'Timers', 'GetConfig', 'MonotonicSampled')


@contract(r'^admin::GET_\w+\(', H)
def _get(E, st, a, c):
    seen = set()
    calls(E, c.name, seen)
    for n in seen:
        d = E.m.demangle(n)
        if re.match(r'^spectator::Registry::', d):
            m = method(d)
            if m in ('UpdateCommonTag', 'EraseCommonTag', 'DeleteMeter', 'DeleteAllMeters'):
                E.fail(st, 'a request to read changes nothing (%s calls Registry::%s)' % (method(c.dem), m), 'spec')
            elif m not in READS and not (E.m.fns.get(n) and not E.m.fns[n].decl):
                raise Unsupported('%s calls %s' % (method(c.dem), m))
    st.g['status'] = z3.BitVecVal(200, 32)
    st.g['answer'] = z3.If(z(st.g['sent']), st.g['answer'], st.g['status'])
    st.g['sent'] = z3.BoolVal(True)
    return None


# ---- the configured tags, a map from texts to texts: Registry::UpdateCommonTag and EraseCommonTag
def tok(E, st, p):
    t = text(E, st, p)
    if t.tag is None or t.tag[0] != 'token':
        raise Unsupported('unknown text')
    return t.tag[1]


@contract(r'^(\S+ )*std::unique_ptr<spectator::Config[^()]*>::(operator->|operator\*|get)\(\) const$', H)
def _cfg(E, st, a, c):
    return E.opts['config']


def flush(E, st):
    """what was assigned through the iterator"""
    n = st.g.get('node')
    if n is not None:
        t = st.absv[(n[0].obj, 64)]
        if t.tag is None or t.tag[0] != 'token':
            raise Unsupported('unknown text')
        st.g['tags'] = (st.g['tags'][0], z3.Store(st.g['tags'][1], n[1], t.tag[1]))


@named_contract(r'^std::map::\w+(\[\])?$', r'std::map<std::(__cxx11::)?basic_string<char[^()]*?> ?>, std::(__cxx11::)?basic_string<char')
def _tags(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['config'].obj or not isc(p.off) or p.off != k(E, 'common_tags'):
        raise Unsupported('another map')
    args = s.split('(', 1)[1]
    E.opts['works'] += 1
    flush(E, st)
    has, val = st.g['tags']
    if m == 'end':
        return Ptr(E.opts['node'].obj, 1 << 20)
    if m in ('find', 'count', 'contains'):
        t = tok(E, st, a[1])
        if m != 'find':
            return has[t] if m == 'contains' else z3.If(has[t], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        out = []
        if st.g.get('node') is not None:
            raise Unsupported('several iterators')
        for q, r in ((has[t], Ptr(E.opts['node'].obj, 0)), (z3.Not(has[t]), Ptr(E.opts['node'].obj, 1 << 20))):
            if E.S.sat(st.pc, q):
                s2 = st.copy()
                s2.assume(q)
                if r.off == 0:
                    s2.g['node'] = (r, t)
                    s2.absv[(r.obj, 32)] = T(fresh('len'), None, ('token', t))
                    s2.absv[(r.obj, 64)] = T(fresh('len'), None, ('token', val[t]))
                out.append((s2, r))
        return out
    if m == 'erase':
        if 'std::basic_string' in args or 'std::__cxx11::basic_string' in args and 'iterator' not in args:
            t = tok(E, st, a[1])
            st.g['tags'] = (z3.Store(has, t, False), val)
            return z3.If(has[t], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        n = st.g.get('node')
        q = E.to_ptr(a[1])
        if n is None or not isinstance(q, Ptr) or q.obj != n[0].obj or q.off != 0:
            raise Unsupported('erasing at an unknown place')
        st.g['tags'] = (z3.Store(has, n[1], False), val)
        st.g['node'] = None
        return E._undef(c.retty) if c.retty.kind != 'ptr' else E.opts['stream']
    if m in ('insert', 'insert_or_assign', 'emplace', 'try_emplace'):
        if m == 'insert':
            if len(a) != 2:
                raise Unsupported(s)
            q = E.to_ptr(a[1])
            t, v = tok(E, st, q), tok(E, st, Ptr(q.obj, add(q.off, 32, 64)))
        else:
            if len(a) != 3:
                raise Unsupported(s)
            t, v = tok(E, st, a[1]), tok(E, st, a[2])
        old = has[t]
        st.g['tags'] = (z3.Store(has, t, True), z3.Store(val, t, v if m == 'insert_or_assign' else z3.If(old, val[t], v)))
        return (E.opts['stream'], z3.If(old, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
    if m == 'operator[]':
        if st.g.get('node') is not None:
            raise Unsupported('several iterators')
        t = tok(E, st, a[1])
        v = z3.If(has[t], val[t], EMPTY)
        st.g['tags'] = (z3.Store(has, t, True), z3.Store(val, t, v))
        r = E.opts['node']
        st.g['node'] = (r, t)
        st.absv[(r.obj, 64)] = T(fresh('len'), None, ('token', v))
        return Ptr(r.obj, 64)
    raise Unsupported(s)


EMPTY = z3.BitVec('no_text', 64)
HANDLERS = H + lg.HANDLERS


def inv(L):
    r = []
    E, O = L.E, L.E.opts
    want = z3.If(VLEN(W) != 0, z3.BitVecVal(1, 8), z3.BitVecVal(2, 8))
    r.append(('spec: nothing done yet', lambda s, e: z3.And(s.g['done'] == 0, z3.Not(z(s.g['effect'])))))
    r.append(('spec: no reason to reject yet', lambda s, e: z3.Not(z(s.g['bad']))))
    r.append(('spec: nothing answered yet', lambda s, e: z3.Not(z(s.g['sent']))))
    for h in [h for h in L.hvars() if h.kind in ('phi', 'cell') and h.w == 64]:
        def at(s, e, h=h):
            v = h.get(E, s, e)
            return z3.LShR(bv(v.off, 64), 7) if isinstance(v, Ptr) and v.obj == O['members'].obj else None

        def fact(name, f, at=at, h=h):
            def g(s, e, at=at, f=f):
                i = at(s, e)
                return True if i is None else f(s, i)
            r.append(('spec: %s %r' % (name, h), g))

        def place(s, e, h=h):
            v = h.get(E, s, e)
            if not isinstance(v, Ptr) or v.obj != O['members'].obj:
                return True
            off = bv(v.off, 64)
            return z3.And(off & (NODE - 1) == 0, z3.ULE(z3.LShR(off, 7), NN))
        r.append(('spec: %r in bounds' % h, place))
        fact('valid before', lambda s, i: z3.Implies(z3.ULT(W, i), z3.And(ALLOWED(W), STR(W))))
        fact('allowed before', lambda s, i: z3.Implies(z3.ULT(W, i), ALLOWED(W)))
        fact('strings before', lambda s, i: z3.Implies(z3.ULT(W, i), STR(W)))
        fact('done before', lambda s, i: s.g['done'] == z3.If(z3.ULT(W, i), want, z3.BitVecVal(0, 8)))
    return r


def t_handle(E):
    st = State()
    O = E.opts
    O.update(works=0, deletes=0)
    E.sym_unroll = 4
    st.assume(z3.And(z3.ULT(NN, 1 << 31), z3.ULT(NA, 1 << 31), *[z3.ULT(t.len, 1 << 31) for t in (URI, METHOD, HOST)]))
    O['members'] = E.sym_obj(st, 'members', NN << 7)
    O['values'] = E.sym_obj(st, 'values', NN << 7)
    O['allowed'] = E.sym_obj(st, 'allowed_tags', NA << 5)
    O['handler'] = h = E.sym_obj(st, 'handler', k(E, 'handler_size'))
    O['registry'] = E.sym_obj(st, 'registry', k(E, 'registry_size'))
    E.mwrite(st, h.obj, k(E, 'registry'), 8, O['registry'])
    for n in ('object', 'stream', 'config'):
        O[n] = E.sym_obj(st, n, 256)
    for n, t in (('uri', URI), ('method', METHOD), ('host', HOST)):
        O[n] = E.sym_obj(st, n, 32)
        st.absv[(O[n].obj, 0)] = t
    for n, size in (('request', 'request_size'), ('response', 'response_size')):
        O[n] = E.sym_obj(st, n, k(E, size))
        vt = E.new_obj(st, 'vtable', 8 * 64, 'arg')
        for i in range(64):
            E.mwrite(st, vt.obj, 8 * i, 8, FnPtr('vc_other'))
        for f in (('stream',) if n == 'request' else ('send', 'send_buffer', 'sent')):
            agg = E.m.global_init('vc_' + f)[1]
            slot = agg[2][0]
            E.mwrite(st, vt.obj, slot[2] - 1, 8, FnPtr('vc_' + f))
        E.mwrite(st, O[n].obj, 0, 8, vt)
    F = z3.BoolVal(False)
    st.g.update(status=z3.BitVecVal(200, 32), answer=z3.BitVecVal(0, 32), sent=F, effect=F, bad=F, done=z3.BitVecVal(0, 8), logger=E.sym_obj(st, 'logger', 4096))
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [inv]))
    n = dict(ok=0, bad=0, parse=0)
    P, D = post(), delete()
    for s, r in E.run_fn(st, E.m.find1('^vc_handle$'), [h, O['request'], O['response']]):
        if isinstance(r, Throw):
            E.oblige(s, z3.Not(z3.Or(P, D)), 'a request to change state ends in an answer, not an exception', 'spec')
            continue
        g = s.g
        sent, ans = z(g['sent']), bv(g['answer'], 32)
        rejected = z3.And(sent, z3.UGE(ans, 400), z3.ULT(ans, 500))
        E.oblige(s, z3.Implies(z3.And(z3.Or(P, D), z3.Not(local(False))), rejected), 'a request to change state from elsewhere is a client error', 'spec')
        E.oblige(s, z3.Implies(z3.And(P, z3.Not(rejected)), z3.And(sent, z3.UGE(ans, 200), z3.ULT(ans, 300), PARSED, OBJECT, z3.Implies(z3.ULT(W, NN), z3.And(ALLOWED(W), STR(W))))),
                 'common tags that may not be set are a client error', 'spec')
        E.oblige(s, z3.Implies(z3.And(P, z3.Not(rejected), z3.ULT(W, NN)), g['done'] == z3.If(VLEN(W) != 0, z3.BitVecVal(1, 8), z3.BitVecVal(2, 8))), 'an accepted request sets the tags it gives and removes those given an empty value', 'spec')
        E.oblige(s, z3.Implies(rejected, z3.Or(z3.Not(z(g['effect'])), D)), 'a rejected request changes nothing', 'spec')
        E.oblige(s, z3.Implies(z3.And(P, local(True), rejected), z(g['bad'])), 'a valid request from the local machine is accepted', 'spec')
        E.oblige(s, z3.Implies(z3.And(D, local(True)), z(g['effect'])), 'a request to delete meters from the local machine is carried out', 'spec')
        n['parse'] += bool(g.get('threw'))
        n['ok'] += E.S.sat(s.pc, z3.And(P, z3.Not(rejected)))
        n['bad'] += E.S.sat(s.pc, z3.And(P, rejected, local(True)))
    for x in n:
        cover(E, x, n[x] > 0)
    cover(E, 'tags', O['works'] > 0)
    cover(E, 'deletes', O['deletes'] > 0)


def t_tag(update):
    def run(E):
        st = State()
        O = E.opts
        O.update(works=0)
        for n in ('members', 'values', 'stream', 'key', 'value'):
            O[n] = E.sym_obj(st, n, 32)
        O['config'] = E.sym_obj(st, 'config', k(E, 'config_size'))
        O['registry'] = E.sym_obj(st, 'registry', k(E, 'registry_size'))
        O['node'] = E.sym_obj(st, 'node', 1 << 21)
        t, v, w = (z3.BitVec(n, 64) for n in ('key_text', 'value_text', 'any_text'))
        st.absv[(O['key'].obj, 0)] = T(fresh('len'), None, ('token', t))
        st.absv[(O['value'].obj, 0)] = T(fresh('len'), None, ('token', v))
        has, val = z3.Array('has', B64, z3.BoolSort()), z3.Array('val', B64, B64)
        st.g.update(tags=(has, val), node=None, logger=E.sym_obj(st, 'logger', 4096))
        args = [O['registry'], O['key']] + ([O['value']] if update else [])
        for s, r in E.run_fn(st, E.m.find1(r'^spectator::Registry::%sCommonTag\(' % ('Update' if update else 'Erase')), args):
            if isinstance(r, Throw):
                raise Unsupported('exception')
            flush(E, s)
            h2, v2 = s.g['tags']
            if update:
                E.oblige(s, z3.And(h2[t], v2[t] == v), 'the tag is set to the value given', 'spec')
            else:
                E.oblige(s, z3.Not(h2[t]), 'the tag is removed', 'spec')
            E.oblige(s, z3.Implies(w != t, z3.And(h2[w] == has[w], z3.Implies(has[w], v2[w] == val[w]))), 'no other tag is touched', 'spec')
        cover(E, 'map', O['works'] > 0)
    return run


def tasks(module):
    return [('UpdateCommonTag', t_tag(True)), ('EraseCommonTag', t_tag(False)), ('handleRequest', t_handle)]
