"""C23: the answer of the aggregator.  The answer is an arbitrary JSON value (or none): a token with a kind, a number, members
and elements; the accessors of rapidjson have the preconditions that rapidjson asserts."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from . import maps as mp, logging as lg
from .reg import *
from .maps import k
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c23.cc']
IRFLAGS = ['-fno-access-control']
H = []
BV, W = z3.BitVecSort(64), z3.BitVecSort(72)
KIND = z3.Function('json.kind', BV, z3.BitVecSort(8))      # rapidjson::Type
WHOLE = z3.Function('json.whole', BV, z3.BoolSort())       # a number written as an integer that fits 64 bits
NUM = z3.Function('json.number', BV, W)
HAS = z3.Function('json.has', BV, BV, z3.BoolSort())
MEM = z3.Function('json.member', BV, BV, BV)
LEN = z3.Function('json.length', BV, BV)
ELT = z3.Function('json.element', BV, BV, BV)
PERR = z3.Function('json.error', BV, z3.BoolSort())
OBJECT, ARRAY, STRING, NUMBER = 3, 4, 5, 6
TRUSTED = ['rapidjson: parsing gives an error or a value; FindMember, HasMember, operator[] want an object, the getters and iterators a value of their kind (RAPIDJSON_ASSERT); IsInt, IsUint64 ... tell whether the number fits',
           'the iterative parser of rapidjson needs no stack in proportion to the depth of the text, the recursive one does', 'Counter::Add (C04)', 'std::string, tsl::hopscotch_set of messages: no effect on the numbers'] + lg.TRUSTED
ASSUMPTIONS = ['a batch holds fewer than 2^31 measurements', 'memory is not exhausted by the answer', 'counters are in place since construction of the publisher']
HARNESS = dict(srcs=[VERIF + '/harness/c23.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS, sanitize='address,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,bounds,null,return',
               what='statuses -1 to 700 with generated answers: no JSON, every kind of value, error counts of every kind and size, messages of every kind, deeply nested texts')


def word(s):
    return z3.BitVec('word!' + s, 64)


def value(E, st, a):
    p = E.to_ptr(a)
    if not isinstance(p, Ptr):
        raise Unsupported('JSON value at an unknown place')
    if p.obj in E.opts['arrays']:
        j = E.opts['arrays'][p.obj]
        off = bv(p.off, 64)
        i = z3.LShR(off, 4)
        E.oblige(st, z3.And(off == i << 4, z3.ULT(i, LEN(j))), 'the element used is one of the array', 'bounds')
        v = ELT(j, i)
    else:
        v = st.absv.get((p.obj, p.off))
        if not z3.is_expr(v):
            raise Unsupported('unknown JSON value')
    st.assume(z3.And(z3.ULE(KIND(v), 6), z3.ULE(LEN(v), 0xffffffff), NUM(v) < (1 << 64), NUM(v) >= -(1 << 63)))
    return v


def want(E, st, v, kind, what):
    E.oblige(st, KIND(v) == kind, what, 'abort')


RANGE = {'Int': (-(1 << 31), 1 << 31), 'Uint': (0, 1 << 32), 'Int64': (-(1 << 63), 1 << 63), 'Uint64': (0, 1 << 64)}


def fits(v, t):
    lo, hi = RANGE[t]
    return z3.And(KIND(v) == NUMBER, WHOLE(v), NUM(v) >= lo, NUM(v) < hi)


def member(E, st, v, w):
    """the member of that name, with its value behind it"""
    o = E.new_obj(st, 'member', 32, 'arg')
    st.absv[(o.obj, 16)] = MEM(v, w)
    return o


def name(E, st, a):
    s = E.cstring(st, a)
    if s is None:
        raise Unsupported('name of a member')
    return word(s.decode() if isinstance(s, bytes) else s)


def the_end(E, st):
    if '@@end' not in st.mem:
        st.mem['@@end'] = Mem((), ('undef',))
        st.size['@@end'] = 32
        st.alive['@@end'] = True
        from ..engine import Obj
        E.objs['@@end'] = Obj('@@end', 'end', 'global')
    return Ptr('@@end', 0)


@contract(r'rapidjson::Generic(Value|Document)<|rapidjson::GenericArray<.*::~GenericArray\(|rapidjson::GenericObject<.*::~GenericObject\(', H)
def _json(E, st, a, c):
    s, m = mp.strip(c.dem), mp.method(c.dem)
    q = s.split('(')[0].split(' ')[-1]
    if not q.startswith('rapidjson::'):
        return NotImplemented
    cls = q.split('::')[-2] if '::' in q else ''
    if m in ('~GenericArray', '~GenericObject', '~GenericDocument', '~GenericValue'):
        return None
    if cls not in ('GenericValue', 'GenericDocument'):
        return NotImplemented
    if m == 'GenericDocument':
        p = E.to_ptr(a[0])
        st.absv[(p.obj, p.off)] = v = fresh('json')
        st.assume(KIND(v) == 0)
        return None
    if m == 'Parse':
        p = E.to_ptr(a[0])
        n = a[2] if 'unsigned long)' in s else None
        body = E.opts['text']
        t = E.to_ptr(a[1])
        if not isinstance(t, Ptr) or t.obj != body.obj or t.off != 0 or n is None or not z3.is_expr(n) or not z3.eq(n, E.opts['len']):
            raise Unsupported('another text is parsed')
        f = re.search(r'Parse<(\d+)u', c.dem)
        flags = int(f.group(1)) if f else 0
        E.oblige(st, bool(flags & 4), 'the depth of the answer is not limited by the stack (recursive parser)', 'abort')
        v = word('answer')
        st.absv[(p.obj, p.off)] = v
        st.assume(z3.Implies(PERR(v), KIND(v) == 0))
        return p
    v = value(E, st, a[1] if m in ('FindMember', 'MemberEnd', 'MemberBegin', 'GetArray', 'GetObject') else a[0])
    if m == 'HasParseError':
        return PERR(v)
    if m == 'GetType':
        return z3.ZeroExt(24, KIND(v))
    ks = {'IsNull': (0,), 'IsFalse': (1,), 'IsTrue': (2,), 'IsBool': (1, 2), 'IsObject': (OBJECT,), 'IsArray': (ARRAY,), 'IsString': (STRING,), 'IsNumber': (NUMBER,)}
    if m in ks:
        return z3.Or(*[KIND(v) == x for x in ks[m]])
    if m[:2] == 'Is' and m[2:] in RANGE:
        return fits(v, m[2:])
    if m[:3] == 'Get' and m[3:] in RANGE:
        E.oblige(st, fits(v, m[3:]), 'a number is read as %s only if it is one' % m[3:], 'abort')
        return z3.Extract(63 if m.endswith('64') else 31, 0, NUM(v))
    if m in ('HasMember', 'operator[]', 'FindMember') and s.endswith(('(char const*)', '(char const*) const')) or m == 'operator[]' and re.search(r'\(T\*|char const\*\)|char\*\)', s):
        w = name(E, st, a[2] if m == 'FindMember' else a[1])
        want(E, st, v, OBJECT, 'members are looked up in an object only')
        if m == 'HasMember':
            return HAS(v, w)
        if m == 'operator[]':
            E.oblige(st, HAS(v, w), 'a member is used only if it is there', 'abort')
            return member(E, st, v, w) + 16
        no = st.copy()
        p = E.to_ptr(a[0])
        st.assume(HAS(v, w))
        E.mwrite(st, p.obj, p.off, 8, member(E, st, v, w))
        no.assume(z3.Not(HAS(v, w)))
        E.mwrite(no, p.obj, p.off, 8, the_end(E, no))
        return [(st, None), (no, None)]
    if m == 'MemberEnd':
        want(E, st, v, OBJECT, 'members are looked up in an object only')
        p = E.to_ptr(a[0])
        E.mwrite(st, p.obj, p.off, 8, the_end(E, st))
        return None
    if m == 'GetArray':
        want(E, st, v, ARRAY, 'only an array is used as one')
        p = E.to_ptr(a[0])
        E.mwrite(st, p.obj, p.off, 8, E.to_ptr(a[1]))
        return None
    if m in ('Begin', 'End'):
        want(E, st, v, ARRAY, 'only an array is used as one')
        o = array(E, st, v)
        return Ptr(o, 0) if m == 'Begin' else Ptr(o, LEN(v) << 4)
    if m in ('Size', 'Empty'):
        want(E, st, v, ARRAY, 'only an array is used as one')
        return z3.Extract(31, 0, LEN(v)) if m == 'Size' else LEN(v) == 0
    if m == 'operator[]' and re.search(r'\(unsigned int\)|\(int\)', s):
        want(E, st, v, ARRAY, 'only an array is used as one')
        i = bv(zext(a[1], 32, 64), 64)
        E.oblige(st, z3.ULT(i, LEN(v)), 'the element used is one of the array', 'abort')
        return Ptr(array(E, st, v), i << 4)
    if m in ('GetString', 'GetStringLength'):
        want(E, st, v, STRING, 'only a string is used as one')
        return fresh('length', 32) if m == 'GetStringLength' else E.sym_obj(st, 'text', 1 << 32)
    raise Unsupported('rapidjson: ' + s)


def array(E, st, v):
    key = v.sexpr()
    for o, x in E.opts['arrays'].items():
        if x.sexpr() == key and o in st.mem:
            return o
    p = E.sym_obj(st, 'array', LEN(v) << 4)
    E.opts['arrays'][p.obj] = v
    return p.obj


@contract(r'^spectator::Counter::(Add\(double\)|Increment\(\))$', H)
def _add(E, st, a, c):
    p = E.to_ptr(a[0])
    for n, o in E.opts['counters'].items():
        if isinstance(p, Ptr) and p.obj == o.obj:
            if 'Increment' in c.dem:
                v = z3.BitVecVal(1, 64)
            elif isc(a[1]):
                f = b2d(a[1])
                if f != int(f) or abs(f) > 2 ** 53:
                    raise Unsupported('amount')
                v = z3.BitVecVal(int(f), 64)
            elif z3.is_app(a[1]) and a[1].decl().name() in (SITOFP.name(), UITOFP.name()):
                v = a[1].arg(0)
                E.oblige(st, z3.And(v >= 0, v < (1 << 53)), 'an amount is a number of measurements', 'spec')
            else:
                raise Unsupported('amount')
            st.g['n' + n] = bv(st.g['n' + n], 64) + v
            return None
    raise Unsupported('another counter')


@contract(r'^(const )?std::__?shared_ptr(_access)?<spectator::Counter.*::(operator->|operator\*|get|_M_get)\(\) const$', H)
def _cptr(E, st, a, c):
    p = E.to_ptr(a[0])
    v = E.mread(st, p.obj, p.off, 8)
    return v


@contract(r'^std::(__cxx11::)?basic_string<.*>::(c_str|data|size|length)\(\) const$', H)
def _text(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['response'].obj or p.off != k(E, 'body'):
        raise Unsupported('another text')
    return E.opts['len'] if re.search(r'(size|length)\(\) const$', c.dem) else E.opts['text']


@contract(r'^std::(__cxx11::)?basic_string<.*>::(basic_string|~basic_string)(<.*>)?\(|^std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)$|^std::__new_allocator<char>::', H)
def _str(E, st, a, c):
    return None


@contract(r'tsl::hopscotch_set<std::.*basic_string', H)
def _set(E, st, a, c):
    if not mp.strip(c.dem).split('(')[0].split(' ')[-1].startswith('tsl::'):
        return NotImplemented
    if mp.method(c.dem) not in ('emplace', 'insert'):
        raise Unsupported(c.dem)
    return None


@contract(r'^spectator::Registry::Get(Logger|Config)\(\) const$', H)
def _reg(E, st, a, c):
    return E.opts['config'] if 'Config' in c.dem else None


HANDLERS = H + lg.HANDLERS
CAUSES = ('invalid', 'http', 'other')


def t_handle(lo, hi, label):
    def run(E):
        st = State()
        E.opts['arrays'] = {}
        reg = E.sym_obj(st, 'registry', k(E, 'registry_size'))
        E.opts['config'] = cfg = E.sym_obj(st, 'config', k(E, 'config_size'))
        pub = E.sym_obj(st, 'publisher', k(E, 'publisher_size'))
        E.mwrite(st, pub.obj, k(E, 'registry'), 8, reg)
        E.opts['counters'] = {}
        for n in CAUSES + ('sent',):
            E.opts['counters'][n] = E.sym_obj(st, n, 256)
            E.mwrite(st, pub.obj, k(E, n), 8, E.opts['counters'][n])
            st.g['n' + n] = z3.BitVecVal(0, 64)
        E.opts['response'] = resp = E.sym_obj(st, 'response', k(E, 'response_size'))
        E.opts['len'] = fresh('length')
        E.opts['text'] = E.sym_obj(st, 'answer', 1 << 40)
        enabled = fresh('status_metrics', 1)
        E.mwrite(st, cfg.obj, k(E, 'status_enabled'), 1, z3.If(enabled, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        code = fresh('status', 32)
        st.assume(z3.And(code >= lo, code <= hi))
        st.assume(z3.Or(code == -1, code >= 0))   # what perform gives: -1 without an answer, otherwise the status
        E.mwrite(st, resp.obj, k(E, 'status'), 4, code)
        n = fresh('batch')
        st.assume(z3.ULT(n, 1 << 31))
        out = E.new_obj(st, 'result', 16, 'arg')
        errs = E.sym_obj(st, 'messages', 64)
        E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [inv]))
        answer, count = word('answer'), MEM(word('answer'), word('errorCount'))
        V = NUM(count)
        clear = z3.And(z3.Not(PERR(answer)), KIND(answer) == OBJECT, HAS(answer, word('errorCount')), fits(count, 'Uint64'), z3.ULE(V, z3.ZeroExt(8, n)))
        seen = set()
        for s, _ in E.run_fn(st, E.m.find1('^vc_handle$'), [pub, resp, n, errs, out, out + 8]):
            sent, err = [bv(E._as_bits(E.mread(s, out.obj, o, 8), 8), 64) for o in (0, 8)]
            E.oblige(s, z3.And(z3.ULE(sent, n), z3.ULE(err, n), sent + err == n), 'what is sent and what is dropped add up to the batch', 'spec')
            got = {x: bv(s.g['n' + x], 64) for x in CAUSES}
            cases = [('sent', code == 200, z3.BitVecVal(0, 64), None),
                     ('answer', z3.And(code > 200, code < 500, clear), z3.Extract(63, 0, V), 'invalid'),
                     ('no answer', z3.And(code > 200, code < 500, z3.Not(clear)), n, 'other'),
                     ('connection', code == -1, n, 'other'),
                     ('server', z3.And(code != -1, z3.Or(code < 200, code >= 500)), n, 'http')]
            for w, cond, e, cause in cases:
                if not E.S.sat(s.pc, cond):
                    continue
                seen.add(w)
                E.oblige(s, z3.Implies(cond, err == e), 'as many measurements are dropped as the answer says (%s)' % w, 'spec')
                for x in CAUSES:
                    E.oblige(s, z3.Implies(z3.And(cond, enabled), got[x] == (e if x == cause else z3.BitVecVal(0, 64))), 'the measurements dropped are added to the counter of their cause (%s, %s)' % (w, x), 'spec')
        for w in label:
            cover(E, 'answer ' + w, w in seen)
    return run


def inv(loop):
    """a pointer into an array is at one of its elements, or at its end"""
    r = []
    for h in [h for h in loop.hvars() if h.kind in ('phi', 'cell') and h.w == 64]:
        def f(s, e, h=h):
            v = h.get(loop.E, s, e)
            if not isinstance(v, Ptr) or v.obj not in loop.E.opts['arrays']:
                return True
            i, n = z3.LShR(bv(v.off, 64), 4), LEN(loop.E.opts['arrays'][v.obj])
            return z3.And(bv(v.off, 64) == i << 4, z3.ULE(i, n), z3.ULE(n, 0xffffffff))
        r.append(('spec: %r in its array' % h, f))
    return r


def tasks(module):
    return [('handle_aggr_response, no HTTP answer or below 200', t_handle(-1 << 31, 199, ('connection', 'server'))), ('handle_aggr_response, 200 to 499', t_handle(200, 499, ('sent', 'answer', 'no answer'))),
            ('handle_aggr_response, 500 and above', t_handle(500, (1 << 31) - 1, ('server',)))]
