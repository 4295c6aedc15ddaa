"""C22: the payload of a batch.  Appending to the payload is checked item by item: the item at position P of what a function appends
is the one its contract says.  Sets of tags and the string table are abstract (Tags: C09; table: the contract of a map)."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem, exact_quotient, Obj
from ..lib import contract
from . import logging as lg
from .reg import *
from .maps import k, strip, method
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c22.cc']
IRFLAGS = ['-fno-access-control']
H = []
BV, W4 = z3.BitVecSort(64), z3.BitVecSort(32)
KEY = z3.Function('tag.key', BV, BV, BV)
VAL = z3.Function('tag.value', BV, BV, BV)
TN = z3.Function('tags.count', BV, BV)
AT = z3.Function('tags.at', BV, BV, BV)
NAME = z3.Function('id.name', BV, BV)
TAGS = z3.Function('id.tags', BV, BV)
ID = z3.Function('measurement.id', BV, BV)
VALUE = z3.Function('measurement.value', BV, BV)
TEXT = z3.Function('text', BV, BV)
LEN = z3.Function('length', BV, BV)
IN = z3.Function('in.table', BV, z3.BoolSort())
IDX = z3.Function('index.of', BV, W4)
ITER = z3.Function('nth.string', BV, BV)
INV = z3.Function('place.of', BV, BV)
CID = z3.Function('common.index', BV, W4)
COMMON = z3.BitVec('common_tags', 64)
K = z3.BitVec('any_string', 64)
TRUSTED = ['ska::flat_hash_map<StrRef, int> is a map: operator[] adds a missing key, iteration visits every entry once and in the same order until the map is changed',
           'SmilePayload::Append encodes the item it is given (C02); Init starts an empty payload (C02, C03)', 'Tags (C09), Id (C11), refs() (C11), StrRef: equal references for equal texts (C10)',
           'std::vector<int>: reserve, emplace_back append'] + lg.TRUSTED
ASSUMPTIONS = ['fewer than 2^31 strings in a batch, fewer than 2^24 tags of an id', 'memory is available']
HARNESS = dict(srcs=[VERIF + '/harness/c22.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='random batches of measurements and common tags; the payload is decompressed, decoded and compared with the measurements')


def ref(n):
    return z3.BitVec('str!' + n, 64)


def index(off, stride):
    x = exact_quotient(off, stride)
    return bv(x, 64) if x is not None else z3.LShR(bv(off, 64), {2: 1, 4: 2, 8: 3, 16: 4}[stride])


def table16(st, off, w, f0, f8):
    """a word of an array of 16-byte elements"""
    for d, f in ((0, f0), (8, f8)):
        x = exact_quotient(sub(off, d), 16)
        if x is not None:
            return f(bv(x, 64))
    i = z3.LShR(bv(off, 64), 4)
    return z3.If(bv(off, 64) & 15 == 0, f0(i), f8(i))


def fnobj(E, st, name, size, f, fact=None):
    p = E.new_obj(st, name, size, 'arg', ('fn', f))
    E.objs[p.obj].onwrite = ro
    if fact:
        E.objs[p.obj].facts.append(fact)
    return p


def ro(E, st, off, w, v):
    raise Unsupported('write to constant data')


# ---- tag sets
def tags_obj(E, st, tok):
    n = tok.sexpr()
    for o, (t, s) in E.opts['tags'].items():
        if s == n and o in st.mem:
            return o
    st.assume(z3.ULT(TN(tok), 1 << 24))

    def f(E, st, o, w):
        if w != 8:
            raise Unsupported('part of a tag')
        return table16(st, o, w, lambda i: KEY(tok, i), lambda i: VAL(tok, i))

    def fact(E, st, off, w, v):
        i = z3.LShR(bv(off, 64), 4)
        r = z3.And(KEY(tok, i) != 0, VAL(tok, i) != 0)
        if E.opts.get('intable'):
            r = z3.And(r, IN(KEY(tok, i)), IN(VAL(tok, i)))
        return r
    p = fnobj(E, st, 'tags', TN(tok) << 4, f, fact)
    E.opts['tags'][p.obj] = (tok, n)
    return p.obj


def tags_tok(E, st, a):
    p = E.to_ptr(a)
    if isinstance(p, Ptr):
        if p.obj == E.opts['pub'].obj and p.off == k(E, 'tags'):
            return COMMON
        raise Unsupported('other tags')
    return p


@contract(r'^spectator::Tags::(begin|end|size|empty|at|has)\(', H)
def _tags(E, st, a, c):
    m = method(c.dem)
    t = tags_tok(E, st, a[0])
    if m in ('at', 'has'):
        q = E.to_ptr(a[1])
        r = AT(t, bv(E.to_int(E.mread(st, q.obj, q.off, 8)), 64))
        return r if m == 'at' else r != 0
    o = tags_obj(E, st, t)
    return {'begin': lambda: Ptr(o, 0), 'end': lambda: Ptr(o, TN(t) << 4), 'size': lambda: TN(t), 'empty': lambda: TN(t) == 0}[m]()


@contract(r'^spectator::Id::(Name|GetTags)\(\) const$', H)
def _id(E, st, a, c):
    p = E.to_ptr(a[0])
    if isinstance(p, Ptr):
        raise Unsupported('another id')
    v = (NAME if 'Name' in c.dem else TAGS)(p)
    st.assume(v != 0)
    if 'Name' in c.dem and E.opts.get('intable'):
        st.assume(IN(v))
    return v


@contract(r'^spectator::refs\(\)$', H)
def _refs(E, st, a, c):
    return E.opts['refs']


@contract(r'^spectator::Refs::(\w+)\(\) const$', H)
def _ref(E, st, a, c):
    v = ref(method(c.dem))
    st.assume(v != 0)
    if E.opts.get('intable') and method(c.dem) == 'name':
        st.assume(IN(v))
    return v


@contract(r'^spectator::StrRef::(Get|Length)\(\) const$', H)
def _get(E, st, a, c):
    p = E.to_ptr(a[0])
    t = TEXT(bv(E.to_int(E.mread(st, p.obj, p.off, 8)), 64))
    st.assume(t != 0)
    return t if 'Get' in c.dem else LEN(t)


@contract(r'^(std::char_traits<char>::length\(|strlen$)', H)
def _len(E, st, a, c):
    p = E.to_ptr(a[0])
    if isinstance(p, Ptr):
        return NotImplemented
    return LEN(p)


# ---- the payload
@contract(r'^spectator::SmilePayload::(Append|Init|Result)\(', H)
def _payload(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['payload'].obj:
        raise Unsupported('another payload')
    m = method(c.dem)
    if m == 'Init':
        E.oblige(st, z3.And(bv(st.g['inits'], 8) == 0, bv(st.g['tabled'], 8) == 0), 'a payload is started once, before anything is appended', 'spec')
        st.g['inits'] = bv(st.g['inits'], 8) + 1
        return None
    if m == 'Result' or 'expected' not in E.opts:
        raise Unsupported(c.dem)
    pos = bv(st.g['pos'], 64)
    if '(int)' in c.dem:
        kind, v = 'num', (z3.SignExt(32, bv(a[1], 32)),)
    elif '(unsigned long)' in c.dem:
        kind, v = 'num', (bv(E.to_int(a[1]) if isinstance(a[1], Ptr) else a[1], 64),)
    elif '(double)' in c.dem:
        kind, v = 'dbl', (bv(a[1], 64),)
    else:
        kind, v = 'str', (bv(a[1], 64), bv(E.to_int(a[2]), 64))
    for what, cond, ek, ev in E.opts['expected'](st, pos):
        if not E.S.sat(st.pc, cond):
            continue
        E.opts['seen'].add(what)
        ok = z3.And(*[x == y for x, y in zip(v, ev)]) if ek == kind else z3.BoolVal(False)
        E.oblige(st, z3.Implies(cond, ok), 'what is appended is ' + what, 'spec')
    E.oblige(st, z3.ULT(pos, E.opts['total']), 'nothing else is appended', 'spec')
    st.g['pos'] = pos + 1
    return None


# ---- the table of strings
def slot(E, st, key):
    """the value of a key: only that of K is followed"""
    def w(E, st, off, n, v):
        if off != 0 or n != 4:
            raise Unsupported('write to a slot')
        st.g['valK'] = z3.If(key == K, bv(v, 32), bv(st.g['valK'], 32))
        return True
    p = E.new_obj(st, 'slot', 4, 'arg', ('fn', lambda E, st, o, n: z3.If(key == K, bv(st.g['valK'], 32), fresh('value', 32))))
    E.objs[p.obj].onwrite = w
    return p


def entries(E, st):
    """from now on the table is iterated"""
    if st.g['iter'] is not True:
        st.g['iter'] = True
        st.assume(z3.And(z3.ULT(INV(K), SZ), ITER(INV(K)) == K) == st.g['hasK'])
        st.assume(z3.ULT(SZ, (1 << 31) - 1))
    if E.opts.get('entries') is None or E.opts['entries'].obj not in st.mem:
        def f(E, st, off, w):
            i = z3.LShR(bv(off, 64), 4)
            E.oblige(st, bv(off, 64) & 15 == (0 if w == 8 else 8), 'an entry is used as a string and its index', 'bounds')
            if w == 8:
                return ITER(i)
            if w == 4:
                return z3.If(i == INV(K), bv(st.g['valK'], 32), fresh('value', 32))
            raise Unsupported('part of an entry')

        def w(E, st, off, n, v):
            if n != 4:
                raise Unsupported('write to an entry')
            E.oblige(st, bv(off, 64) & 15 == 8, 'an entry is used as a string and its index', 'bounds')
            i = z3.LShR(bv(off, 64), 4)
            st.g['valK'] = z3.If(z3.And(i == INV(K), st.g['hasK']), bv(v, 32), bv(st.g['valK'], 32))
            return True
        p = E.new_obj(st, 'entries', SZ << 4, 'arg', ('fn', f))
        E.objs[p.obj].onwrite = w
        E.objs[p.obj].facts.append(lambda E, st, off, w, v: z3.And(INV(ITER(z3.LShR(bv(off, 64), 4))) == z3.LShR(bv(off, 64), 4), ITER(z3.LShR(bv(off, 64), 4)) != 0))
        E.opts['entries'] = p
    return E.opts['entries']


SZ = z3.BitVec('table_size', 64)


@contract(r'^([^\s(]+ )*std::unordered_map<spectator::StrRef, int[,>]', H)
def _map(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('std::'):
        return NotImplemented
    if m in ('unordered_map', '~unordered_map', 'reserve', 'rehash', 'max_load_factor'):
        if m == 'unordered_map' and 'unordered_map const&' in s or m == 'unordered_map' and '&&)' in s:
            raise Unsupported('copy of a table')
        return None
    p = E.to_ptr(a[0])
    if E.opts.get('intable'):
        if not isinstance(p, Ptr) or p.obj != E.opts['table'].obj:
            raise Unsupported('another table')
        if m in ('end', 'cend'):
            return end(E, st)
        if m in ('find', 'count', 'contains', 'at'):
            q = E.to_ptr(a[1])
            key = bv(E.to_int(E.mread(st, q.obj, q.off, 8)), 64)
            if m in ('count', 'contains'):
                return z3.If(IN(key), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if m == 'count' else IN(key)
            if m == 'at':
                E.oblige(st, IN(key), 'the strings of a measurement are in the table', 'spec')
                return entry(E, st, key) + 8
            no = st.copy()
            st.assume(IN(key))
            r = [(st, entry(E, st, key))] if E.S.sat(st.pc, z3.BoolVal(True)) else []
            no.assume(z3.Not(IN(key)))
            if E.S.sat(no.pc, z3.BoolVal(True)):
                r.append((no, end(E, no)))
            return r
        raise Unsupported('table: ' + s)
    if m == 'operator[]':
        if st.g['iter'] is True:
            raise Unsupported('the table changes after it was iterated')
        q = E.to_ptr(a[1])
        key = bv(E.to_int(E.mread(st, q.obj, q.off, 8)), 64)
        E.oblige(st, key != 0, 'only strings are put into the table', 'spec')
        st.g['valK'] = z3.If(z3.And(key == K, z3.Not(st.g['hasK'])), z3.BitVecVal(0, 32), bv(st.g['valK'], 32))
        st.g['hasK'] = z3.Or(st.g['hasK'], key == K)
        return slot(E, st, key)
    e = entries(E, st)
    if m in ('begin', 'cbegin'):
        return Ptr(e.obj, 0)
    if m in ('end', 'cend'):
        return Ptr(e.obj, SZ << 4)
    if m == 'size':
        return SZ
    raise Unsupported('table: ' + s)


def entry(E, st, key):
    """the entry of a string: its offset in the object of all entries is the string"""
    st.assume(z3.ULT(key, 1 << 56))
    return Ptr(E.opts['found'].obj, key)


def end(E, st):
    if '@@end' not in st.mem:
        st.mem['@@end'] = Mem((), ('undef',))
        st.size['@@end'] = 0
        st.alive['@@end'] = True
        E.objs['@@end'] = Obj('@@end', 'the end of the table (a string that is not in it)', 'global')
    return Ptr('@@end', 0)


@contract(r'^(bool )?std::__detail::(_Node_(const_)?iterator(_base)?<std::pair<spectator::StrRef const, int>|operator(==|!=)\(std::__detail::_Node_iterator_base)', H)
def _iter(E, st, a, c):
    m = method(c.dem)
    if m in ('_Node_const_iterator', '_Node_iterator'):
        p, v = E.to_ptr(a[0]), a[1] if len(a) > 1 else NULL
        if len(a) > 1 and '(std::__detail::_Node_iterator' in strip(c.dem) or 'const&' in strip(c.dem):
            q = E.to_ptr(a[1])
            v = E.mread(st, q.obj, q.off, 8)
        E.mwrite(st, p.obj, p.off, 8, v)
        return None
    p = E.to_ptr(a[0])
    v = E.to_ptr(E.mread(st, p.obj, p.off, 8))
    if not isinstance(v, Ptr):
        raise Unsupported('iterator')
    if m in ('operator*', 'operator@'):
        return v
    if m in ('operator==', 'operator!='):
        q = E.to_ptr(a[1])
        u = E.to_ptr(E.mread(st, q.obj, q.off, 8))
        if u.obj != v.obj:
            return m == 'operator!='
        r = simp(bv(u.off, 64) == bv(v.off, 64)) if not (isc(u.off) and isc(v.off)) else u.off == v.off
        return r if m == 'operator==' else (not r if isinstance(r, bool) else z3.Not(r))
    if m == 'operator++' and v.obj == (E.opts.get('entries') or NULL).obj:
        i = bv(v.off, 64)
        E.oblige(st, z3.ULT(i, SZ << 4), 'iteration stays in the table', 'bounds')
        E.mwrite(st, p.obj, p.off, 8, Ptr(v.obj, i + 16))
        return p if len(a) == 1 else v
    raise Unsupported('iterator: ' + c.dem)


# ---- vectors of indices
@contract(r'^([^\s(]+ )*std::vector<int, std::allocator<int>\s*>::', H)
def _ints(E, st, a, c):
    m = method(c.dem)
    if E.opts.get('ints') is None:
        return NotImplemented
    if m in ('vector', '~vector', 'reserve'):
        if len(a) > 1 and m == 'vector':
            raise Unsupported('copy of a vector')
        return None
    if m in ('emplace_back', 'push_back'):
        q = E.to_ptr(a[1])
        v = bv(E.mread(st, q.obj, q.off, 4), 32)
        pos = bv(st.g['pos'], 64)
        i = z3.LShR(pos, 1)
        E.oblige(st, z3.Implies(pos & 1 == 0, v == IDX(KEY(COMMON, i))), 'the index of the key of each common tag', 'spec')
        E.oblige(st, z3.Implies(pos & 1 == 1, v == IDX(VAL(COMMON, i))), 'the index of the value of each common tag', 'spec')
        E.oblige(st, z3.ULT(pos, TN(COMMON) << 1), 'no other index', 'spec')
        st.g['pos'] = pos + 1
        return a[1]
    if m == 'size':
        return bv(st.g['pos'], 64)
    raise Unsupported(c.dem)


# ---- in measurements_to_json
@contract(r'^([^\s(]+ )*spectator::Publisher<spectator::Registry>::(build_str_table|get_common_ids|append_measurement)\(', H)
def _parts(E, st, a, c):
    if not E.opts.get('parts'):
        return NotImplemented
    m = method(c.dem)

    def same(x, p):
        x = E.to_ptr(x)
        return isinstance(x, Ptr) and x.obj == p.obj and isc(x.off) and x.off == p.off

    def at(x, n):
        x = E.to_ptr(x)
        return x.off if isinstance(x, Ptr) and x.obj == E.opts['measurements'].obj else None
    if m == 'build_str_table':
        if len(a) != 5:
            raise Unsupported('other arguments')
        E.oblige(st, z3.And(bv(st.g['inits'], 8) == 1, bv(st.g['tabled'], 8) == 0, bv(st.g['pos'], 64) == 0), 'the table of strings comes first, once', 'spec')
        b, e = at(a[3], 0), at(a[4], 0)
        E.oblige(st, z3.And(same(a[1], E.opts['pub']), same(a[2], E.opts['payload']), b is not None and bv(b, 64) == 0, e is not None and bv(e, 64) == NM << 4), 'the table of strings is that of the batch', 'spec')
        st.g['tabled'] = z3.BitVecVal(1, 8)
        p = E.to_ptr(a[0])
        E.opts['tobj'] = p
        st.absv[(p.obj, p.off)] = z3.BitVec('table', 64)
        return None
    if m == 'get_common_ids':
        if len(a) != 3:
            raise Unsupported('other arguments')
        E.oblige(st, z3.And(bv(st.g['tabled'], 8) == 1, same(a[1], E.opts['pub']), same(a[2], E.opts.get('tobj', NULL))), 'the common indices are those of the table', 'spec')
        p = E.to_ptr(a[0])
        st.absv[(p.obj, p.off)] = z3.BitVec('common ids', 64)
        E.opts['cobj'] = p
        return None
    if len(a) != 5:
        raise Unsupported('other arguments')
    o = at(a[4], 0)
    pos = bv(st.g['pos'], 64)
    E.oblige(st, bv(st.g['tabled'], 8) == 1, 'measurements come after the table', 'spec')
    E.oblige(st, z3.And(same(a[0], E.opts['pub']), same(a[1], E.opts['payload']), same(a[2], E.opts.get('tobj', NULL)), same(a[3], E.opts.get('cobj', NULL))), 'measurements are appended with the table and the common indices of the batch', 'spec')
    E.oblige(st, z3.And(o is not None and bv(o, 64) == pos << 4, z3.ULT(pos, NM)), 'every measurement is appended once, in order', 'spec')
    st.g['pos'] = pos + 1
    return None


HANDLERS = H + lg.HANDLERS
NM = z3.BitVec('measurements', 64)


def setup(E, **o):
    st = State()
    E.opts.update(tags={}, refs=None, seen=set(), **o)
    E.opts['refs'] = E.new_obj(st, 'refs', 256, 'arg')
    E.opts['pub'] = E.sym_obj(st, 'publisher', k(E, 'publisher_size'))
    E.opts['payload'] = E.sym_obj(st, 'payload', k(E, 'payload_size'))
    E.opts['table'] = E.sym_obj(st, 'table', k(E, 'table_size'))
    if k(E, 'measurement_size') != 16 or k(E, 'measurement_id') != 0 or k(E, 'measurement_value') != 8:
        raise Unsupported('layout of Measurement')
    st.assume(z3.And(z3.ULT(NM, 1 << 31), z3.ULT(TN(COMMON), 1 << 24)))

    def f(E, st, off, w):
        return table16(st, off, w, ID, VALUE)
    def g(E, st, off, w):
        if w == 8:
            return bv(off, 64)
        if w == 4:
            return IDX(simp(bv(off, 64) - 8))
        raise Unsupported('part of an entry')
    E.opts['found'] = fnobj(E, st, 'found', 1 << 57, g)
    end(E, st)
    E.opts['measurements'] = fnobj(E, st, 'measurements', NM << 4, f, lambda E, st, off, w, v: ID(z3.LShR(bv(off, 64), 4)) != 0)
    st.g.update(pos=z3.BitVecVal(0, 64), inits=z3.BitVecVal(0, 8), tabled=z3.BitVecVal(0, 8), iter=False, hasK=z3.BoolVal(False), valK=z3.BitVecVal(0, 32))
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [inv]))
    return st


def inv(loop):
    """where iterators are, and what was done up to there"""
    r = []
    E = loop.E
    O = E.opts
    had = loop.st0.g['hasK']
    r.append(('spec: a string stays in the table', lambda s, e: z3.Implies(had, s.g['hasK'])))
    ent = O.get('entries')
    r.append(('spec: the index of a string stays', lambda s, e: bv(s.g['valK'], 32) == bv(loop.st0.g['valK'], 32)))
    hs = [h for h in loop.hvars() if h.kind in ('phi', 'cell')]
    for h in hs:
        if h.w == 64:
            def place(s, e, h=h, stride=16):
                v = h.get(E, s, e)
                if not isinstance(v, Ptr):
                    return None
                return v, bv(v.off, 64)

            def bounds(s, e, h=h):
                x = place(s, e, h)
                if x is None:
                    return True
                v, off = x
                n, sh = None, 4
                if v.obj in O['tags']:
                    n = TN(O['tags'][v.obj][0])
                elif v.obj == O['measurements'].obj:
                    n = NM
                elif ent is not None and v.obj == ent.obj:
                    n = SZ
                elif O.get('cids') is not None and v.obj == O['cids'].obj:
                    n, sh = TN(COMMON) << 1, 2
                if n is None:
                    return True
                i = z3.LShR(off, sh)
                return z3.And(off == i << sh, z3.ULE(i, n))
            r.append(('spec: %r in bounds' % h, bounds))

            def filled(s, e, h=h):
                x = place(s, e, h)
                if x is None or 'done' not in O:
                    return True
                v, off = x
                c = O['done'](v.obj, z3.LShR(off, 4))
                return True if c is None else z3.Implies(c, s.g['hasK'])
            r.append(('spec: %r filled' % h, filled))

            def numbered(s, e, h=h):
                x = place(s, e, h)
                if x is None or ent is None or x[0].obj != ent.obj:
                    return True
                return z3.Implies(z3.And(s.g['hasK'], z3.ULT(INV(K), z3.LShR(x[1], 4))), bv(s.g['valK'], 32) == z3.Extract(31, 0, INV(K)))
            r.append(('spec: %r numbered' % h, numbered))

            def posn(s, e, h=h):
                x = place(s, e, h)
                if x is None or 'place' not in O:
                    return True
                v, off = x
                c = O['place'](v.obj, off)
                return True if c is None else bv(s.g['pos'], 64) == c
            r.append(('spec: %r position' % h, posn))
        def counter(h=h):
            """the same for a loop that counts instead of moving an iterator"""
            objs = [(o, 4) for o in O['tags']] + [(O['measurements'].obj, 4)] + ([(O['cids'].obj, 2)] if O.get('cids') is not None else [])
            for o, sh in objs:
                def at(s, e):
                    v = h.get(E, s, e)
                    return None if isinstance(v, Ptr) or not (isc(v) or z3.is_bv(v)) else bv(v, 64) if h.w == 64 else z3.ZeroExt(32, bv(v, 32))

                def posn(s, e, o=o, sh=sh):
                    i = at(s, e)
                    c = O['place'](o, i << sh) if i is not None and 'place' in O else None
                    return True if c is None else bv(s.g['pos'], 64) == c

                def filled(s, e, o=o):
                    i = at(s, e)
                    c = O['done'](o, i) if i is not None and 'done' in O else None
                    return True if c is None else z3.Implies(c, s.g['hasK'])

                def bounds(s, e, o=o):
                    i = at(s, e)
                    n = NM if o == O['measurements'].obj else TN(O['tags'][o][0]) if o in O['tags'] else TN(COMMON) << 1
                    return True if i is None else z3.ULE(i, n)
                r.extend([('spec: %r counts elements of %s' % (h, o), bounds), ('spec: %r counts up to the position in %s' % (h, o), posn), ('spec: %r counts what is filled of %s' % (h, o), filled)])
        if h.w in (32, 64):
            counter()
        if h.w == 32:
            for g in hs:
                if g.w == 64:
                    def count(s, e, h=h, g=g):
                        v = g.get(E, s, e)
                        x = h.get(E, s, e)
                        if not isinstance(v, Ptr) or ent is None or v.obj != ent.obj or isinstance(x, Ptr):
                            return True
                        return z3.ZeroExt(32, bv(x, 32)) == z3.LShR(bv(v.off, 64), 4)
                    r.append(('spec: %r counts %r' % (h, g), count))
    return r


def t_table(case):
    def run(E):
        st = setup(E)
        m, t = z3.BitVec('any_measurement', 64), z3.BitVec('any_tag', 64)
        st.assume(z3.And(z3.ULT(m, NM)))
        T = TAGS(ID(m))
        want, idx = {'key of a common tag': (KEY(COMMON, t), TN(COMMON)), 'value of a common tag': (VAL(COMMON, t), TN(COMMON)), 'word "name"': (ref('name'), None), 'name of a measurement': (NAME(ID(m)), None),
                     'key of a tag': (KEY(T, t), TN(T)), 'value of a tag': (VAL(T, t), TN(T))}[case]
        if idx is not None:
            st.assume(z3.ULT(t, idx))
        st.assume(K == want)
        st.assume(K != 0)

        def done(obj, i):
            if obj in E.opts['tags']:
                tok = E.opts['tags'][obj][0]
                if 'common' in case:
                    return z3.And(z3.ULT(t, i), tok == COMMON)
                if 'tag' in case:
                    return z3.And(z3.ULT(t, i), tok == T)
            if obj == E.opts['measurements'].obj and ('measurement' in case or case.endswith('of a tag')):
                return z3.ULT(m, i)
            return None
        E.opts['done'] = done
        E.opts['place'] = lambda obj, off: 1 + z3.LShR(off, 4) if E.opts.get('entries') is not None and obj == E.opts['entries'].obj else None
        E.opts['total'] = SZ + 1
        E.opts['expected'] = lambda st, pos: [('the number of strings', pos == 0, 'num', (SZ,)), ('each string of the table', pos != 0, 'str', (LEN(TEXT(ITER(pos - 1))), TEXT(ITER(pos - 1))))]
        b, e = E.opts['measurements'], Ptr(E.opts['measurements'].obj, NM << 4)
        n = 0
        for s, r in E.run_fn(st, E.m.find1('^vc_table$'), [E.opts['pub'], E.opts['payload'], b, e, E.opts['table']]):
            n += 1
            E.oblige(s, bv(s.g['pos'], 64) == SZ + 1, 'every string of the table is appended', 'spec')
            E.oblige(s, s.g['hasK'], 'the %s is in the table' % case, 'spec')
            E.oblige(s, z3.And(bv(s.g['valK'], 32) == z3.Extract(31, 0, INV(K)), ITER(INV(K)) == K, z3.ULT(INV(K), SZ)), 'the index of the %s is its place in the payload' % case, 'spec')
        cover(E, 'table', n > 0)
        for w in ('the number of strings', 'each string of the table'):
            cover(E, w, w in E.opts['seen'])
    return run


def t_common(E):
    st = setup(E, intable=True, ints=True)
    E.opts['place'] = lambda obj, off: z3.LShR(off, 4) << 1 if obj in E.opts['tags'] else None
    out = E.new_obj(st, 'result', 24, 'arg')
    n = 0
    for s, r in E.run_fn(st, E.m.find1('^vc_common$'), [E.opts['pub'], E.opts['table'], out]):
        n += 1
        E.oblige(s, bv(s.g['pos'], 64) == TN(COMMON) << 1, 'there is an index for every key and value of the common tags', 'spec')
    cover(E, 'common', n > 0)


def t_append(E):
    st = setup(E, intable=True)
    N, m = TN(COMMON) << 1, z3.BitVec('any_measurement', 64)
    st.assume(z3.ULT(m, NM))
    T = TAGS(ID(m))
    n = TN(T)
    E.opts['cids'] = c = fnobj(E, st, 'ids', N << 2, lambda E, st, o, w: CID(index(o, 4)))
    vec = E.new_obj(st, 'common_ids', 24, 'arg')
    for i, v in enumerate((c, Ptr(c.obj, N << 2), Ptr(c.obj, N << 2))):
        E.mwrite(st, vec.obj, 8 * i, 8, v)

    def place(obj, off):
        if obj == c.obj:
            return 1 + z3.LShR(off, 2)
        if obj in E.opts['tags']:
            return 1 + N + (z3.LShR(off, 4) << 1)
    E.opts['place'] = place
    E.opts['total'] = N + (n << 1) + 5
    stat = AT(T, ref('statistic'))
    st.assume(z3.And(*[ref(x) != 0 for x in ('count', 'totalAmount', 'totalTime', 'totalOfSquares', 'percentile')]))
    add = z3.Or(*[stat == ref(x) for x in ('count', 'totalAmount', 'totalTime', 'totalOfSquares', 'percentile')])

    def expected(st, pos):
        q = pos - 1 - N
        i = z3.LShR(q, 1)
        sx = lambda x: z3.SignExt(32, x)
        e = 1 + N + (n << 1)
        return [('the number of tags', pos == 0, 'num', (n + 1 + TN(COMMON),)), ('the indices of the common tags', z3.And(pos != 0, z3.ULE(pos, N)), 'num', (sx(CID(pos - 1)),)),
                ('the index of the key of each tag', z3.And(z3.UGT(pos, N), z3.ULT(pos, e), q & 1 == 0), 'num', (sx(IDX(KEY(T, i))),)),
                ('the index of the value of each tag', z3.And(z3.UGT(pos, N), z3.ULT(pos, e), q & 1 == 1), 'num', (sx(IDX(VAL(T, i))),)),
                ('the index of "name"', pos == e, 'num', (sx(IDX(ref('name'))),)), ('the index of the name', pos == e + 1, 'num', (sx(IDX(NAME(ID(m)))),)),
                ('the operation', pos == e + 2, 'num', (z3.If(add, z3.BitVecVal(0, 64), z3.BitVecVal(10, 64)),)), ('the value', pos == e + 3, 'dbl', (VALUE(m),))]
    E.opts['expected'] = expected
    k_ = 0
    for s, r in E.run_fn(st, E.m.find1('^vc_append$'), [E.opts['pub'], E.opts['payload'], E.opts['table'], vec, Ptr(E.opts['measurements'].obj, m << 4)]):
        k_ += 1
        E.oblige(s, bv(s.g['pos'], 64) == E.opts['total'], 'everything of the measurement is appended', 'spec')
    cover(E, 'append', k_ > 0)
    for w in [x[0] for x in expected(st, z3.BitVecVal(0, 64))]:
        cover(E, w, w in E.opts['seen'])


def t_json(E):
    st = setup(E, parts=True, ints=True)
    E.opts['place'] = lambda obj, off: z3.LShR(off, 4) if obj == E.opts['measurements'].obj else None
    n = 0
    for s, r in E.run_fn(st, E.m.find1('^vc_json$'), [E.opts['pub'], E.opts['payload'], E.opts['measurements'], Ptr(E.opts['measurements'].obj, NM << 4)]):
        n += 1
        E.oblige(s, z3.And(bv(s.g['pos'], 64) == NM, bv(s.g['inits'], 8) == 1, bv(s.g['tabled'], 8) == 1), 'the payload has the table of strings and every measurement', 'spec')
    cover(E, 'json', n > 0)


CASES = ['key of a common tag', 'value of a common tag', 'word "name"', 'name of a measurement', 'key of a tag', 'value of a tag']


def tasks(module):
    return [('build_str_table: ' + c, t_table(c)) for c in CASES] + [('get_common_ids', t_common), ('append_measurement', t_append), ('measurements_to_json', t_json)]
