"""C11: ids over the contract of the tag sets (C09): a tag set is one abstract value, equal exactly when its content is."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem
from ..lib import contract
from .meters import ABSL

SOURCES = [VERIF + '/vc/drivers/c11.cc']
IRFLAGS = ['-fno-access-control']
HANDLERS = H = []
TRUSTED = ['Tags: copy, move, add, add_all, has, at, ==, hash: contracts proved by C09 (equality is equality of the content, the hash a function of it)',
           'intern_str: a reference that depends only on the text (C10)', 'std::shared_ptr<Id>::get/operator*/operator-> give the id it holds',
           'function-local statics are initialised once']
ASSUMPTIONS = ['the cached hash of an id is written by one thread at a time or with the same value (it is a plain field)']
HARNESS = dict(srcs=[VERIF + '/harness/c11.cc', 'spectator/string_pool.cc', 'spectator/common_refs.cc'], libs=ABSL + ['-lfmt', '-lxxhash', '-lpthread'],
               what='random ids with up to 20 tags against a name/map oracle: equality, hashes, every deriving function')
BV = z3.BitVecSort(64)
ADD = z3.Function('tags.add', BV, BV, BV, BV)
ALL = z3.Function('tags.add_all', BV, BV, BV)
HASV = z3.Function('tags.has', BV, BV, z3.BoolSort())
ATV = z3.Function('tags.at', BV, BV, BV)
TH = z3.Function('tags.hash', BV, BV)
SZ = z3.Function('tags.size', BV, BV)
INTERN = z3.Function('intern', BV, BV, BV)
EMPTY = z3.BitVec('no tags', 64)


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def k(E, n):
    return E.m.global_init('vc_' + n)[1][2]


def fn(E, n):
    return E.m.find1('^vc_%s$' % n)


def tk(st, p):
    v = st.absv.get((p.obj, p.off)) if isinstance(p, Ptr) else None
    if v is None:
        raise Unsupported('unknown tag set')
    return v


def ptr(E, st, v):
    r = E.deref(st, v, 'tags')
    if len(r) != 1:
        raise Unsupported('ambiguous tag set')
    return r[0][1]


T = r'^spectator::Tags::'


@contract(T + r'Tags\(spectator::Tags const&\)$', H)
def _copy(E, st, a, c):
    p = E.to_ptr(a[0])
    st.absv[(p.obj, p.off)] = tk(st, ptr(E, st, a[1]))


@contract(T + r'(Tags\(spectator::Tags&&\)|operator=\(spectator::Tags&&\))$', H)
def _move(E, st, a, c):
    p, q = E.to_ptr(a[0]), ptr(E, st, a[1])
    v = tk(st, q)
    if not (p.obj == q.obj and eq(p.off, q.off) is True):
        st.absv[(q.obj, q.off)] = fresh('movedfrom')
    st.absv[(p.obj, p.off)] = v
    return a[0] if 'operator=' in c.dem else None


@contract(T + r'Tags\(\)$', H)
def _new(E, st, a, c):
    p = E.to_ptr(a[0])
    st.absv[(p.obj, p.off)] = EMPTY


@contract(T + r'~Tags\(\)$', H)
def _dtor(E, st, a, c):
    p = ptr(E, st, a[0])
    E.oblige(st, (p.obj, p.off) in st.absv, 'a tag set is destroyed once', 'lifetime')
    st.absv.pop((p.obj, p.off), None)


@contract(T + r'add\(spectator::StrRef, spectator::StrRef\)$', H)
def _add(E, st, a, c):
    p = ptr(E, st, a[0])
    st.absv[(p.obj, p.off)] = ADD(tk(st, p), bv(E.to_int(a[1]), 64), bv(E.to_int(a[2]), 64))


@contract(T + r'add_all\(spectator::Tags const&\)$', H)
def _addall(E, st, a, c):
    p = ptr(E, st, a[0])
    st.absv[(p.obj, p.off)] = ALL(tk(st, p), tk(st, ptr(E, st, a[1])))


def key(E, st, p):
    return bv(E.to_int(E.mread(st, E.to_ptr(p).obj, E.to_ptr(p).off, 8)), 64)


@contract(T + r'has\(spectator::StrRef const&\) const$', H)
def _has(E, st, a, c):
    return HASV(tk(st, ptr(E, st, a[0])), key(E, st, a[1]))


@contract(T + r'at\(spectator::StrRef const&\) const$', H)
def _at(E, st, a, c):
    t, x = tk(st, ptr(E, st, a[0])), key(E, st, a[1])
    v = ATV(t, x)
    st.assume((v != 0) == HASV(t, x))
    return v


@contract(T + r'operator==\(spectator::Tags const&\) const$', H)
def _eq(E, st, a, c):
    return tk(st, ptr(E, st, a[0])) == tk(st, ptr(E, st, a[1]))


@contract(T + r'hash\(\) const$', H)
def _hash(E, st, a, c):
    return TH(tk(st, ptr(E, st, a[0])))


@contract(T + r'size\(\) const$', H)
def _size(E, st, a, c):
    return SZ(tk(st, ptr(E, st, a[0])))


@contract(T + r'empty\(\) const$', H)
def _empty(E, st, a, c):
    return SZ(tk(st, ptr(E, st, a[0]))) == 0


@contract(r'^spectator::intern_str\(', H)
def _intern(E, st, a, c):
    if 'basic_string_view' in c.dem:
        if isinstance(a[0], Ptr) and a[0].obj.startswith('@') and isc(a[1]):
            s = b''.join(bytes([E.mread(st, a[0].obj, add(a[0].off, i), 1)]) for i in range(a[1]))
            return z3.BitVec('str!' + s.decode(), 64)
        return INTERN(bv(E.to_int(a[0]), 64), bv(E.to_int(a[1]), 64))
    if 'char const*' in c.dem:
        s = E.cstring(st, a[0])
        if s is None:
            raise Unsupported('intern_str of an unknown text')
        return z3.BitVec('str!' + s.decode(), 64)
    raise Unsupported('intern_str of a string')


@contract(r'^std::(__)?shared_ptr(_access)?<spectator::Id[^()]*>::(operator\*|operator->|get|_M_get)\(\) const$', H)
def _sp(E, st, a, c):
    return E.mread(st, E.to_ptr(a[0]).obj, E.to_ptr(a[0]).off, 8)


STATISTIC = z3.BitVec('str!statistic', 64)


@contract(r'^spectator::refs\(\)$', H)
def _refs(E, st, a, c):
    if E.opts.get('real_refs'):
        return NotImplemented
    if 'refs' not in st.g:
        st.g['refs'] = E.new_obj(st, 'refs', k(E, 'sizeof_refs'), 'arg')
    return st.g['refs']


@contract(r'^spectator::Refs::(\w+)\(\) const$', H)
def _ref(E, st, a, c):
    if E.opts.get('real_refs'):
        return NotImplemented
    return z3.BitVec('str!' + re.match(r'^spectator::Refs::(\w+)', c.dem).group(1), 64)


class I:
    """an arbitrary id: its cached hash is unset or right"""

    def __init__(self, E, st, nm, H_):
        self.p = E.new_obj(st, nm, k(E, 'sizeof_id'), 'arg')
        self.name, self.tok, self.h = fresh('name.' + nm), fresh('tags.' + nm), fresh('hash.' + nm)
        st.absv[(self.p.obj, k(E, 'off_tags'))] = self.tok
        E.mwrite(st, self.p.obj, k(E, 'off_name'), 8, self.name)
        E.mwrite(st, self.p.obj, k(E, 'off_hash'), 8, self.h)
        if H_:
            st.assume(z3.Or(self.h == 0, self.h == H_(self.name, self.tok)))


def get(E, s, p):
    return (bv(E.to_int(E.mread(s, p.obj, add(p.off, k(E, 'off_name')), 8)), 64), s.absv.get((p.obj, add(p.off, k(E, 'off_tags')))),
            bv(E._as_bits(E.mread(s, p.obj, add(p.off, k(E, 'off_hash')), 8), 8), 64))


def the_hash(E):
    """the hash as a function of name and tags: what Hash() computes for an id whose hash is not cached"""
    st = State()
    a = I(E, st, 'h', None)
    E.mwrite(st, a.p.obj, k(E, 'off_hash'), 8, 0)
    rs = E.run_fn(st, fn(E, 'hash'), [a.p])
    out = None
    for s, r in rs:
        cond = z3.And(*s.pc) if s.pc else z3.BoolVal(True)
        out = bv(r, 64) if out is None else z3.If(cond, bv(r, 64), out)
    return lambda n, t: z3.substitute(out, (a.name, n), (a.tok, t))


def isid(E, s, p, name, tok, H_, what):
    n, t, h = get(E, s, p)
    E.oblige(s, n == name, '%s: the name' % what, 'spec')
    E.oblige(s, t is not None and t == tok, '%s: the tags' % what, 'spec')
    if t is not None:
        E.oblige(s, z3.Or(h == 0, h == H_(n, t)), '%s: the cached hash is unset or right' % what, 'inv')


def t_hash(E):
    H_ = the_hash(E)
    st = State()
    a = I(E, st, 'a', H_)
    n = 0
    for s, r in E.run_fn(st.copy(), fn(E, 'hash'), [a.p]):
        n += 1
        E.oblige(s, bv(r, 64) == H_(a.name, a.tok), 'the hash is a function of name and tags', 'spec')
        isid(E, s, a.p, a.name, a.tok, H_, 'after hashing')
    sp = E.new_obj(st, 'sp', 16, 'arg')
    E.mwrite(st, sp.obj, 0, 8, a.p)
    for s, r in E.run_fn(st.copy(), fn(E, 'hashp'), [sp]):
        n += 1
        E.oblige(s, bv(r, 64) == H_(a.name, a.tok), 'the hash of a pointer is the hash of its id', 'spec')
    cover(E, 'hash', n >= 2)


def t_eq(E):
    H_ = the_hash(E)
    st = State()
    a, b = I(E, st, 'a', H_), I(E, st, 'b', H_)
    want = z3.And(a.name == b.name, a.tok == b.tok)
    n = set()
    for s, r in E.run_fn(st.copy(), fn(E, 'eq'), [a.p, b.p]):
        E.oblige(s, b_not(b_xor(r, want)), 'ids are equal exactly when names and tags are', 'spec')
        isid(E, s, a.p, a.name, a.tok, H_, 'after comparing')
        n.add(1)
    p, q = E.new_obj(st, 'sp', 16, 'arg'), E.new_obj(st, 'sq', 16, 'arg')
    E.mwrite(st, p.obj, 0, 8, a.p)
    E.mwrite(st, q.obj, 0, 8, b.p)
    for s, r in E.run_fn(st.copy(), fn(E, 'eqp'), [p, q]):
        E.oblige(s, b_not(b_xor(r, want)), 'pointers to ids are equal keys exactly when the ids are', 'spec')
        n.add(2)
    cover(E, 'equality', len(n) == 2)


def t_make(E):
    H_ = the_hash(E)
    st = State()
    t = E.new_obj(st, 't', k(E, 'sizeof_tags'), 'arg')
    tok, name, x, y = fresh('tok'), fresh('name'), fresh('s'), fresh('n')
    st.absv[(t.obj, 0)] = tok
    r = E.new_obj(st, 'r', k(E, 'sizeof_id'), 'arg')
    n = 0
    for f, args, nm in (('new', [r, name, t], name), ('new_sv', [r, x, y, t], INTERN(y, x)), ("of", [r, x, y, t], INTERN(y, x))):
        for s, _ in E.run_fn(st.copy(), fn(E, f), args):
            n += 1
            isid(E, s, r, nm, tok, H_, 'a new id')
    st = State()
    a = I(E, st, 'a', H_)
    r = E.new_obj(st, 'r', k(E, 'sizeof_id'), 'arg')
    for f in ('copy', 'move'):
        for s, _ in E.run_fn(st.copy(), fn(E, f), [r, a.p]):
            n += 1
            isid(E, s, r, a.name, a.tok, H_, f)
            if f == 'copy':
                isid(E, s, a.p, a.name, a.tok, H_, 'the original')
    for s, v in E.run_fn(st.copy(), fn(E, 'name'), [a.p]):
        E.oblige(s, eq(E.to_int(v), a.name), 'Name()', 'spec')
        n += 1
    for s, v in E.run_fn(st.copy(), fn(E, 'tags'), [a.p]):
        v = E.to_ptr(v)
        E.oblige(s, isinstance(v, Ptr) and v.obj == a.p.obj and eq(v.off, k(E, 'off_tags')), 'GetTags()', 'spec')
        n += 1
    cover(E, 'construction', n >= 7)


def t_derive(E):
    H_ = the_hash(E)
    st = State()
    a = I(E, st, 'a', H_)
    r = E.new_obj(st, 'r', k(E, 'sizeof_id'), 'arg')
    t = E.new_obj(st, 't', k(E, 'sizeof_tags'), 'arg')
    extra = fresh('extra')
    st.absv[(t.obj, 0)] = extra
    k1, v1, k2, v2 = (fresh(x) for x in ('k1', 'v1', 'k2', 'v2'))
    n = 0
    cases = [('with', [k1, v1], ADD(a.tok, k1, v1), 'WithTag'), ('with2', [k1, v1, k2, v2], ADD(ADD(a.tok, k1, v1), k2, v2), 'WithTags'),
             ('withall', [t], ALL(a.tok, extra), 'WithTags(tags)'), ('stat', [v1], ADD(a.tok, STATISTIC, v1), 'WithStat'),
             ('dstat', [v1], z3.If(HASV(a.tok, STATISTIC), a.tok, ADD(a.tok, STATISTIC, v1)), 'WithDefaultStat')]
    for f, args, tok, nm in cases:
        c = 0
        for s, _ in E.run_fn(st.copy(), fn(E, f), [r, a.p] + args):
            c += 1
            isid(E, s, r, a.name, tok, H_, nm)
            isid(E, s, a.p, a.name, a.tok, H_, '%s: the original' % nm)
        cover(E, nm, c)


@contract(r'^__cxa_guard_acquire$', H)
def _guard(E, st, a, c):
    return 1 if 'guard' in st.g else NotImplemented


@contract(r'^__cxa_guard_release$', H)
def _guardr(E, st, a, c):
    p = E.to_ptr(a[0])
    E.mwrite(st, p.obj, p.off, 1, 1)
    return None


def t_refs(E):
    E.opts['real_refs'] = True
    st = State()
    st.g['guard'] = 1
    for g in E.m.globals:
        if g.startswith('_ZGV'):
            o = E.global_obj(st, g)
            E.mwrite(st, o, 0, 1, 0)
    n = 0
    want = dict(name='name', count='count', gauge='gauge', totalTime='totalTime', totalAmount='totalAmount', totalOfSquares='totalOfSquares',
                percentile='percentile', max='max', statistic='statistic')
    for s, r in E.run_fn(st, fn(E, 'refs'), []):
        for s2, r2 in E.run_fn(s, fn(E, 'refs'), []):
            a, b = E.to_ptr(r), E.to_ptr(r2)
            E.oblige(s2, isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj, 'refs() is one object', 'spec')
            for f, txt in want.items():
                for s3, v in E.run_fn(s2.copy(), fn(E, 'r_' + f), [r2]):
                    n += 1
                    E.oblige(s3, eq(E.to_int(v), z3.BitVec('str!' + txt, 64)), 'refs().%s() is the interned "%s"' % (f, txt), 'spec')
    cover(E, 'refs', n == 9)


def tasks(m):
    return [('hash', t_hash), ('equality', t_eq), ('construction', t_make), ('derived ids', t_derive), ('common references', t_refs)]
