"""C10: the string pool.  Intern against a contract of the hash map, with the pool invariant as the property itself:

  every entry maps (text, length) to the reference to that very text, a NUL-terminated valid text of its own block that
  is neither written nor freed while it is in the table; no two entries have equal keys (the map's contract, which needs
  StringComparer to be text equality and StringHasher to depend on the text only)."""
import z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem, Undef
from ..lib import contract
from .meters import ABSL

SOURCES = [VERIF + '/vc/drivers/c10.cc']
IRFLAGS = ['-fno-access-control']
HANDLERS = H = []
TRUSTED = ['tsl::hopscotch_map: find/insert/iterators keep a set of entries with pairwise different keys, given an equality and a hash that agree',
           'absl::MutexLock holds the mutex from its construction to its destruction', 'XXH3_64bits depends only on the bytes', 'memcmp/strcmp compare bytes',
           'malloc gives fresh memory']
ASSUMPTIONS = ['texts are shorter than 2^32 bytes', 'allocation succeeds', 'the pool of intern_str is never destroyed (it is a leaked function-local static)']
HARNESS = dict(srcs=[VERIF + '/harness/c10.cc', 'spectator/string_pool.cc'], libs=ABSL + ['-lfmt', '-lxxhash', '-lpthread'],
               what='random and exhaustive single-byte texts against an independent map, addresses and contents checked again at the end, four threads')
BV8 = z3.BitVecSort(8)
MAP = r'^([^()]* )?tsl::hopscotch_map<spectator::String, spectator::StrRef,[^()]*>::'
IT = 'tsl::detail_hopscotch_hash::hopscotch_hash<std::pair<spectator::String, spectator::StrRef>'


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and eq(a.off, b.off) is True


def valid(c):
    c = bv(c, 8)

    def rng(a, b):
        return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.Or(rng('A', 'Z'), rng('a', 'z'), rng('0', '9'), *[c == ord(x) for x in '.-_~^'])


def clean(c):
    return z3.If(valid(c), bv(c, 8), z3.BitVecVal(ord('_'), 8))


def k(E, n):
    return E.m.global_init('vc_' + n)[1][2]


def fn(E, n):
    return E.m.find1('^vc_%s$' % n)


def locked(E, st, what):
    E.oblige(st, st.g.get('lock') == 1, '%s only while the lock is held' % what, 'lock')


def read8(E, st, p, off=0):
    return E.mread(st, p.obj, add(p.off, off), 8)


def entry(E, st, text, ln):
    """an arbitrary entry of the table whose key equals the given text: text(i) for i < ln"""
    B = z3.Function('pooled!%d' % E.nobj, BV64, BV8)
    o = E.new_obj(st, 'pooled', add(ln, 1), 'heap', ('fn', lambda E, st, off, w: B(bv(off, 64)) if w == 1 else bad(w)))
    E.objs[o.obj].facts.append(lambda E, st, off, w, v: z3.If(z3.ULT(bv(off, 64), bv(ln, 64)), z3.And(valid(v), bv(v, 8) == text(off)),
                                                                z3.Implies(bv(off, 64) == bv(ln, 64), bv(v, 8) == 0)))
    e = E.new_obj(st, 'entry', k(E, 'sizeof_entry'), 'arg')
    E.mwrite(st, e.obj, k(E, 'off_es'), 8, o)
    E.mwrite(st, e.obj, k(E, 'off_el'), 8, ln)
    E.mwrite(st, e.obj, k(E, 'off_er'), 8, o)
    st.g['pooled'] = st.g.get('pooled', ()) + (o.obj,)
    return e


BV64 = z3.BitVecSort(64)


def bad(w):
    raise Unsupported('%d-byte read of a text' % w)


def keyof(E, st, p):
    p = E.to_ptr(p)
    s = E.to_ptr(read8(E, st, p, k(E, 'off_s')))
    n = E._as_bits(read8(E, st, p, k(E, 'off_l')), 8)
    if not isinstance(s, Ptr):
        raise Unsupported('unresolved text')
    return s, n


@contract(r'^absl::(\w+::)?MutexLock::MutexLock\(', H)
def _lk(E, st, a, c):
    m = E.to_ptr(a[1])
    E.oblige(st, isinstance(m, Ptr) and st.g.get('pool') is not None and same_ptr(m, st.g['pool']), 'the lock of the pool is taken', 'lock')
    st.g['lock'] = 1
    return None


@contract(r'^absl::(\w+::)?MutexLock::~MutexLock\(', H)
def _ulk(E, st, a, c):
    st.g['lock'] = 0
    return None


@contract(MAP + r'find\w*(\[abi:cxx11\])?\(', H)
def _find(E, st, a, c):
    locked(E, st, 'the table is searched')
    out, key = E.to_ptr(a[0]), a[2]
    s, n = keyof(E, st, key)
    if not E.check_access(st, s, n, 'find'):
        return []
    sm, so = st.mem[s.obj], s.off
    nm = s.obj
    miss = st.copy()
    E.mwrite(miss, out.obj, out.off, 8, NULL)
    hit = st.copy()
    e = entry(E, hit, lambda off: bv(E._read(hit, sm, add(off, so), 1, nm), 8), n)
    E.mwrite(hit, out.obj, out.off, 8, e)
    hit.g['hit'] = 1
    return [(miss, None), (hit, None)]


@contract(MAP + r'c?end\w*(\[abi:cxx11\])?\(', H)
def _end(E, st, a, c):
    out = E.to_ptr(a[0])
    E.mwrite(st, out.obj, out.off, 8, NULL)
    return None


def same(E, st, a):
    x, y = (E.to_ptr(read8(E, st, E.to_ptr(p))) for p in a[:2])
    return x.obj == y.obj


@contract(r'^(bool )?tsl::detail_hopscotch_hash::operator(!=|==)\(tsl::detail_hopscotch_hash::hopscotch_hash<std::pair<spectator::String, spectator::StrRef>', H)
def _itcmp(E, st, a, c):
    r = same(E, st, a)
    return (not r) if 'operator!=' in c.dem.split('(')[0] + '(' else r


@contract(r'hopscotch_hash<std::pair<spectator::String, spectator::StrRef>.*::hopscotch_iterator<\w+>::(operator->|operator\*|value|key)\(\) const$', H)
def _deref(E, st, a, c):
    locked(E, st, 'an entry is read')
    p = E.to_ptr(read8(E, st, E.to_ptr(a[0])))
    if p.obj is None:
        E.fail(st, 'the end of the table is not read', 'pre')
        return []
    return Ptr(p.obj, k(E, 'off_er')) if c.dem.endswith('value() const') else p


@contract(MAP + r'(insert|emplace)\w*(\[abi:cxx11\])?(<.*>)?\(std::pair<spectator::String, spectator::StrRef>', H)
def _insert(E, st, a, c):
    locked(E, st, 'the table is changed')
    out, v = E.to_ptr(a[0]), E.to_ptr(a[2])
    s = E.to_ptr(read8(E, st, v, k(E, 'off_es')))
    n = E._as_bits(read8(E, st, v, k(E, 'off_el')), 8)
    r = E.to_ptr(read8(E, st, v, k(E, 'off_er')))
    if not isinstance(s, Ptr) or not isinstance(r, Ptr):
        raise Unsupported('unresolved text in the new entry')
    src, ln = st.g['string'], st.g['len']
    E.oblige(st, eq(n, ln), 'the new key has the length of the text', 'inv')
    E.oblige(st, same_ptr(r, s), 'the new reference is to the text of its key', 'inv')
    E.oblige(st, s.obj is not None and E.objs[s.obj].kind == 'heap' and st.alive.get(s.obj) is True and s.off == 0 and s.obj not in st.g.get('pooled', ()),
             'the new text lies in a block of its own', 'inv')
    if not E.check_access(st, s, add(ln, 1), 'the new text'):
        return []
    j = E.opts['j']      # an arbitrary position
    t = st.copy()
    t.assume(z3.ULT(j, bv(ln, 64)))
    b = E._as_bits(E.mread(t, s.obj, add(s.off, j), 1), 1)
    want = clean(bv(E._as_bits(E.mread(t, src.obj, add(src.off, j), 1), 1), 8))
    E.oblige(t, bv(b, 8) == want, 'the new text is the sanitised text', 'inv')
    E.oblige(st, eq(E._as_bits(E.mread(st, s.obj, add(s.off, ln), 1), 1), 0, 8), 'the new text ends with a NUL', 'inv')
    other = st.copy()
    sm = st.mem[src.obj]
    e = entry(E, other, lambda off: clean(bv(E._read(other, sm, add(off, src.off), 1, src.obj), 8)), ln)
    E.mwrite(other, out.obj, out.off, 8, e)
    E.mwrite(other, out.obj, add(out.off, k(E, 'off_second')), 1, 0)
    e = E.new_obj(st, 'entry', k(E, 'sizeof_entry'), 'arg')
    for o, w in ((k(E, 'off_es'), s), (k(E, 'off_el'), n), (k(E, 'off_er'), r)):
        E.mwrite(st, e.obj, o, 8, w)
    E.mwrite(st, out.obj, out.off, 8, e)
    E.mwrite(st, out.obj, add(out.off, k(E, 'off_second')), 1, 1)
    st.g['pooled'] = st.g.get('pooled', ()) + (s.obj,)
    st.g['added'] = (s.obj, len(st.mem[s.obj].layers), st.mem[s.obj])
    return [(st, None), (other, None)]


def t_intern(E):
    st = State()
    n = fresh('len')
    st.assume(z3.ULT(n, 1 << 32))
    S = z3.Function('string', BV64, BV8)
    s = E.new_obj(st, 'string', n, 'arg', ('fn', lambda E, st, o, w: S(bv(o, 64)) if w == 1 else bad(w)))
    p = E.new_obj(st, 'pool', k(E, 'sizeof_pool'), 'arg', ('sym', 'pool', None))
    r = E.new_obj(st, 'ref', 8, 'arg')
    st.g.update(pool=Ptr(p.obj, k(E, 'off_mutex')), string=s, len=n, lock=0)

    E.opts['j'] = fresh('j')

    def spec(L):
        res = []
        for ph in L.blk.phis:
            if ph.ty.kind == 'int':
                j = E.opts['j']

                def f(s2, e, ph=ph, j=j):
                    i = zext(e[ph.id], ph.ty.width, 64) if ph.ty.width < 64 else e[ph.id]
                    hs = [o for o in s2.alive if o.startswith('heap') and s2.alive[o] is True and E.objs[o].kind == 'heap']
                    if len(hs) != 1:
                        return None
                    t = s2.copy()
                    c = z3.And(z3.ULT(j, bv(i, 64)), z3.ULE(bv(i, 64), n))
                    t.assume(c)
                    if not E.S.sat(t.pc):
                        return z3.ULE(bv(i, 64), n)
                    v = E._as_bits(E.mread(t, hs[0], j, 1), 1)
                    return z3.And(z3.ULE(bv(i, 64), n), z3.Implies(c, bv(v, 8) == clean(S(j))))
                res.append(('spec:sanitised so far', f))
        return res
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
    cnt = {}
    for s2, _ in E.run_fn(st, fn(E, 'intern'), [r, p, s, n]):
        d = E.to_ptr(E.mread(s2, r.obj, 0, 8))
        if not isinstance(d, Ptr):
            raise Unsupported('unresolved reference')
        kind = 'hit' if s2.g.get('hit') else 'added' if s2.g.get('added') else 'late hit'
        cnt[kind] = 1
        E.oblige(s2, d.obj in s2.g.get('pooled', ()) and d.off == 0, 'the reference is to a text in the table', 'spec')
        if d.obj not in s2.g.get('pooled', ()):
            continue
        E.oblige(s2, s2.g['lock'] == 0, 'the lock is released', 'lock')
        for o in s2.g['pooled']:
            E.oblige(s2, s2.alive[o] is True, 'no text of the table is freed', 'frame')
            E.oblige(s2, s2.mem[o] is (s2.g['added'][2] if s2.g.get('added') and s2.g['added'][0] == o else s2.mem[o]) and
                     (len(s2.mem[o].layers) == (s2.g['added'][1] if s2.g.get('added') and s2.g['added'][0] == o else 0)), 'no text of the table is written', 'frame')
        j = E.opts['j']
        t = s2.copy()
        t.assume(z3.ULT(j, n))
        if E.S.sat(t.pc):
            b = bv(E._as_bits(E.mread(t, d.obj, j, 1), 1), 8)
            E.oblige(t, b == clean(S(j)), 'the stored text is the text with every invalid character replaced (%s)' % kind, 'spec')
            E.oblige(t, b != 0, 'the stored text has the length of the text (%s)' % kind, 'spec')
        E.oblige(s2, eq(E._as_bits(E.mread(s2, d.obj, n, 1), 1), 0, 8), 'the stored text ends with a NUL (%s)' % kind, 'spec')
    cover(E, 'found, added and found after sanitising', len(cnt) == 3)


@contract(r'^XXH(3_64bits|_INLINE_XXH3_64bits|64)\b', H)
def _xxh(E, st, a, c):
    p = E.to_ptr(a[0])
    if not E.check_access(st, p, a[1], 'hash'):
        return []
    st.g['hashed'] = st.g.get('hashed', ()) + ((p, a[1]),)
    return z3.Function('xxh', BV64, BV64, BV64)(bv(addr(E, p), 64), bv(a[1], 64))


def addr(E, p):
    return E.to_int(p)


@contract(r'^(std::)?memcmp$|^bcmp$', H)
def _memcmp(E, st, a, c):
    x, y = E.to_ptr(a[0]), E.to_ptr(a[1])
    for q in (x, y):
        if not E.check_access(st, q, a[2], 'memcmp'):
            return []
    st.g['cmp'] = (x, y, a[2])
    return st.g.setdefault('cmpres', fresh('cmp', 32))


def text(E, st, nm):
    n = fresh('len')
    st.assume(z3.ULT(n, 1 << 32))
    o = E.new_obj(st, 'text' + nm, n, 'arg', ('sym', 'text' + nm, None))
    t = E.new_obj(st, nm, 16, 'arg')
    E.mwrite(st, t.obj, k(E, 'off_s'), 8, o)
    E.mwrite(st, t.obj, k(E, 'off_l'), 8, n)
    return t, o, n


def t_functors(E):
    st = State()
    a, ao, an = text(E, st, 'a')
    b, bo, bn = text(E, st, 'b')
    r0 = 0
    for s, r in E.run_fn(st.copy(), fn(E, 'equal'), [a, b]):
        cmp = s.g.get('cmp')
        if cmp is None:
            # no comparison of the bytes: only lengths may decide, and only that they differ
            E.oblige(s, b_implies(eq(an, bn), eq(an, 0)), 'keys of equal length are compared byte by byte', 'spec')
            E.oblige(s, b_implies(b_not(eq(an, bn)), b_not(r)), 'keys of different length are different', 'spec')
            continue
        r0 += 1
        ok = (same_ptr(cmp[0], ao) and same_ptr(cmp[1], bo)) or (same_ptr(cmp[0], bo) and same_ptr(cmp[1], ao))
        E.oblige(s, b_and(ok, eq(cmp[2], an), eq(an, bn)), 'all bytes of the two keys are compared', 'spec')
        E.oblige(s, b_not(b_xor(r, eq(s.g['cmpres'], 0, 32))), 'keys are equal exactly when their bytes are', 'spec')
    cover(E, 'keys can be equal', r0)
    n = 0
    for s, r in E.run_fn(st.copy(), fn(E, 'hash'), [a]):
        hs = s.g.get('hashed', ())
        n += len(hs)
        E.oblige(s, all(same_ptr(x[0], ao) for x in hs), 'the hash depends on the text of the key only', 'spec')
        for x in hs:
            E.oblige(s, not z3.is_expr(x[1]) or names(x[1]) <= {str(an)}, 'the hash depends on the text of the key only', 'spec')
        if not z3.is_expr(r):
            continue
        # nothing but the bytes, the length: the value is a function of xxh and len
        vs = names(r)
        E.oblige(s, vs <= {str(an), 'xxh', str(addr(E, ao))}, 'the hash depends on the text of the key only', 'spec')
    cover(E, 'hash', n)


def names(e, seen=None):
    seen = set() if seen is None else seen
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.add(e.decl().name())
        for c in e.children():
            names(c, seen)
    return seen


@contract(r'^strcmp$', H)
def _strcmp(E, st, a, c):
    st.g['strcmp'] = (E.to_ptr(a[0]), E.to_ptr(a[1]))
    return st.g.setdefault('strcmpres', fresh('cmp', 32))


def t_refs(E):
    st = State()
    x, y = fresh('x'), fresh('y')
    a, b = E.new_obj(st, 'a', 8, 'arg'), E.new_obj(st, 'b', 8, 'arg')
    E.mwrite(st, a.obj, 0, 8, x)
    E.mwrite(st, b.obj, 0, 8, y)
    for s, r in E.run_fn(st.copy(), fn(E, 'eq'), [a, b]):
        E.oblige(s, b_not(b_xor(r, eq(x, y))), 'references are equal exactly when they are the same', 'spec')
    for s, r in E.run_fn(st.copy(), fn(E, 'ne'), [a, b]):
        E.oblige(s, b_xor(r, eq(x, y)), 'references are different exactly when they are not the same', 'spec')
    hs = []
    for i, o in enumerate((a, b)):
        for s, r in E.run_fn(st.copy(), fn(E, 'refhash'), [o]):
            hs.append(bv(r, 64))
    E.oblige(st, z3.Implies(x == y, hs[0] == hs[1]), 'equal references have equal hashes', 'spec')
    tx, ty = (E.new_obj(st, n, 8, 'arg') for n in ('tx', 'ty'))
    E.mwrite(st, a.obj, 0, 8, tx)
    E.mwrite(st, b.obj, 0, 8, ty)
    for s, r in E.run_fn(st.copy(), fn(E, 'less'), [a, b]):
        p, q = s.g['strcmp']
        if same_ptr(p, tx) and same_ptr(q, ty):
            E.oblige(s, b_not(b_xor(r, icmp('slt', s.g['strcmpres'], 0, 32))), 'references are ordered by their text', 'spec')
        elif same_ptr(p, ty) and same_ptr(q, tx):
            E.oblige(s, b_not(b_xor(r, icmp('sgt', s.g['strcmpres'], 0, 32))), 'references are ordered by their text', 'spec')
        else:
            E.fail(s, 'references are ordered by their text', 'spec')


@contract(r'^spectator::StringPool::Intern\(char const\*, unsigned long\)$', H)
def _intern(E, st, a, c):
    if not E.opts.get('wrap'):
        return NotImplemented
    st.g['interned'] = st.g.get('interned', ()) + ((E.to_ptr(a[0]), E.to_ptr(a[1]), a[2]),)
    return z3.BitVec('result', 64)


@contract(r'^spectator::the_str_pool\(\)$', H)
def _pool(E, st, a, c):
    if not E.opts.get('wrap'):
        return NotImplemented
    return st.g['the_pool']


@contract(r'^std::__cxx11::basic_string<char, .*>::(c_str|data)\(\) const$', H)
def _cstr(E, st, a, c):
    return E.mread(st, E.to_ptr(a[0]).obj, E.to_ptr(a[0]).off, 8)


@contract(r'^std::__cxx11::basic_string<char, .*>::(size|length)\(\) const$', H)
def _len(E, st, a, c):
    return E.mread(st, E.to_ptr(a[0]).obj, add(E.to_ptr(a[0]).off, 8), 8)


@contract(r'^strlen$|^std::char_traits<char>::length', H)
def _strlen(E, st, a, c):
    p = E.to_ptr(a[0])
    if isinstance(p, Ptr) and p.obj == st.g.get('cstr') and p.off == 0:
        return st.g['cstrlen']
    return NotImplemented


def t_wrap(E):
    E.opts['wrap'] = True
    st = State()
    p = E.new_obj(st, 'pool', k(E, 'sizeof_pool'), 'arg', ('sym', 'pool', None))
    n = fresh('len')
    st.assume(z3.ULT(n, 1 << 32))
    s = E.new_obj(st, 'cstr', add(n, 1), 'arg', ('sym', 'cstr', None))
    st.g.update(cstr=s.obj, cstrlen=n, the_pool=p)
    r = E.new_obj(st, 'ref', 8, 'arg')
    str_ = E.new_obj(st, 'std', 32, 'arg', ('sym', 'std', None))
    E.mwrite(st, str_.obj, 0, 8, s)
    E.mwrite(st, str_.obj, 8, 8, n)
    for nm, args in (('intern0', [r, p, s]), ('intern_c', [r, s]), ('intern_s', [r, str_]), ('intern_v', [r, s, n])):
        c = 0
        for s2, _ in E.run_fn(st.copy(), fn(E, nm), args):
            c += 1
            i = s2.g.get('interned', ())
            E.oblige(s2, len(i) == 1 and same_ptr(i[0][0], p) and same_ptr(i[0][1], s) and eq(i[0][2], n), '%s interns the whole text in the one pool' % nm, 'spec')
            E.oblige(s2, eq(E.to_int(E.mread(s2, r.obj, 0, 8)), z3.BitVec('result', 64)), '%s returns that reference' % nm, 'spec')
        cover(E, nm, c)


@contract(r'^__cxa_guard_acquire$', H)
def _guard(E, st, a, c):
    return 1 if 'guard' in st.g else NotImplemented


@contract(r'^__cxa_guard_release$', H)
def _guardr(E, st, a, c):
    p = E.to_ptr(a[0])
    E.mwrite(st, p.obj, p.off, 1, 1)
    return None


@contract(r'^spectator::StringPool::StringPool\(\)$', H)
def _ctor(E, st, a, c):
    return None


def t_pool(E):
    st = State()
    st.g['guard'] = 1
    for g in E.m.globals:
        if g.startswith('_ZGV'):
            o = E.global_obj(st, g)
            E.mwrite(st, o if isinstance(o, str) else o.obj, 0, 1, 0)      # not initialised yet
    rs = E.run_fn(st, fn(E, 'pool'), [])
    n = 0
    for s, r in rs:
        for s2, r2 in E.run_fn(s, fn(E, 'pool'), []):
            n += 1
            E.oblige(s2, E.to_int(r2) is not None and same_ptr(r2, r), 'there is one pool', 'spec')
            E.oblige(s2, s2.alive.get(E.to_ptr(r).obj) is True, 'the pool lives on', 'spec')
    cover(E, 'pool', n)


def tasks(m):
    return [('Intern', t_intern), ('key functors', t_functors), ('references', t_refs), ('intern_str', t_wrap), ('the pool', t_pool)]
