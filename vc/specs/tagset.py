"""The representation of spectator::Tags and its contract, shared by C09 and C11.

A tag set of n tags holds words M(16 i + key), M(16 i + value) for i < n, in its inline array when n <= 8 and otherwise in
one heap block of its own, sorted strictly by key.  R is the order of the interned strings (strcmp): a total order in
which different references differ (C10)."""
import re, z3
from ..ops import *
from ..engine import Ptr, NULL, Unsupported, fresh, State, Mem, exact_quotient
from ..lib import contract

BV = z3.BitVecSort(64)
R = z3.Function('order', BV, BV)
H = []
LIM = 1 << 24


class Lay:
    def __init__(self, E):
        def k(n):
            return E.m.global_init('vc_' + n)[1][2]
        self.tags, self.tag, self.size, self.u, self.begin = k('sizeof_tags'), k('sizeof_tag'), k('off_size'), k('off_u'), k('off_begin')
        self.small, self.key, self.value = k('small'), k('off_key'), k('off_value')


def quot(o, d):
    x = exact_quotient(o, d)
    return x if x is not None else simp(z3.UDiv(bv(o, 64), z3.BitVecVal(d, 64)))


def lt(a, b):
    return z3.ULT(R(bv(a, 64)), R(bv(b, 64)))


def ordered(E, st, a, b):
    """R is injective on interned strings"""
    a, b = bv(a, 64), bv(b, 64)
    st.assume((R(a) == R(b)) == (a == b))


class Set:
    """an arbitrary tag set in memory"""

    def __init__(self, E, st, lay, name, large, M=None, key=None, n=None):
        self.lay, self.name, self.large = lay, name, large
        self.M = M if M is not None else 'M!' + name
        self.n = n if n is not None else fresh('n.' + name)
        self.p = None
        self.KF, self.VF = z3.Function('%s.key' % self.M, BV, BV), z3.Function('%s.value' % self.M, BV, BV)
        if large:
            st.assume(z3.And(z3.ULT(bv(lay.small, 64), self.n), z3.ULT(self.n, LIM)))
            self.cap = fresh('cap.' + name)
            st.assume(z3.And(z3.ULE(self.n, self.cap), z3.ULT(self.cap, LIM)))
            self.t = E.new_obj(st, name, lay.tags, 'arg')
            self.h = E.new_obj(st, name + '.store', mul(self.cap, lay.tag), 'heap', ('fn', lambda E, st, o, w: self.word(o, w)))
            E.mwrite(st, self.t.obj, lay.u, 8, self.cap)
            E.mwrite(st, self.t.obj, lay.begin, 8, self.h)
            E.objs[self.h.obj].facts.append(lambda E, st, o, w, v: self.facts(E, st, o, w))
        else:
            st.assume(z3.ULE(bv(self.n, 64), lay.small))
            self.t = E.new_obj(st, name, lay.tags, 'arg', ('fn', lambda E, st, o, w: self.word(sub(o, lay.u), w)))
            self.h = None
            E.mwrite(st, self.t.obj, lay.begin, 8, Ptr(self.t.obj, lay.u))
            E.objs[self.t.obj].facts.append(lambda E, st, o, w, v: self.facts(E, st, sub(o, lay.u), w))
        E.mwrite(st, self.t.obj, lay.size, 8, self.n)
        self.busy = False

    def word(self, o, w):
        if w != 8:
            raise Unsupported('%d-byte read of tags' % w)
        for f, F in ((self.lay.key, self.KF), (self.lay.value, self.VF)):
            x = exact_quotient(sub(o, f), self.lay.tag)
            if x is not None:
                return F(bv(x, 64))
        o = bv(o, 64)
        i = z3.UDiv(o, z3.BitVecVal(self.lay.tag, 64))
        return z3.If(z3.URem(o, z3.BitVecVal(self.lay.tag, 64)) == self.lay.key, self.KF(i), self.VF(i))

    def K(self, i):
        return self.KF(bv(i, 64))

    def V(self, i):
        return self.VF(bv(i, 64))

    def point(self, E, st, q):
        """ghost: the position of key q, the number of smaller keys (exists and is unique in a sorted sequence)"""
        self.q, self.p = q, fresh('p.' + self.name)
        st.assume(z3.ULE(self.p, bv(self.n, 64)))
        return self.p

    def facts(self, E, st, o, w):
        """sortedness at the element read, and its place relative to the ghost position"""
        if w != 8:
            return None
        lay = self.lay
        for f in (lay.key, lay.value):
            x = exact_quotient(sub(o, f), lay.tag)
            if x is not None:
                return self.at(x)
        return self.at(simp(z3.UDiv(bv(o, 64), z3.BitVecVal(lay.tag, 64))))

    def at(self, i):
        i = bv(i, 64)
        n = bv(self.n, 64)
        k = self.K(i)
        c = [z3.Implies(z3.ULT(i, n), k != 0),
             z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(i + 1, n)), lt(k, self.K(i + 1))),
             z3.Implies(z3.And(z3.ULT(i, n), i != 0), lt(self.K(i - 1), k))]
        if self.p is not None:
            q = bv(self.q, 64)
            c += [z3.Implies(z3.ULT(i, self.p), lt(k, q)), z3.Implies(z3.And(z3.ULE(self.p, i), z3.ULT(i, n)), z3.Not(lt(k, q))),
                  (R(k) == R(q)) == (k == q)]
        return z3.And(*c)


def rep(E, s, t, lay, what):
    """checks the representation invariant of the set at t -> (storage object, offset, size)"""
    n = E._as_bits(E.mread(s, t.obj, add(t.off, lay.size), 8), 8)
    b = E.to_ptr(E.mread(s, t.obj, add(t.off, lay.begin), 8))
    if not isinstance(b, Ptr):
        raise Unsupported('%s: begin_ is not resolved' % what)
    if b.obj is None:
        E.fail(s, '%s: no storage' % what, 'inv')
        return None
    inl = b.obj == t.obj
    big = icmp('ugt', n, lay.small)
    if inl:
        E.oblige(s, b_and(b_not(big), eq(b.off, add(t.off, lay.u))), '%s: up to %d tags are stored inline' % (what, lay.small), 'inv')
    else:
        cap = E._as_bits(E.mread(s, t.obj, add(t.off, lay.u), 8), 8)
        E.oblige(s, big, '%s: more than %d tags are stored outside' % (what, lay.small), 'inv')
        E.oblige(s, s.alive.get(b.obj) is True and isc(b.off) and b.off == 0 and E.objs[b.obj].kind == 'heap', '%s: owns a live block' % what, 'inv')
        E.oblige(s, b_and(icmp('ule', n, cap), icmp('ule', mul(cap, lay.tag), s.size[b.obj]), icmp('ult', cap, 2 * LIM)), '%s: size within the capacity, capacity within the block' % what, 'inv')
    return b.obj, b.off, n


def elem(E, s, r, lay, j):
    o = add(r[1], mul(j, lay.tag))
    return (E._as_bits(E.mread(s, r[0], add(o, lay.key), 8), 8), E._as_bits(E.mread(s, r[0], add(o, lay.value), 8), 8))


def expect(E, s, t, lay, n, fK, fV, what, lemma=None, cases=None):
    """the set at t has exactly n tags with keys fK and values fV, in ascending order"""
    r = rep(E, s, t, lay, what)
    if r is None:
        return None
    E.oblige(s, eq(r[2], n), '%s: number of tags' % what, 'spec', hook(E, s))
    for case in cases or (lambda j: True,):
        j = fresh('j')
        s2 = s.copy()
        s2.assume(z3.ULT(j, bv(n, 64)))
        s2.assume(case(j))
        if lemma:
            s2.assume(lemma(j))
        if not E.S.sat(s2.pc):
            continue
        k, v = elem(E, s2, r, lay, j)
        E.oblige(s2, eq(k, fK(j)), '%s: every key in its place' % what, 'spec', hook(E, s))
        E.oblige(s2, eq(v, fV(j)), '%s: every key has its value' % what, 'spec', hook(E, s))
        s2.assume(z3.ULT(j + 1, bv(n, 64)))
        if E.S.sat(s2.pc):
            if lemma:
                s2.assume(lemma(j + 1))
            k2, v2 = elem(E, s2, r, lay, j + 1)
            E.oblige(s2, eq(k2, fK(j + 1)), '%s: every key in its place' % what, 'spec', hook(E, s))
            s2.assume(z(eq(k2, fK(j + 1))))
            s2.assume(z(eq(k, fK(j))))
            E.oblige(s2, lt(fK(j), fK(j + 1)), '%s: keys in ascending order' % what, 'spec', hook(E, s))
    return r


def hook(E, s):
    return None


def owned(E, s, ts, lay, what):
    """every block is owned by exactly one set, nothing else is left allocated"""
    own = []
    for t in ts:
        b = E.to_ptr(E.mread(s, t.obj, add(t.off, lay.begin), 8))
        if isinstance(b, Ptr) and b.obj is not None and E.objs[b.obj].kind == 'heap':
            own.append(b.obj)
    alive = [o for o in s.alive if E.objs.get(o) is not None and E.objs[o].kind == 'heap' and s.alive[o] is True]
    E.oblige(s, len(own) == len(set(own)), '%s: no block belongs to two sets' % what, 'leak')
    E.oblige(s, set(alive) <= set(own), '%s: no block is leaked' % what, 'leak')


# ------------------------------------------------------------------ contracts
@contract(r'^strcmp$', H)
def _strcmp(E, st, a, c):
    x, y = (bv(E.to_int(v), 64) for v in a)
    for v in (x, y):
        E.oblige(st, v != 0, 'strcmp of strings that exist', 'null')
    ordered(E, st, x, y)
    r = fresh('cmp', 32)
    st.assume(z3.And((r < 0) == z3.ULT(R(x), R(y)), (r == 0) == (R(x) == R(y))))
    return r


@contract(r'^realloc$', H)
def _realloc(E, st, a, c):
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr):
        raise Unsupported('realloc of an unresolved pointer')
    q = E.new_obj(st, 'heap', a[1], 'heap')
    if p.obj is None:
        return q
    if not (st.alive.get(p.obj) is True and isc(p.off) and p.off == 0 and E.objs[p.obj].kind == 'heap'):
        E.fail(st, 'realloc of the start of a live block', 'lifetime')
        return []
    E.oblige(st, icmp('uge', a[1], st.size[p.obj]), 'realloc does not shrink the block', 'alloc')
    out = []
    for s in E.memcpy(st, q, p, st.size[p.obj]):
        s.alive[p.obj] = False
        out.append((s, q))
    return out


def lambda_fn(E, dem, marker):
    i = dem.index(marker) + len(marker)
    d, j = 1, i
    while d and j < len(dem):
        ch = dem[j]
        if ch == '<':
            d += 1
        elif ch == '>' and dem[j - 1] != '-':
            d -= 1
        j += 1
    lam = dem[i:j - 1]
    fs = [f for f in E.m.fns.values() if (marker + lam + '>::operator()') in f.dem and not f.decl]
    if len(fs) != 1:
        raise Unsupported('comparator of %s' % dem[:80])
    return fs[0]


@contract(r' std::__lower_bound<', H)
def _lower_bound(E, st, a, c):
    """the range is partitioned by the comparator; the result is its partition point"""
    mk = '__gnu_cxx::__ops::_Iter_comp_val<'
    if mk not in c.dem:
        raise Unsupported('lower_bound without a comparator')
    fn = lambda_fn(E, c.dem, mk)
    lay = Lay(E)
    first, last = E.to_ptr(a[0]), E.to_ptr(a[1])
    if not (isinstance(first, Ptr) and isinstance(last, Ptr)):
        raise Unsupported('lower_bound of an unresolved range')
    if first.obj != last.obj:
        if first.obj is None and last.obj is None:
            return first
        raise Unsupported('lower_bound of two objects')
    ln = quot(sub(last.off, first.off), lay.tag)
    cmp = E.new_obj(st, 'comp', 8, 'stack')

    def ev(s, i):
        rs = E.call(s, fn.name, [cmp, Ptr(first.obj, add(first.off, mul(i, lay.tag))), a[2]])
        if len(rs) != 1:
            raise Unsupported('comparator with several outcomes')
        return rs[0]
    E.oblige(st, icmp('ule', first.off, last.off), 'lower_bound: a valid range', 'pre')
    i, j = fresh('i'), fresh('j')
    s = st.copy()
    s.assume(z3.And(z3.ULT(i, j), z3.ULT(j, bv(ln, 64))))
    if E.S.sat(s.pc):
        s, ci = ev(s, i)
        s, cj = ev(s, j)
        E.oblige(s, b_implies(cj, ci), 'lower_bound: the range is partitioned by the comparator', 'pre')
    r = fresh('lb')
    st.assume(z3.ULE(r, bv(ln, 64)))
    out = []
    g = E.opts.get('position')       # ghost: the position the specification expects, substituted once it is proved
    if g is not None:
        s = st.copy()
        for w, neg in ((r - 1, False), (r, True)):
            t = s.copy()
            ok = z3.ULT(w, bv(ln, 64))
            t.assume(ok)
            n = len(t.pc)
            if E.S.sat(t.pc):
                t, b = ev(t, w)
                s.pc = s.pc + tuple(z3.Implies(ok, c) for c in t.pc[n:]) + (z3.Implies(ok, z(b_not(b) if neg else b)),)
        if E.S.prove(s.pc, r == g)[0] == 'proved':
            return Ptr(first.obj, add(first.off, mul(g, lay.tag)))
    s0 = st.copy()
    s0.assume(r == 0)
    s1 = st.copy()
    s1.assume(z3.UGT(r, 0))
    for s in (s0, s1):
        if not E.S.sat(s.pc):
            continue
        if s is s1:
            s, b = ev(s, r - 1)
            s.assume(z(b))
        e = s.copy()
        e.assume(r == bv(ln, 64))
        s.assume(z3.ULT(r, bv(ln, 64)))
        if E.S.sat(s.pc):
            s, b = ev(s, r)
            s.assume(z(b_not(b)))
            if E.S.sat(s.pc):
                out.append((s, Ptr(first.obj, add(first.off, mul(r, lay.tag)))))
        if E.S.sat(e.pc):
            out.append((e, Ptr(first.obj, last.off)))
    return out


@contract(r'^(std::)?memcmp$|^bcmp$', H)
def _memcmp(E, st, a, c):
    x, y, n = E.to_ptr(a[0]), E.to_ptr(a[1]), a[2]
    if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
        raise Unsupported('memcmp of unresolved pointers')
    for q in (x, y):
        if not E.check_access(st, q, n, 'memcmp'):
            return []
    r = fresh('memcmp', 32)
    out = []

    def words(s, d):
        return (E._as_bits(E.mread(s, x.obj, add(x.off, d), 8), 8), E._as_bits(E.mread(s, y.obj, add(y.off, d), 8), 8))
    s0 = st.copy()
    s0.assume(r == 0)
    for d in E.opts.get('memcmp_at', ()):
        t = s0.copy()
        c0 = b_and(icmp('ule', add(d, 8), n), icmp('ult', d, n))
        t.assume(z(c0))
        if E.S.sat(t.pc):
            u, v = words(t, d)
            s0.pc = s0.pc + tuple(z3.Implies(z(c0), f) for f in t.pc[len(s0.pc) + 1:])
            s0.assume(z3.Implies(z(c0), bv(u, 64) == bv(v, 64)))
    out.append((s0, r))
    s1 = st.copy()
    s1.assume(r != 0)
    d = fresh('diff')
    s1.assume(z3.And(z3.URem(d, z3.BitVecVal(8, 64)) == 0, z3.ULT(d, bv(n, 64)), z3.ULE(d + 8, bv(n, 64))))
    if E.S.sat(s1.pc):
        u, v = words(s1, d)
        s1.assume(bv(u, 64) != bv(v, 64))
        s1.g['diff'] = d
        out.append((s1, r))
    return [(s, v) for s, v in out if E.S.sat(s.pc)]


INTERN = z3.Function('intern', BV, BV, BV)


@contract(r'^spectator::intern_str\(', H)
def _intern(E, st, a, c):
    if 'basic_string_view' in c.dem:
        return INTERN(bv(E.to_int(a[0]), 64), bv(E.to_int(a[1]), 64))
    if 'char const*' in c.dem:
        return INTERN(z3.BitVecVal(M(64), 64), bv(E.to_int(a[0]), 64))
    raise Unsupported('intern_str of a string')


@contract(r'^spectator::Tags::insert\(', H)
def _insert(E, st, a, c):
    """contract of insert over the ghost lookup of one arbitrary key q (see C09, proved there positionally)"""
    q = E.opts.get('abstract')
    if q is None:
        return NotImplemented
    p = E.to_ptr(a[0])
    if p.obj != E.opts['abstract_obj']:
        raise Unsupported('insert into another set')
    k, v = (bv(E.to_int(x), 64) for x in a[1:3])
    same = k == q
    st.g['has'] = ite_b(same, True, st.g['has'])
    st.g['val'] = ite(same, v, st.g['val'], 64)
    return None
