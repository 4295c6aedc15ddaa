"""C09: a tag set is a correct, memory-safe sorted map.

insert/copy/move/assign/destroy/lookup/equality/hash are verified for an arbitrary sorted set of any size, inline or on
the heap; add_all and the initializer-list constructor against the contract of insert, for an arbitrary key."""
from ..build import VERIF
from .meters import ABSL
from .tagset import *
from .tagset import H as HANDLERS

SOURCES = [VERIF + '/vc/drivers/c09.cc']
IRFLAGS = ['-fno-access-control']
TRUSTED = ['std::lower_bound: on a range partitioned by the comparator (an obligation), returns its partition point', 'strcmp orders the interned strings totally; different '
           'interned references compare different (C10)', 'memcmp compares the bytes of the two ranges', 'malloc/realloc/free; realloc keeps the content',
           'intern_str returns a reference that depends only on the text (C10)',
           'in a strictly sorted sequence every key has exactly one position such that smaller keys lie before it (ghost position p)']
ASSUMPTIONS = ['a set has fewer than 2^24 tags', 'keys and values are interned references (non-null keys)', 'allocation succeeds']
HARNESS = dict(srcs=[VERIF + '/harness/c09.cc', 'spectator/string_pool.cc', 'spectator/common_refs.cc'], libs=ABSL + ['-lfmt', '-lxxhash', '-lpthread'], leaks=True,
               what='random sequences of add/copy/move/assign/add_all over up to 200 keys against std::map, address and leak checking')


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def fn(E, n):
    return E.m.find1('^vc_%s$' % n)


def t_add(E, large, api, known):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', large)
    k, v = fresh('k'), fresh('v')
    args = [a.t, k, v]
    st.assume(k != 0)
    p = a.point(E, st, k)
    st.assume(a.at(p))
    E.opts['position'] = p
    ex = z3.And(z3.ULT(p, bv(a.n, 64)), a.K(p) == k)
    st.assume(ex if known else z3.Not(ex))
    if known:
        n2, fK = a.n, a.K

        def fV(j):
            return simp(z3.If(j == p, v, a.V(j)))
    else:
        n2 = simp(bv(a.n, 64) + 1)

        def fK(j):
            return simp(z3.If(z3.ULT(j, p), a.K(j), z3.If(j == p, k, a.K(j - 1))))

        def fV(j):
            return simp(z3.If(z3.ULT(j, p), a.V(j), z3.If(j == p, v, a.V(j - 1))))
    cnt = grow = 0
    for s, r in E.run_fn(st, fn(E, api), args):
        cnt += 1
        expect(E, s, a.t, lay, n2, fK, fV, 'after adding', lambda j: z3.And(a.at(j), z3.Implies(j != 0, a.at(j - 1)), z3.Implies(p != 0, a.at(p - 1))),
               [lambda j: z3.ULT(j, p), lambda j: j == p, lambda j: j == p + 1, lambda j: z3.UGT(j, p + 1)])
        owned(E, s, [a.t], lay, 'after adding')
        b = E.to_ptr(E.mread(s, a.t.obj, lay.begin, 8))
        grow += b.obj != (a.h.obj if large else a.t.obj)
    cover(E, '%s returns' % api, cnt >= (1 if known or not large else 2) and (bool(grow) == (not known)))


def t_api(E, api):
    """the textual overloads insert exactly the interned pair (against the contract of insert)"""
    lay = Lay(E)
    st = State()
    if api == 'add_c':
        x, y = fresh('kstr'), fresh('vstr')
        k, v = (INTERN(z3.BitVecVal(M(64), 64), s) for s in (x, y))
        args = [x, y]
    else:
        args = [fresh('sv%d' % i) for i in range(4)]
        k, v = INTERN(args[0], args[1]), INTERN(args[2], args[3])
    q = fresh('q')
    t = E.new_obj(st, 't', lay.tags, 'arg')
    E.opts['abstract'], E.opts['abstract_obj'] = q, t.obj
    st.g['has'], st.g['val'] = fresh('has', 1), fresh('val')
    has0, val0 = st.g['has'], st.g['val']
    n = 0
    for s, r in E.run_fn(st, fn(E, api), [t] + args):
        n += 1
        E.oblige(s, b_not(b_xor(s.g['has'], z3.Or(has0, q == k))), '%s: has the key added and every earlier one' % api, 'spec')
        E.oblige(s, z3.Implies(z(s.g['has']), bv(s.g['val'], 64) == z3.If(q == k, v, val0)), '%s: the value added last' % api, 'spec')
    cover(E, '%s returns' % api, n > 0)


def t_copy(E, large):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', large)
    t = E.new_obj(st, 't', lay.tags, 'arg')
    n = 0
    for s, r in E.run_fn(st, fn(E, 'copy'), [t, a.t]):
        n += 1
        expect(E, s, t, lay, a.n, a.K, a.V, 'the copy', a.at)
        expect(E, s, a.t, lay, a.n, a.K, a.V, 'the original', a.at)
        owned(E, s, [t, a.t], lay, 'after copying')
    cover(E, 'copy returns', n > 0)


def t_move(E, large):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', large)
    t = E.new_obj(st, 't', lay.tags, 'arg')
    n = 0
    for s, r in E.run_fn(st, fn(E, 'move'), [t, a.t]):
        n += 1
        expect(E, s, t, lay, a.n, a.K, a.V, 'the new set', a.at)
        rep(E, s, a.t, lay, 'the set moved from')
        owned(E, s, [t, a.t], lay, 'after moving')
    cover(E, 'move returns', n > 0)


def t_assign(E, l1, l2, self_):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', l1)
    b = a if self_ else Set(E, st, lay, 'b', l2)
    n = 0
    for s, r in E.run_fn(st, fn(E, 'assign'), [a.t, b.t]):
        n += 1
        expect(E, s, a.t, lay, b.n, b.K, b.V, 'the set assigned to', b.at)
        if not self_:
            rep(E, s, b.t, lay, 'the set moved from')
            owned(E, s, [a.t, b.t], lay, 'after assigning')
        else:
            owned(E, s, [a.t], lay, 'after assigning')
    cover(E, 'assignment returns', n > 0)


def t_dtor(E, large):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', large)
    n = 0
    for s, r in E.run_fn(st, fn(E, 'dtor'), [a.t]):
        n += 1
        left = [o for o in s.alive if E.objs[o].kind == 'heap' and s.alive[o] is True]
        E.oblige(s, not left, 'destruction frees the storage', 'leak')
    cover(E, 'destructor returns', n > 0)


def t_new(E):
    lay = Lay(E)
    st = State()
    t = E.new_obj(st, 't', lay.tags, 'arg')
    n = 0
    for s, r in E.run_fn(st, fn(E, 'new'), [t]):
        n += 1
        rr = rep(E, s, t, lay, 'a new set')
        E.oblige(s, eq(rr[2], 0), 'a new set is empty', 'spec')
        owned(E, s, [t], lay, 'a new set')
    cover(E, 'constructor returns', n > 0)


def t_lookup(E, large):
    lay = Lay(E)
    for which in ('has', 'at'):
        st = State()
        a = Set(E, st, lay, 'a', large)
        q = fresh('q')
        st.assume(q != 0)
        p = a.point(E, st, q)
        st.assume(a.at(p))
        j = fresh('j')
        st.assume(a.at(j))
        # sortedness of the pair (p, j)
        st.assume(z3.Implies(z3.And(z3.ULT(p, j), z3.ULT(j, bv(a.n, 64))), lt(a.K(p), a.K(j))))
        ex = z3.And(z3.ULT(p, bv(a.n, 64)), a.K(p) == q)
        n = 0
        for s, r in E.run_fn(st, fn(E, which), [a.t, q]):
            n += 1
            if which == 'has':
                E.oblige(s, b_not(b_xor(r, ex)), 'has() tells whether the key is there', 'spec')
            else:
                v = bv(E.to_int(r), 64)
                E.oblige(s, v == z3.If(ex, a.V(p), z3.BitVecVal(0, 64)), 'at() gives the value of the key, nothing if absent', 'spec')
            E.oblige(s, z3.Implies(z3.And(z3.ULT(j, bv(a.n, 64)), a.K(j) == q), z3.And(ex, j == p)), 'the key is at no other place', 'lemma')
            expect(E, s, a.t, lay, a.n, a.K, a.V, 'the set after a lookup', a.at)
        cover(E, '%s returns' % which, n > 1)


def t_views(E, large):
    lay = Lay(E)
    st = State()
    a = Set(E, st, lay, 'a', large)
    base = a.h if large else Ptr(a.t.obj, lay.u)
    for nm, want in (('size', a.n), ('empty', eq(a.n, 0)), ('begin', base), ('end', Ptr(base.obj, add(base.off, mul(a.n, lay.tag))))):
        for s, r in E.run_fn(st.copy(), fn(E, nm), [a.t]):
            if nm == 'empty':
                ok = b_not(b_xor(r, want))
            elif isinstance(want, Ptr):
                r = E.to_ptr(r)
                ok = isinstance(r, Ptr) and r.obj == want.obj and eq(r.off, want.off)
            else:
                ok = eq(r, want)
            E.oblige(s, ok, '%s() of the tags' % nm, 'spec')


def t_eq(E, l1, l2):
    lay = Lay(E)
    # equal content, different storage: equal
    if l1 == l2:
        st = State()
        a = Set(E, st, lay, 'a', l1)
        b = Set(E, st, lay, 'b', l2, M=a.M, n=a.n)
        for s, r in E.run_fn(st, fn(E, 'eq'), [a.t, b.t]):
            E.oblige(s, r, 'two sets holding the same tags are equal', 'spec')
    # equal => same content
    st = State()
    a = Set(E, st, lay, 'a', l1)
    b = Set(E, st, lay, 'b', l2)
    j = fresh('j')
    E.opts['memcmp_at'] = [add(mul(j, lay.tag), lay.key), add(mul(j, lay.tag), lay.value)]
    base = {a.t.obj: lay.u}
    if l1:
        base[a.h.obj] = 0

    def spec(L):
        r = []
        for ph in L.blk.phis:
            if ph.ty.kind == 'ptr':
                def f(s, e, ph=ph):
                    v = e[ph.id]
                    if not isinstance(v, Ptr) or v.obj not in base:
                        return True
                    done = icmp('ugt', sub(v.off, base[v.obj]), mul(j, lay.tag))
                    return b_implies(b_and(done, icmp('ult', j, a.n)), b_and(eq(a.K(j), b.K(j)), eq(a.V(j), b.V(j))))
                r.append(('spec:equal so far', f))
        return r
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
    n = 0
    for s, r in E.run_fn(st, fn(E, 'eq'), [a.t, b.t]):
        E.oblige(s, b_implies(r, eq(a.n, b.n)), 'sets of different size are different', 'spec')
        s.assume(z(r))
        if not E.S.sat(s.pc):
            continue
        n += 1
        E.oblige(s, eq(a.n, b.n), 'equal sets have the same size', 'spec')
        s.assume(z3.ULT(j, bv(a.n, 64)))
        E.oblige(s, b_and(eq(a.K(j), b.K(j)), eq(a.V(j), b.V(j))), 'equal sets hold the same tags', 'spec')
    cover(E, 'equal sets exist', n > 0 or l1 != l2)


def t_lemma(E):
    """two strictly sorted sequences with the same set of keys are the same sequence: the induction step"""
    st = State()
    K1, K2 = z3.Function('K1', BV, BV), z3.Function('K2', BV, BV)
    n1, n2, j, m1, m2 = (fresh(x) for x in ('n1', 'n2', 'j', 'm1', 'm2'))
    # equal below j; K1(j) is the m1-th key of the second, K2(j) the m2-th of the first
    st.assume(z3.And(z3.ULT(j, n1), z3.ULT(j, n2), z3.ULT(m1, n2), z3.ULT(m2, n1), K2(m1) == K1(j), K1(m2) == K2(j)))

    def mono(K, n, x, y):
        return z3.Implies(z3.And(z3.ULT(x, y), z3.ULT(y, n)), lt(K(x), K(y)))
    st.assume(z3.And(mono(K1, n1, j, m2), mono(K1, n1, m2, j), mono(K2, n2, j, m1), mono(K2, n2, m1, j)))
    st.assume(z3.And(z3.Implies(z3.ULT(m1, j), K1(m1) == K2(m1)), z3.Implies(z3.ULT(m2, j), K1(m2) == K2(m2)), mono(K1, n1, m1, j), mono(K2, n2, m2, j)))
    st.assume((R(K1(j)) == R(K2(j))) == (K1(j) == K2(j)))
    E.oblige(st, K1(j) == K2(j), 'sorted sequences with the same keys agree at every position (induction step)', 'lemma')


def t_hash(E, large, name):
    lay = Lay(E)
    vals = []
    for n in (0, 1, 2):
        st = State()
        a = Set(E, st, lay, 'a', False, n=n, M='M!h')
        rs = E.run_fn(st, fn(E, name), [a.t])
        if len(rs) != 1:
            raise Unsupported('hash of a small set branches')
        vals.append(bv(rs[0][1], 64))
    k0, v0, k1, v1 = a.K(0), a.V(0), a.K(1), a.V(1)
    s = State()
    zero = E.S.prove((), vals[0] == 0, full=False)[0] == 'proved'
    second = z3.substitute(vals[1], (k0, k1), (v0, v1))
    comb = None
    for nm, f in (('sum', lambda h, e: h + e), ('xor', lambda h, e: h ^ e), ('31*h+', lambda h, e: 31 * h + e)):
        if zero and E.S.prove((), vals[2] == f(vals[1], second), full=False)[0] == 'proved':
            comb = f
            break
    if comb is None:
        raise Unsupported('the hash is not a fold this specification knows')
    st = State()
    a = Set(E, st, lay, 'a', large)
    S = z3.Function('fold', BV, BV)

    def elt(i):
        return z3.substitute(vals[1], (k0, a.K(i)), (v0, a.V(i)))
    st.assume(S(z3.BitVecVal(0, 64)) == 0)
    base = (a.h.obj, 0) if large else (a.t.obj, lay.u)

    def spec(L):
        r = []
        for ph in L.blk.phis:
            if ph.ty.kind != 'ptr':
                continue
            for pw in L.blk.phis:
                if pw.ty.kind == 'int' and pw.ty.width == 64:
                    def f(s, e, ph=ph, pw=pw):
                        v = e[ph.id]
                        if not isinstance(v, Ptr) or v.obj != base[0]:
                            return None
                        i = quot(sub(v.off, base[1]), lay.tag)
                        i = bv(i, 64)
                        return z3.And(bv(e[pw.id], 64) == S(i), z3.ULE(i, bv(a.n, 64)), bv(v.off, 64) == base[1] + lay.tag * i)
                    r.append(('spec:fold', f))
        return r

    def step(E, s, o, w, v):
        # definition of the fold at the element read
        i = bv(quot(sub(o, base[1]), lay.tag), 64)
        return z3.Implies(z3.ULT(i, bv(a.n, 64)), S(i + 1) == comb(S(i), elt(i)))
    E.objs[base[0]].facts.append(step)
    E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
    n = 0
    for s, r in E.run_fn(st, fn(E, name), [a.t]):
        n += 1
        E.oblige(s, bv(r, 64) == S(bv(a.n, 64)), 'the hash is a fold over the tags in order, and nothing else', 'spec')
    cover(E, 'hash returns', n > 0)


def t_addall(E, large):
    lay = Lay(E)
    for present in (False, True):
        E.loop_hooks = []
        st = State()
        src = Set(E, st, lay, 'src', large)
        q = fresh('q')
        st.assume(q != 0)
        t = E.new_obj(st, 't', lay.tags, 'arg')
        E.opts['abstract'], E.opts['abstract_obj'] = q, t.obj
        st.g['has'], st.g['val'] = fresh('has', 1), fresh('val')
        has0, val0 = st.g['has'], st.g['val']
        m = fresh('m')
        if present:
            st.assume(z3.And(z3.ULT(m, bv(src.n, 64)), src.K(m) == q))
        base = (src.h.obj, 0) if large else (src.t.obj, lay.u)

        def extra(E, st, o, w, v):
            o = sub(o, base[1])
            i = quot(o, lay.tag)
            if present:
                return z3.Implies(z3.And(z3.ULT(i, bv(src.n, 64)), bv(i, 64) != m), src.K(i) != q)
            return z3.Implies(z3.ULT(bv(i, 64), bv(src.n, 64)), src.K(i) != q)
        E.objs[base[0]].facts.append(extra)

        def spec(L):
            r = []
            for ph in L.blk.phis:
                if ph.ty.kind == 'ptr':
                    def f(s, e, ph=ph):
                        v = e[ph.id]
                        if not isinstance(v, Ptr) or v.obj != base[0]:
                            return None
                        o = sub(v.off, base[1])
                        past = icmp('ugt', o, mul(m, lay.tag)) if present else False
                        return b_and(b_implies(past, b_and(s.g['has'], eq(s.g['val'], src.V(m)))),
                                     b_or(past, b_and(b_not(b_xor(s.g['has'], has0)), eq(s.g['val'], val0))))
                    r.append(('spec:overlaid so far', f))

                    def al(s, e, ph=ph):
                        v = e[ph.id]
                        if not isinstance(v, Ptr) or v.obj != base[0]:
                            return None
                        o = sub(v.off, base[1])
                        return b_and(eq(z3.URem(bv(o, 64), z3.BitVecVal(lay.tag, 64)), 0), icmp('ule', o, mul(src.n, lay.tag)))
                    r.append(('spec:aligned', al))
            return r
        E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
        n = 0
        for s, r in E.run_fn(st, fn(E, 'add_all'), [t, src.t]):
            n += 1
            if present:
                E.oblige(s, b_and(s.g['has'], eq(s.g['val'], src.V(m))), 'add_all: every tag of the source is there with its value', 'spec')
            else:
                E.oblige(s, b_and(b_not(b_xor(s.g['has'], has0)), eq(s.g['val'], val0)), 'add_all: every other key is as before', 'spec')
        cover(E, 'add_all returns', n > 0)


def t_init(E):
    lay = Lay(E)
    for present in (False, True):
        E.loop_hooks = []
        st = State()
        n = fresh('n')
        st.assume(z3.ULT(n, LIM))
        W = z3.Function('list', BV, BV)
        arr = E.new_obj(st, 'list', mul(n, 32), 'arg', ('fn', lambda E, st, o, w: W(bv(o, 64))))

        def key(i):
            i = bv(i, 64)
            return INTERN(W(32 * i), W(32 * i + 8))

        def val(i):
            i = bv(i, 64)
            return INTERN(W(32 * i + 16), W(32 * i + 24))
        q = fresh('q')
        t = E.new_obj(st, 't', lay.tags, 'arg')
        E.opts['abstract'], E.opts['abstract_obj'] = q, t.obj
        st.g['has'], st.g['val'] = False, 0
        m = fresh('m')
        if present:
            st.assume(z3.And(z3.ULT(m, n), key(m) == q))

        def facts(E, st, o, w, v):
            i = quot(o, 32)
            return z3.Implies(z3.And(z3.ULT(bv(i, 64), n), z3.UGT(bv(i, 64), m)) if present else z3.ULT(bv(i, 64), n), key(i) != q)
        E.objs[arr.obj].facts.append(facts)

        def spec(L):
            r = []
            for ph in L.blk.phis:
                if ph.ty.kind == 'ptr':
                    def al(s, e, ph=ph):
                        v = e[ph.id]
                        if not isinstance(v, Ptr) or v.obj != arr.obj:
                            return None
                        return eq(z3.URem(bv(v.off, 64), z3.BitVecVal(32, 64)), 0)

                    def f(s, e, ph=ph):
                        v = e[ph.id]
                        if not isinstance(v, Ptr) or v.obj != arr.obj:
                            return None
                        if not present:
                            return b_not(s.g['has'])
                        return b_implies(icmp('ugt', v.off, mul(m, 32)), b_and(s.g['has'], eq(s.g['val'], val(m))))
                    r += [('spec:aligned', al), ('spec:added so far', f)]
            return r
        E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [spec]))
        li = E.new_obj(st, 'il', 16, 'arg')
        E.mwrite(st, li.obj, 0, 8, arr)
        E.mwrite(st, li.obj, 8, 8, n)
        c = 0
        for s, r in E.run_fn(st, fn(E, 'init'), [t, li]):
            c += 1
            if present:
                E.oblige(s, b_and(s.g['has'], eq(s.g['val'], val(m))), 'a set built from a list maps each key to its last value', 'spec')
            else:
                E.oblige(s, b_not(s.g['has']), 'a set built from a list has no other key', 'spec')
        cover(E, 'list constructor returns', c > 0)


def tasks(m):
    r = [('add text', lambda E: t_api(E, 'add_c')), ('add view', lambda E: t_api(E, 'add_sv')), ('new', t_new), ('lemma', t_lemma), ('initializer list', t_init)]
    for large in (False, True):
        w = 'large' if large else 'small'
        for known in (False, True):
            r.append(('add %s key to %s' % ('known' if known else 'new', w), lambda E, l=large, k=known: t_add(E, l, 'add', k)))
        for nm, f in (('copy', t_copy), ('move', t_move), ('destroy', t_dtor), ('lookup', t_lookup), ('views', t_views), ('add_all', t_addall)):
            r.append(('%s %s' % (nm, w), lambda E, l=large, f=f: f(E, l)))
        for l2 in (False, True):
            r.append(('assign %s from %s' % (w, 'large' if l2 else 'small'), lambda E, l=large, l2=l2: t_assign(E, l, l2, False)))
            r.append(('equality %s %s' % (w, 'large' if l2 else 'small'), lambda E, l=large, l2=l2: t_eq(E, l, l2)))
        r.append(('self assign %s' % w, lambda E, l=large: t_assign(E, l, l, True)))
        for h in ('hash', 'stdhash'):
            r.append(('%s %s' % (h, w), lambda E, l=large, h=h: t_hash(E, l, h)))
    return r
