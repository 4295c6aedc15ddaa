"""Deductive verification of functions in LLVM IR.

Every function is executed symbolically from a state described by its precondition; a call is replaced by the
callee's contract when there is one (see `lib.py` and the property specifications) and otherwise by the callee's own
body from the same module; a loop is cut at its header by an inductive invariant (candidates proposed by the engine
and by the specification, kept only while they are proved on entry and preserved), unless its trip count is decided
by constants.  Obligations (memory safety, absence of aborts, callee preconditions, the specification's
postconditions) are discharged by z3, with cvc5 as second back end."""
import re, sys, time, os, subprocess, tempfile
import z3
from .ops import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedCut(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __add__(self, n):
        return Ptr(self.obj, add(self.off, n))


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef:
    """value of an uninitialised read"""
    def __repr__(self):
        return 'undef'


_fresh = [0]


def fresh(name, w=64):
    _fresh[0] += 1
    n = '%s!%d' % (name, _fresh[0])
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


# ------------------------------------------------------------------ memory
class Mem:
    """content of one object: layers, newest last.  Immutable."""
    __slots__ = ('layers', 'base')

    def __init__(self, layers=(), base=('undef',)):
        self.layers, self.base = layers, base

    def push(self, layer):
        return Mem(self.layers + (layer,), self.base)


class Obj:
    """static facts of an object"""
    __slots__ = ('id', 'name', 'kind', 'facts', 'elt', 'align', 'nonnull', 'onwrite')

    def __init__(self, id, name, kind):
        self.id, self.name, self.kind = id, name, kind
        self.onwrite = None # callable (engine, state, off, w, val) -> True if it has recorded the write
        self.facts = []     # callables (engine, state, off, w, val) -> Bool assumed at first read of `off`
        self.elt = None


class State:
    __slots__ = ('pc', 'mem', 'size', 'alive', 'g', 'absv', 'notes', 'seen_facts', 'frame_writes')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.size = {}
        self.alive = {}
        self.g = {}
        self.absv = {}
        self.notes = ()
        self.seen_facts = frozenset()

    def copy(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.size = dict(self.size)
        s.alive = dict(self.alive)
        s.g = dict(self.g)
        s.absv = dict(self.absv)
        s.notes = self.notes
        s.seen_facts = self.seen_facts
        return s

    def assume(self, c):
        if c is True:
            return
        self.pc = self.pc + (z(c),)


class Obligation:
    __slots__ = ('name', 'kind', 'status', 'time', 'backend', 'model', 'detail', 'hook')

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status = None
        self.time = 0.0
        self.backend = ''
        self.model = None
        self.detail = ''


class Call:
    __slots__ = ('name', 'dem', 'argtys', 'retty', 'instr', 'fn')


class Solver:
    def __init__(self, timeout_ms=8000):
        self.inc = z3.Solver()
        self.tinc = 1500
        self.inc.set('timeout', self.tinc)
        self.stack = []
        self.timeout = timeout_ms
        self.qtime = 0.0
        self.nq = 0
        self.cache = {}
        self.keep = []
        self.background = []

    def _sync(self, pc):
        n = 0
        m = min(len(pc), len(self.stack))
        while n < m and (self.stack[n] is pc[n] or self.stack[n].get_id() == pc[n].get_id()):
            n += 1
        if len(self.stack) > n:
            self.inc.pop(len(self.stack) - n)
            del self.stack[n:]
        for c in pc[n:]:
            self.inc.push()
            self.inc.add(c)
            self.stack.append(c)

    def sat(self, pc, c=True):
        """is pc & c satisfiable?  unknown counts as satisfiable"""
        if c is False:
            return False
        self.nq += 1
        t = time.time()
        try:
            key = (tuple(x.get_id() for x in pc), z(c).get_id())
            if key in self.cache:
                return self.cache[key]
            self._sync(pc)
            self.inc.push()
            self.inc.add(z(c))
            r = self.inc.check()
            self.inc.pop()
            res = r != z3.unsat
            self.cache[key] = res
            self.keep.append((pc, c))
            return res
        finally:
            self.qtime += time.time() - t

    def prove(self, pc, goal, timeout=None, full=True):
        """-> (status, model, backend)"""
        if goal is True:
            return 'proved', None, 'syntactic'
        self.nq += 1
        t0 = time.time()
        try:
            neg = z3.Not(z(goal))
            self._sync(pc)
            self.inc.push()
            self.inc.add(neg)
            if full:
                self.inc.set('timeout', 400)
            r = self.inc.check()
            if full:
                self.inc.set('timeout', self.tinc)
            model = self.inc.model() if r == z3.sat else None
            self.inc.pop()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            fpx = any(has_fp(c) for c in pc) or has_fp(neg)
            if r == z3.sat and not fpx:
                return 'failed', model, 'z3'
            if not full:
                return ('failed' if r == z3.sat else 'unknown'), model, 'z3'
            if fpx:
                s = z3.Solver()
                s.set('timeout', timeout or self.timeout)
                for c in pc:
                    s.add(ieee(c))
                s.add(ieee(neg))
                r2 = s.check()
                if r2 == z3.unsat:
                    return 'proved', None, 'z3-ieee'
                if r2 == z3.sat:
                    return 'failed', s.model(), 'z3-ieee'
                if r == z3.sat:
                    return 'unknown', model, 'z3-ieee'
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout)
            for c in pc:
                s.add(c)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat and not fpx:
                return 'failed', s.model(), 'z3'
            st = self._cvc5(s, (timeout or self.timeout) / 1000.0 + 4)
            if st == 'unsat':
                return 'proved', None, 'cvc5'
            return 'unknown', None, 'z3+cvc5'
        finally:
            self.qtime += time.time() - t0

    def _cvc5(self, s, secs):
        try:
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
            os.unlink(f.name)
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'


def exact_quotient(a, d):
    """x with a = d * x term by term, or None (the caller checks that the product does not wrap)"""
    if isc(a):
        return (sgn(a, 64) // d) & M(64) if sgn(a, 64) % d == 0 else None
    if z3.is_bv_value(a):
        return exact_quotient(a.as_long(), d)
    k = a.decl().kind()
    if k == z3.Z3_OP_BMUL:
        ch = a.children()
        if z3.is_bv_value(ch[0]):
            c = sgn(ch[0].as_long(), 64)
            if c % d == 0:
                r = z3.BitVecVal(c // d, 64)
                for x in ch[1:]:
                    r = r * x
                return simp(r)
        return None
    if k == z3.Z3_OP_BADD:
        r = 0
        for c in a.children():
            q = exact_quotient(c, d)
            if q is None:
                return None
            r = add(r, q)
        return r
    if k == z3.Z3_OP_ITE:
        c, x, y = a.children()
        x, y = exact_quotient(x, d), exact_quotient(y, d)
        return None if x is None or y is None else ite(c, x, y, 64)
    return None


def addr_const(obj):
    return z3.BitVec('addr!' + obj, 64)


class Engine:
    def __init__(self, module, handlers, opts=None):
        self.m = module
        self.handlers = handlers            # list of (compiled regex, function)
        self.hcache = {}
        self.S = Solver()
        self.objs = {}
        self.obls = []
        self.quiet = 0
        self.task = ''
        self.max_unroll = 700
        self.sym_unroll = 0
        self.loop_hooks = []
        self.weak = []          # loop invariants given up because the solver did not answer
        self.inlined = {}
        self.contracted = {}
        self.stack = []
        self.nobj = 0
        self.paths = 0
        self.atomic_hook = None
        self.resolve_hook = None
        self.deadline = None
        self.gcache = {}
        self.throw_ok = False
        self.loops_cut = []
        self.max_paths = 20000
        self.opts = opts or {}
        self.track_uninit = False
        self.loop_info = []
        self.merge_calls = True

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, size, kind='heap', base=('undef',)):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        o = Obj(oid, name, kind)
        self.objs[oid] = o
        st.mem[oid] = Mem((), base)
        st.size[oid] = size
        st.alive[oid] = True
        return Ptr(oid, 0)

    def sym_obj(self, st, name, size, elt=None, kind='arg'):
        """object with arbitrary (symbolic) initial content"""
        p = self.new_obj(st, name, size, kind, None)
        self.objs[p.obj].elt = elt
        st.mem[p.obj] = Mem((), ('sym', p.obj, elt))
        return p

    def global_name(self, p):
        """the name of the global a pointer points to the start of"""
        p = self.to_ptr(p)
        return p.obj[1:] if isinstance(p, Ptr) and p.obj is not None and p.obj.startswith('@') and isc(p.off) and p.off == 0 else None

    def global_obj(self, st, name):
        oid = '@' + name
        if oid in st.mem:
            return oid
        t, init, const = self.m.global_init(name)
        o = Obj(oid, name, 'global')
        self.objs[oid] = o
        if const and init is not None:
            if oid not in self.gcache:
                cells = {}
                self._flatten(st, init, t, 0, cells)
                self.gcache[oid] = cells
            else:
                for _, v in self.gcache[oid].values():     # what it points to exists in this state, too
                    if isinstance(v, Ptr) and v.obj is not None and v.obj.startswith('@') and v.obj not in st.mem and v.obj != oid:
                        self.global_obj(st, v.obj[1:])
            st.mem[oid] = Mem((dict(self.gcache[oid]),), ('zero',))
        else:
            st.mem[oid] = Mem((), ('sym', oid, None))
        st.size[oid] = t.size
        st.alive[oid] = True
        o.kind = 'const' if const else 'global'
        return oid

    def _flatten(self, st, d, t, off, cells):
        k = d[0]
        if k == 'i':
            cells[off] = ((t.size or (d[1] + 7) // 8), d[2])
        elif k == 'null':
            cells[off] = (8, NULL)
        elif k == 'zero' or k == 'undef':
            self._zero(t, off, cells)
        elif k == 'bytes':
            for i, b in enumerate(d[1]):
                cells[off + i] = (1, b)
        elif k == 'agg':
            ty = d[1]
            for i, e in enumerate(d[2]):
                if ty.kind == 'array':
                    self._flatten(st, e, ty.elt, off + i * ty.elt.size, cells)
                else:
                    self._flatten(st, e, ty.fields[i], off + ty.offsets[i], cells)
        elif k in ('g', 'ce'):
            try:
                cells[off] = (8, self.const(st, d))
            except Unsupported:
                cells[off] = (8, fresh('cexpr'))
        else:
            raise Unsupported('global initialiser %s' % k)

    def _zero(self, t, off, cells):
        if t.kind in ('int', 'fp'):
            cells[off] = (t.size, 0)
        elif t.kind == 'ptr':
            cells[off] = (8, NULL)
        elif t.kind == 'struct':
            for f, o in zip(t.fields, t.offsets):
                self._zero(f, off + o, cells)
        elif t.kind == 'array':
            for i in range(t.n):
                self._zero(t.elt, off + i * t.elt.size, cells)

    # ---------------------------------------------------------------- pointers and integers
    def to_int(self, v):
        """pointer -> 64-bit word"""
        if isinstance(v, Ptr):
            if v.obj is None:
                return v.off if isc(v.off) else v.off
            return add(addr_const(v.obj), v.off)
        if isinstance(v, FnPtr):
            return z3.BitVec('fn!' + v.name, 64)
        if isinstance(v, Undef):
            return fresh('undef')
        return v

    def to_ptr(self, v):
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if isinstance(v, Undef):
            return v
        if isc(v):
            return Ptr(None, v)
        if v.size() != 64:
            raise Unsupported('pointer of width %d' % v.size())
        r = self._split_addr(v)
        return r if r is not None else v

    def _split_addr(self, v):
        # addr!o, or a sum containing exactly one addr!o with coefficient one
        if v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0:
            n = v.decl().name()
            if n.startswith('addr!'):
                return Ptr(n[5:], 0)
            if n.startswith('fn!'):
                return FnPtr(n[3:])
            return None
        if v.decl().kind() == z3.Z3_OP_BADD:
            base = None
            rest = []
            for c in v.children():
                if c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args() == 0 and c.decl().name().startswith('addr!') and base is None:
                    base = c.decl().name()[5:]
                else:
                    rest.append(c)
            if base is not None:
                off = rest[0]
                for r in rest[1:]:
                    off = off + r
                return Ptr(base, simp(off))
        return None

    # ---------------------------------------------------------------- memory access
    def mread(self, st, obj, off, w):
        """raw value of w bytes at off of obj"""
        v = self._read(st, st.mem[obj], off, w, obj)
        o = self.objs[obj]
        if o.facts:
            self.apply_facts(st, obj, off, w, v)
        return v

    def apply_facts(self, st, obj, off, w, v):
        o = self.objs[obj]
        key = (obj, off if isc(off) else off.get_id(), w, v if isc(v) else (v.get_id() if z3.is_expr(v) else id(v)))
        if key in st.seen_facts:
            return
        st.seen_facts = st.seen_facts | {key}
        for f in o.facts:
            c = f(self, st, off, w, v)
            if c is not None and c is not True:
                st.assume(c)

    def _base(self, st, base, off, w):
        k = base[0]
        if k == 'undef':
            return Undef()
        if k == 'zero':
            return 0
        if k == 'fn':
            return base[1](self, st, off, w)
        if k == 'sym':
            name, elt = base[1], base[2]
            if elt is None or elt == w:
                f = z3.Function('mem!%s!%d' % (name, w), B64, z3.BitVecSort(8 * w))
                return f(bv(off, 64))
            f = z3.Function('mem!%s!%d' % (name, elt), B64, z3.BitVecSort(8 * elt))
            if w > elt and w % elt == 0:
                parts = [f(bv(add(off, i * elt), 64)) for i in range(w // elt)]
                return simp(z3.Concat(*parts[::-1]))
            if w < elt and isc(off):
                b = off - off % elt
                if off + w <= b + elt:
                    s = (off - b) * 8
                    return simp(z3.Extract(s + 8 * w - 1, s, f(bv(b, 64))))
            raise Unsupported('read of %d bytes in an array of %d-byte elements' % (w, elt))
        raise Unsupported('base %s' % k)

    def _as_bits(self, v, w):
        if isinstance(v, bool):
            return 1 if v else 0
        if isinstance(v, (Ptr, FnPtr)):
            return self.to_int(v)
        if isinstance(v, Undef):
            return fresh('undef', 8 * w)
        if not isc(v) and z3.is_bool(v):
            return bv(v, 8 * w)
        return v

    def _ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        return ite(c, self._as_bits(a, w), self._as_bits(b, w), 8 * w)

    def _read(self, st, mem, off, w, oname='', upto=None):
        layers = mem.layers
        i = len(layers) if upto is None else upto
        conds = []     # (cond, value) newest first
        res = None
        while i > 0:
            i -= 1
            L = layers[i]
            if isinstance(L, dict):
                if isc(off):
                    c = L.get(off)
                    if c is not None and c[0] == w:
                        res = c[1]
                        break
                    if any((o < off + w and off < o + c[0]) for o, c in self._near(L, off, w)):
                        res = self._bytes(st, mem, off, w, i + 1, oname)
                        break
                else:
                    for o, c in L.items():
                        if c[0] == w:
                            cond = eq(off, o)
                            if cond is False:
                                continue
                            if cond is True or self.S.sat(st.pc, cond):
                                conds.append((cond, c[1]))
                        else:
                            ov = b_and(icmp('ult', off, o + c[0]), icmp('ult', o, add(off, w)))
                            if ov is not False and self.S.sat(st.pc, ov):
                                if c[0] > w and c[0] <= 16 and c[0] % w == 0:
                                    raise NeedBytes()
                                raise Unsupported('symbolic offset overlaps a cell of another width in %s' % oname)
            elif L[0] == 'w':
                _, o, lw, val = L
                if lw == w:
                    cond = eq(off, o)
                    if cond is True:
                        res = val
                        break
                    if cond is False:
                        if isc(off) and isc(o) and abs(sgn(sub(off, o), 64)) < w:
                            res = self._bytes(st, mem, off, w, i + 1, oname)
                            break
                        continue
                    if w > 1:
                        d = sub(off, o)
                        part = False if self._mult(d, w) else b_and(icmp('ne', d, 0), b_or(icmp('ult', d, w), icmp('ugt', d, M(64) - w + 1)))
                        if part is not False and self.S.sat(st.pc, part):
                            raise Unsupported('partial overlap in %s' % oname)
                    if not self.S.sat(st.pc, cond):
                        continue
                    if self.S.prove(st.pc, cond, full=False)[0] == 'proved':
                        res = val
                        break
                    conds.append((cond, val))
                else:
                    ov = b_and(icmp('ult', sub(off, o), lw))
                    ov2 = icmp('ult', sub(o, off), w)
                    o2 = b_or(ov, ov2)
                    if o2 is False or not self.S.sat(st.pc, o2):
                        continue
                    raise Unsupported('overlap of %d-byte read with %d-byte write in %s' % (w, lw, oname))
            elif L[0] in ('copy', 'set'):
                dst, ln = L[1], L[2]
                d = sub(off, dst)
                inside = b_and(icmp('ult', d, ln), icmp('ule', add(d, w), ln), icmp('ule', d, add(d, w)))
                outside = b_or(icmp('uge', d, ln), False)
                if w > 1:
                    d2 = sub(dst, off)
                    outside = b_and(icmp('uge', d, ln), b_or(icmp('uge', d2, w), eq(ln, 0)))
                aligned = self._mult(d, w) and self._mult(ln, w)
                if aligned:       # multiples of a power of two stay multiples modulo 2^64: no partial overlap
                    inside = icmp('ult', d, ln)
                    outside = b_not(inside)
                inside, outside = simp(inside), simp(outside)
                if outside is True:
                    continue
                if inside is True:
                    res = self._layer_val(st, L, d, w, oname)
                    break
                can_in = self.S.sat(st.pc, inside)
                can_out = self.S.sat(st.pc, outside)
                part = False if aligned else b_and(b_not(inside), b_not(outside))
                if part is not False and self.S.sat(st.pc, part):
                    if isc(off) and isc(dst) and isc(ln):
                        res = self._bytes(st, mem, off, w, i + 1, oname)
                        break
                    raise Unsupported('partially copied read in %s' % oname)
                if not can_in:
                    continue
                v = self._layer_val(st, L, d, w, oname)
                if not can_out:
                    res = v
                    break
                conds.append((inside, v))
            elif L[0] == 'havoc':
                lo, ln, fnm = L[1], L[2], L[3]
                raise Unsupported('havoc layer')
            else:
                raise Unsupported('layer %s' % L[0])
        else:
            res = self._base(st, mem.base, off, w)
        for cond, v in reversed(conds):
            res = self._ite(cond, v, res, w)
        return res

    def _mult(self, x, w):
        return w in (2, 4, 8) and exact_quotient(x, w) is not None

    def _near(self, L, off, w):
        if len(L) > 64:
            for o in range(off - 15, off + w):
                if o in L:
                    yield o, L[o]
        else:
            for o, c in L.items():
                yield o, c

    def _layer_val(self, st, L, d, w, oname):
        if L[0] == 'set':
            b = L[3]
            if isc(b):
                v = 0
                for _ in range(w):
                    v = (v << 8) | b
                return v
            if w == 1:
                return b
            return simp(z3.Concat(*([bv(b, 8)] * w)))
        _, dst, ln, smem, soff, sname = L
        v = self._read(st, smem, add(d, soff), w, sname)
        if sname in self.objs and self.objs[sname].facts:
            self.apply_facts(st, sname, add(d, soff), w, v)
        return v

    def _bytes(self, st, mem, off, w, upto, oname):
        """assemble w bytes one at a time (constant offset)"""
        parts = []
        for k in range(w):
            parts.append(self._byte(st, mem, off + k, upto, oname))
        if all(isinstance(p, Undef) for p in parts):
            return Undef()
        if all(isc(p) for p in parts):
            r = 0
            for p in reversed(parts):
                r = (r << 8) | p
            return r
        return simp(z3.Concat(*[bv(self._as_bits(p, 1), 8) for p in reversed(parts)])) if w > 1 else parts[0]

    def _byte(self, st, mem, off, upto, oname):
        layers = mem.layers
        i = upto
        while i > 0:
            i -= 1
            L = layers[i]
            if isinstance(L, dict):
                for o, c in self._near(L, off, 1):
                    if o <= off < o + c[0]:
                        if c[0] == 1:
                            return c[1]
                        b = self._as_bits(c[1], c[0])
                        s = 8 * (off - o)
                        if isc(b):
                            return (b >> s) & 255
                        return simp(z3.Extract(s + 7, s, b))
            elif L[0] == 'w' and isc(L[1]) and not (L[1] <= off < L[1] + L[2]):
                continue
            elif L[0] in ('copy', 'set') and isc(L[1]) and isc(L[2]):
                if L[1] <= off < L[1] + L[2]:
                    if L[0] == 'set':
                        return L[3]
                    sm = L[3]
                    so = L[4]
                    if not isc(so):
                        raise Unsupported('bytes of symbolic copy')
                    return self._byte(st, sm, so + off - L[1], len(sm.layers), L[5])
            else:
                return self._read(st, mem, off, 1, oname, upto=i + 1)
        base = mem.base
        if base[0] == 'sym' and base[2] is None:
            # consistent bytes of a structure with unknown content
            return self._base(st, ('sym', base[1], 1), off, 1)
        return self._base(st, base, off, 1)

    def mwrite(self, st, obj, off, w, v):
        if self.objs[obj].onwrite is not None and self.objs[obj].onwrite(self, st, off, w, v):
            return
        mem = st.mem[obj]
        if isc(off):
            top = mem.layers[-1] if mem.layers else None
            if isinstance(top, dict):
                L = dict(top)
                ov = [o for o, c in self._near(L, off, w) if o < off + w and off < o + c[0]]
                rest = mem.layers[:-1]
                for o in ov:
                    cw, cv = L.pop(o)
                    if o < off or o + cw > off + w:
                        b = self._as_bits(cv, cw)
                        for k in range(cw):
                            if not (off <= o + k < off + w):
                                L[o + k] = (1, (b >> (8 * k)) & 255 if isc(b) else simp(z3.Extract(8 * k + 7, 8 * k, b)))
                L[off] = (w, v)
                st.mem[obj] = Mem(rest + (L,), mem.base)
            else:
                st.mem[obj] = Mem(mem.layers + ({off: (w, v)},), mem.base)
        else:
            st.mem[obj] = mem.push(('w', off, w, v))

    def deref(self, st, v, what):
        """resolve a pointer value to a list of (state, Ptr)"""
        v = self.to_ptr(v)
        if isinstance(v, Ptr):
            return [(st, v)]
        if isinstance(v, (FnPtr, Undef)):
            raise Unsupported('dereference of %r' % (v,))
        if v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            out = []
            for cond, x in ((c, a), (z3.Not(c), b)):
                if self.S.sat(st.pc, cond):
                    s = st.copy()
                    s.assume(cond)
                    out += self.deref(s, simp(x), what)
            return out
        if self.resolve_hook:
            r = self.resolve_hook(self, st, v)
            if r is not None:
                return r
        sv = simp(v)
        if z3.is_expr(sv) and sv.get_id() != v.get_id():
            return self.deref(st, sv, what)
        # ite inside a sum
        for i, c in enumerate(v.children()):
            if c.decl().kind() == z3.Z3_OP_ITE and v.decl().kind() == z3.Z3_OP_BADD:
                out = []
                others = [x for j, x in enumerate(v.children()) if j != i]
                cc, a, b = c.children()
                for cond, x in ((cc, a), (z3.Not(cc), b)):
                    if self.S.sat(st.pc, cond):
                        s = st.copy()
                        s.assume(cond)
                        t = x
                        for o in others:
                            t = t + o
                        out += self.deref(s, simp(t), what)
                return out
        raise Unsupported('%s through an unresolved pointer %s' % (what, str(v)[:120]))

    def check_access(self, st, p, n, what):
        """obligation: [p, p+n) lies inside a live object"""
        if p.obj is None:
            self.fail(st, '%s through a null pointer' % what, 'null')
            return False
        if p.obj not in st.mem:
            raise Unsupported('access to unknown object %s' % p.obj)
        if st.alive.get(p.obj) is False:
            self.fail(st, '%s of freed object %s' % (what, self.objs[p.obj].name), 'lifetime')
            return False
        al = st.alive.get(p.obj)
        if al is not True and al is not None:
            self.oblige(st, al, '%s of freed object %s' % (what, self.objs[p.obj].name), 'lifetime')
        size = st.size[p.obj]
        if size is None:
            return True
        if isc(p.off) and isc(size) and isc(n):
            if p.off + n <= size:
                return True
            if n == 0 and p.off <= size:
                return True
            self.fail(st, '%s out of bounds of %s' % (what, self.objs[p.obj].name), 'bounds')
            return False
        end = add(p.off, n)
        c = b_and(icmp('ule', end, size), icmp('ule', p.off, end))
        if n == 0:
            return True
        if not isc(n):
            c = b_or(eq(n, 0), c)
        if c is False:
            self.fail(st, '%s out of bounds of %s' % (what, self.objs[p.obj].name), 'bounds')
            return False
        self.oblige(st, c, '%s within bounds of %s' % (what, self.objs[p.obj].name), 'bounds')
        return True

    def load(self, st, v, ty, what='read'):
        """-> list of (state, value)"""
        out = []
        for s, p in self.deref(st, v, what):
            if ty.kind in ('struct', 'array'):
                n = ty.size
                if not self.check_access(s, p, n, what):
                    continue
                out.append((s, self._load_agg(s, p, ty)))
                continue
            if ty.size is None:
                raise Unsupported('load of %r' % ty)
            w = ty.size if ty.kind != 'int' else (ty.width + 7) // 8
            if not self.check_access(s, p, w, what):
                continue
            out.append((s, self.coerce(self.mread(s, p.obj, p.off, w), ty)))
        return out

    def _load_agg(self, s, p, ty):
        if ty.kind == 'struct':
            return tuple(self._load_agg(s, p + o, f) for f, o in zip(ty.fields, ty.offsets))
        if ty.kind == 'array':
            return tuple(self._load_agg(s, p + i * ty.elt.size, ty.elt) for i in range(ty.n))
        w = ty.size if ty.kind != 'int' else (ty.width + 7) // 8
        return self.coerce(self.mread(s, p.obj, p.off, w), ty)

    def coerce(self, v, ty):
        if ty.kind == 'ptr':
            return self.to_ptr(v)
        if ty.kind in ('int', 'fp'):
            if isinstance(v, Undef):
                return fresh('undef', ty.width)
            b = self._as_bits(v, ty.size)
            w = ty.width
            if isc(b):
                return bool(b & 1) if w == 1 else b & M(w)
            if b.size() > w:
                return trunc(b, b.size(), w)
            return b
        raise Unsupported('coerce to %r' % ty)

    def store(self, st, v, val, ty, what='write'):
        """-> list of states"""
        out = []
        ps = self.deref(st, v, what)
        for s, p in ps:
            if ty.kind in ('struct', 'array'):
                if not self.check_access(s, p, ty.size, what):
                    continue
                self._store_agg(s, p, val, ty)
                out.append(s)
                continue
            w = ty.size if ty.kind != 'int' else (ty.width + 7) // 8
            if not self.check_access(s, p, w, what):
                continue
            if self.objs[p.obj].kind == 'const':
                self.fail(s, 'write to constant %s' % p.obj, 'bounds')
                continue
            if ty.kind == 'int' and ty.width == 1:
                val = zext(val, 1, 8)
            elif ty.kind == 'int' and ty.width % 8:
                val = zext(val, ty.width, 8 * w)
            self.mwrite(s, p.obj, p.off, w, val)
            out.append(s)
        return out

    def _store_agg(self, s, p, val, ty):
        if ty.kind == 'struct':
            for f, o, x in zip(ty.fields, ty.offsets, val):
                self._store_agg(s, p + o, x, f)
        elif ty.kind == 'array':
            for i in range(ty.n):
                self._store_agg(s, p + i * ty.elt.size, val[i], ty.elt)
        else:
            w = ty.size if ty.kind != 'int' else (ty.width + 7) // 8
            if ty.kind == 'int' and ty.width == 1:
                val = zext(val, 1, 8)
            self.mwrite(s, p.obj, p.off, w, val)

    def memcpy(self, st, d, s, n, what='memcpy'):
        """copy n bytes (memmove semantics) -> list of states"""
        out = []
        if isc(n) and n == 0:
            return [st]
        for s1, dp in self.deref(st, d, what):
            for s2, sp in self.deref(s1, s, what):
                if dp.obj is None or sp.obj is None:
                    if not isc(n) and not self.S.sat(s2.pc, icmp('ne', n, 0)):
                        out.append(s2)
                        continue
                    if not isc(n):
                        self.oblige(s2, eq(n, 0), '%s with a null pointer' % what, 'null')
                        out.append(s2)
                        continue
                if not self.check_access(s2, dp, n, what + ' destination'):
                    continue
                if not self.check_access(s2, sp, n, what + ' source'):
                    continue
                smem = s2.mem[sp.obj]
                # small constant copies between plain cells stay plain cells
                if isc(n) and isc(dp.off) and isc(sp.off) and n <= 512 and smem.layers and len(smem.layers) == 1 and isinstance(smem.layers[0], dict):
                    L = smem.layers[0]
                    inside = [(o, c) for o, c in L.items() if sp.off <= o and o + c[0] <= sp.off + n]
                    cover = sum(c[0] for o, c in inside)
                    if cover == n:
                        for o, c in inside:
                            self.mwrite(s2, dp.obj, dp.off + o - sp.off, c[0], c[1])
                        self._copy_abs(s2, dp, sp, n)
                        out.append(s2)
                        continue
                s2.mem[dp.obj] = s2.mem[dp.obj].push(('copy', dp.off, n, smem, sp.off, sp.obj))
                self._copy_abs(s2, dp, sp, n)
                out.append(s2)
        return out

    def _copy_abs(self, st, dp, sp, n):
        if isc(dp.off) and isc(sp.off) and isc(n):
            for (o, off), v in list(st.absv.items()):
                if o == sp.obj and isc(off) and sp.off <= off < sp.off + n:
                    st.absv[(dp.obj, dp.off + off - sp.off)] = v

    def memset(self, st, d, b, n):
        out = []
        for s, p in self.deref(st, d, 'memset'):
            if isc(n) and n == 0:
                out.append(s)
                continue
            if not self.check_access(s, p, n, 'memset'):
                continue
            s.mem[p.obj] = s.mem[p.obj].push(('set', p.off, n, b))
            out.append(s)
        return out

    def cstring(self, st, v):
        """constant NUL-terminated string behind v, or None"""
        v = self.to_ptr(v)
        if not isinstance(v, Ptr) or v.obj is None or not isc(v.off) or v.obj not in st.mem:
            return None
        r = b''
        i = v.off
        size = st.size.get(v.obj)
        while isc(size) and i < size:
            c = self.mread(st, v.obj, i, 1)
            if not isc(c):
                return None
            if c == 0:
                return r
            r += bytes([c])
            i += 1
        return None

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, cond, name, kind='spec', hook=None, timeout=None):
        """record and discharge pc => cond; afterwards cond is assumed"""
        if self.quiet:
            if cond is False:
                st.assume(False)
            elif cond is not True:
                st.assume(cond)
            return cond is not False
        o = Obligation('%s: %s' % (self.task, name), kind)
        t = time.time()
        o.status, model, o.backend = self.S.prove(st.pc, cond, timeout)
        o.time = time.time() - t
        if o.status != 'proved':
            o.model = model
            o.detail = self._detail(st, cond, model)
            o.hook = hook(model) if (hook and model is not None) else None
            if os.environ.get('VC_DEBUG'):
                print('  !!', o.status, o.name, o.detail[:3000], file=sys.stderr)
        self.obls.append(o)
        if cond is not True:
            st.assume(cond)
        return o.status == 'proved'

    def _detail(self, st, cond, model):
        s = 'in %s\n' % ' > '.join(x[:100] for x in self.stack)
        s += 'goal: %s\n' % str(z3.simplify(z(cond)))[:1500]
        if model is not None:
            items = []
            for d in model.decls():
                try:
                    v = model[d]
                    items.append('%s = %s' % (d.name(), str(v)[:200]))
                except Exception:
                    pass
            s += 'counterexample: ' + '; '.join(items)[:3000]
        return s

    def fail(self, st, name, kind):
        """an obligation that is false on this path: the path must be infeasible"""
        self.oblige(st, False, name, kind)

    # ---------------------------------------------------------------- values
    def const(self, st, d):
        k = d[0]
        if k == 'i':
            return bool(d[2]) if d[1] == 1 else d[2]
        if k == 'null':
            return NULL
        if k == 'g':
            if d[2] == 'fn':
                return FnPtr(d[1])
            return Ptr(self.global_obj(st, d[1]), 0)
        if k == 'undef':
            return self._undef(d[1])
        if k == 'zero':
            return self._zeroval(d[1])
        if k == 'agg':
            return tuple(self.const(st, e) for e in d[2])
        if k == 'ce':
            op = d[1]
            if op == 'gep':
                base = self.const(st, d[2][0])
                idx = [self.const(st, x) for x in d[2][1:]]
                return self.gep(base, d[4], idx, [64] * len(idx))
            if op in ('bitcast',):
                return self.const(st, d[2][0])
            if op == 'ptrtoint':
                return self.to_int(self.const(st, d[2][0]))
            if op == 'inttoptr':
                return self.to_ptr(self.const(st, d[2][0]))
            if op in ('sub', 'add'):
                a, b = (self.const(st, x) for x in d[2])
                return binop(op, a, b, 64)
            raise Unsupported('constant expression %s' % op)
        if k == 'md':
            return None
        if k == 'bytes':
            return tuple(d[1])
        raise Unsupported('operand %r' % (d,))

    def _undef(self, t):
        if t.kind == 'int':
            return fresh('undef', t.width)
        if t.kind == 'fp':
            return fresh('undef', t.width)
        if t.kind == 'ptr':
            return Undef()
        if t.kind == 'struct':
            return tuple(self._undef(f) for f in t.fields)
        if t.kind == 'array':
            return tuple(self._undef(t.elt) for _ in range(t.n))
        return Undef()

    def _zeroval(self, t):
        if t.kind == 'int':
            return False if t.width == 1 else 0
        if t.kind == 'fp':
            return 0
        if t.kind == 'ptr':
            return NULL
        if t.kind == 'struct':
            return tuple(self._zeroval(f) for f in t.fields)
        if t.kind == 'array':
            return tuple(self._zeroval(t.elt) for _ in range(t.n))
        raise Unsupported('zero of %r' % t)

    def val(self, st, env, d):
        if d[0] == 'v':
            return env[d[1]]
        return self.const(st, d)

    def gep(self, base, src, idx, iw):
        off = 0
        t = src
        for n, i in enumerate(idx):
            if n == 0:
                sz = t.size
                off = add(off, mul(self._ix(i, iw[n]), sz))
            elif t.kind == 'struct':
                off = add(off, t.offsets[i])
                t = t.fields[i]
            elif t.kind in ('array', 'vector'):
                t = t.elt
                off = add(off, mul(self._ix(i, iw[n]), t.size))
            else:
                raise Unsupported('gep into %r' % t)
        base = self.to_ptr(base)
        if isinstance(base, Ptr):
            return Ptr(base.obj, add(base.off, off))
        if isinstance(base, Undef):
            return base
        if isinstance(base, FnPtr):
            raise Unsupported('gep of function')
        return self.to_ptr(add(base, off))

    def _ix(self, i, w):
        if isc(i):
            return i if w == 64 else sgn(i, w) & M(64)
        return i if i.size() == 64 else sext(i, i.size(), 64)

    def ptr_cmp(self, st, pred, a, b):
        a, b = self.to_ptr(a), self.to_ptr(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return icmp(pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                # distinct live objects never share an address; one-past-the-end pointers are not compared with
                # other objects by this code base (assumption A-ptr)
                return pred == 'ne'
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and pred in ('eq', 'ne'):
            return (a.name == b.name) == (pred == 'eq')
        if (isinstance(a, FnPtr) and isinstance(b, Ptr) and b.obj is None) or (isinstance(b, FnPtr) and isinstance(a, Ptr) and a.obj is None):
            return pred == 'ne'
        x, y = self.to_int(a), self.to_int(b)
        for p in (a, b):
            if isinstance(p, Ptr) and p.obj is not None:
                st.assume(z3.And(addr_const(p.obj) != 0, z3.ULT(addr_const(p.obj), 1 << 47)))
        return icmp(pred, x, y)

    # ---------------------------------------------------------------- calls
    def handler(self, name, dem):
        h = self.hcache.get(name, 0)
        if h == 0:
            h = None
            for rx, fn in self.handlers:
                if rx.search(dem):
                    h = fn
                    break
            self.hcache[name] = h
        return h

    def call(self, st, name, args, argtys=None, retty=None, instr=None):
        """-> list of (state, value)"""
        dem = self.m.demangle(name)
        c = Call()
        c.name, c.dem, c.argtys, c.retty, c.instr = name, dem, argtys, retty, instr
        c.fn = self.m.fns.get(name)
        h = self.handler(name, dem)
        if h is not None:
            r = h(self, st, args, c)
            if r is not NotImplemented:
                self.contracted[dem] = self.contracted.get(dem, 0) + 1
                if not isinstance(r, list):
                    r = [(st, r)]
                return r
        fn = self.m.fns.get(name)
        if fn is None or fn.decl:
            raise Unsupported('no contract and no body for %s' % dem)
        if len(self.stack) > 60 or self.stack.count(dem) > 3:
            raise Unsupported('recursion in %s' % dem)
        self.inlined[dem] = self.inlined.get(dem, 0) + 1
        return self.run_fn(st, fn, args)

    def run_fn(self, st, fn, args):
        fn.load()
        self.stack.append(fn.dem)
        try:
            env = dict(zip(fn.args, args))
            locs = []
            outs = self.run(fn, st, env, fn.entry.id, None, None, None)
            res = []
            for o in outs:
                assert o[0] in ('ret', 'throw'), o[0]
                res.append((o[1], o[2]))
            return res
        except Exception as e:
            if not hasattr(e, 'vstack'):
                e.vstack = list(self.stack)
            raise
        finally:
            self.stack.pop()

    # ---------------------------------------------------------------- control
    def phis(self, st, env, blk, prev):
        if not blk.phis:
            return env
        vals = [(p.id, self.val(st, env, p.x['inc'][prev])) for p in blk.phis]
        env = dict(env)
        for k, v in vals:
            env[k] = v
        return env

    def run(self, fn, st, env, bb, prev, region, header):
        """explore from block bb; region: set of blocks (None = all); header: back edges to it end the path"""
        out = []
        work = [(st, env, bb, prev, True)]
        while work:
            st, env, bb, prev, first = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the verification task')
            if region is not None and not first:
                if bb == header:
                    out.append(('back', st, env, bb, prev))
                    continue
                if bb not in region:
                    out.append(('exit', st, env, bb, prev))
                    continue
            if bb in fn.loops and not (first and bb == header):
                for o in self.loop(fn, bb, st, env, prev):
                    if o[0] == 'exit':
                        _, s2, e2, to, fr = o
                        work.append((s2, e2, to, fr, False))
                    else:
                        out.append(o)
                continue
            blk = fn.blocks[bb]
            if not (first and bb == header):
                env = self.phis(st, env, blk, prev)
            else:
                env = dict(env)
            if not blk.phis:
                env = dict(env)
            self.block(fn, st, env, blk, 0, work, out)
        return out

    def block(self, fn, st, env, blk, start, work, out):
        todo = [(st, env, start)]
        while todo:
            st, env, i = todo.pop()
            instrs = blk.instrs
            n = len(instrs)
            while i < n:
                ins = instrs[i]
                op = ins.op
                if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                    break
                r = self.step(st, env, ins)
                if r is not None:          # list of (state, value)
                    if len(r) == 0:
                        st = None
                        break
                    if any(isinstance(v, Throw) for _, v in r):
                        out += [('throw', s2, v) for s2, v in r if isinstance(v, Throw)]
                        r = [x for x in r if not isinstance(x[1], Throw)]
                        if not r:
                            st = None
                            break
                    for s2, v in r[1:]:
                        e2 = dict(env)
                        if ins.ty.kind != 'void':
                            e2[ins.id] = v
                        todo.append((s2, e2, i + 1))
                    st = r[0][0]
                    if len(r) > 1:
                        env = dict(env)
                    if ins.ty.kind != 'void':
                        env[ins.id] = r[0][1]
                i += 1
            if st is None:
                continue
            ins = instrs[i]
            op = ins.op
            if op == 'ret':
                v = self.val(st, env, ins.ops[0]) if ins.ops else None
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported('too many paths')
                out.append(('ret', st, v))
            elif op == 'br':
                d = ins.x['dests']
                if len(d) == 1:
                    work.append((st, env, d[0], blk.id, False))
                else:
                    c = self.val(st, env, ins.ops[0])
                    if isinstance(c, bool):
                        work.append((st, env, d[0] if c else d[1], blk.id, False))
                    else:
                        c = simp(c)
                        if isinstance(c, bool):
                            work.append((st, env, d[0] if c else d[1], blk.id, False))
                            continue
                        t = self.S.sat(st.pc, c)
                        f = self.S.sat(st.pc, z3.Not(c))
                        if t and f:
                            s2 = st.copy()
                            s2.assume(z3.Not(c))
                            work.append((s2, dict(env), d[1], blk.id, False))
                        if t:
                            if f:
                                st.assume(c)
                            work.append((st, env, d[0], blk.id, False))
                        elif f:
                            work.append((st, env, d[1], blk.id, False))
            elif op == 'switch':
                v = self.val(st, env, ins.ops[0])
                if isc(v):
                    dest = ins.x['default']
                    for cv, b in ins.x['cases']:
                        if cv[2] == v:
                            dest = b
                            break
                    work.append((st, env, dest, blk.id, False))
                else:
                    w = v.size()
                    neg = []
                    groups = {}
                    for cv, b in ins.x['cases']:
                        c = eq(v, cv[2], w)
                        neg.append(b_not(c))
                        groups.setdefault(b, []).append(c)
                    for b, cs in groups.items():
                        c = b_or(*cs)
                        if c is not False and self.S.sat(st.pc, c):
                            s2 = st.copy()
                            s2.assume(c)
                            work.append((s2, dict(env), b, blk.id, False))
                    c = b_and(*neg)
                    if c is not False and self.S.sat(st.pc, c):
                        s2 = st.copy()
                        s2.assume(c)
                        work.append((s2, dict(env), ins.x['default'], blk.id, False))
            elif op == 'invoke':
                for s2, v in self.do_call(st, env, ins):
                    e2 = dict(env)
                    if isinstance(v, Throw):
                        s2.g['thrown'] = v
                        work.append((s2, e2, ins.x['unwind'], blk.id, False))
                        continue
                    if ins.ty.kind != 'void':
                        e2[ins.id] = v
                    work.append((s2, e2, ins.x['normal'], blk.id, False))
            elif op == 'resume':
                v = self.val(st, env, ins.ops[0])
                out.append(('throw', st, v[0]))
            elif op == 'unreachable':
                if not st.g.get('__ended'):
                    self.fail(st, 'unreachable code reached in %s' % fn.dem[:80], 'abort')
            else:
                raise Unsupported('terminator %s' % op)

    def do_call(self, st, env, ins):
        cal = ins.x['callee']
        args = [self.val(st, env, o) for o in ins.ops]
        if cal[0] == 'g':
            name = cal[1]
        else:
            if cal[0] == 'unk':
                raise Unsupported('call of inline asm or unknown value')
            f = self.val(st, env, cal)
            f = self.to_ptr(f)
            if not isinstance(f, FnPtr):
                h = self.opts.get('indirect')
                if h:
                    r = h(self, st, f, args, ins)
                    if r is not None:
                        return r
                raise Unsupported('indirect call of %s' % str(f)[:80])
            name = f.name
        r = self.call(st, name, args, ins.x['argtys'], ins.ty, ins)
        return r

    # ---------------------------------------------------------------- single instructions
    def step(self, st, env, ins):
        op = ins.op
        V = lambda k: self.val(st, env, ins.ops[k])
        if op == 'alloca':
            p = self.new_obj(st, 'l.' + (ins.name or 'tmp'), ins.x['aty'].size, 'stack')
            env[ins.id] = p
        elif op == 'load':
            if self.atomic_hook and (ins.x['atomic'] or self.opts.get('all_atomic')):
                r = self.atomic_hook(self, st, 'load', V(0), ins.ty, None, None)
                if r is not None:
                    return r
            return self.load(st, V(0), ins.ty)
        elif op == 'store':
            v, p = V(0), V(1)
            if self.atomic_hook and (ins.x['atomic'] or self.opts.get('all_atomic')):
                r = self.atomic_hook(self, st, 'store', p, ins.x['vty'], v, None)
                if r is not None:
                    return [(s, None) for s, _ in r]
            r = self.store(st, p, v, ins.x['vty'])
            return [(s, None) for s in r]
        elif op == 'gep':
            base = V(0)
            idx = [V(k) for k in range(1, len(ins.ops))]
            env[ins.id] = self.gep(base, ins.x['src'], idx, [t.width for t in ins.x['idxtys'][1:]])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(0), V(1)
            w = ins.ty.width
            if w is None:
                raise Unsupported('vector arithmetic')
            if w == 1:
                env[ins.id] = {'and': b_and, 'or': b_or, 'xor': b_xor, 'add': b_xor, 'sub': b_xor, 'mul': b_and}[op](a, b)
                return
            a, b = self._as_bits(a, w // 8), self._as_bits(b, w // 8)
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                c = icmp('ne', b, 0, w)
                if c is not True:
                    self.oblige(st, c, 'no division by zero', 'arith')
                if isc(b) and not isc(a) and b > 1 and w > 8:
                    r = self.small_div(st, op, a, b, w)
                    if r is not None:
                        env[ins.id] = r
                        return
            if op in ('sdiv', 'udiv', 'ashr', 'lshr') and isc(b) and not isc(a) and w == 64:
                d = b if op[1:] == 'div' else (1 << b if b < 62 else 0)
                x = exact_quotient(a, d) if 1 < d < (1 << 62) else None
                if x is not None:
                    lim = (1 << (63 if op in ('sdiv', 'ashr') else 64)) // d
                    fits = icmp('ult', x, lim) if op in ('udiv', 'lshr') else b_and(icmp('slt', x, lim), icmp('sge', x, (-lim) & M(64)))
                    if self.S.prove(st.pc, fits, full=False)[0] == 'proved':
                        env[ins.id] = x
                        return
            env[ins.id] = binop(op, a, b, w)
        elif op == 'icmp':
            a, b = V(0), V(1)
            t = ins.x['oty']
            if t.kind == 'ptr':
                env[ins.id] = self.ptr_cmp(st, ins.x['pred'], a, b)
            elif t.width == 1:
                e = b_not(b_xor(a, b))
                env[ins.id] = e if ins.x['pred'] == 'eq' else b_not(e)
            else:
                env[ins.id] = icmp(ins.x['pred'], a, b, t.width)
        elif op == 'fcmp':
            if ins.x['oty'].width != 64:
                raise Unsupported('fcmp of %r' % ins.x['oty'])
            env[ins.id] = fcmp(ins.x['pred'], V(0), V(1))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if ins.ty.width != 64 or ins.ty.kind != 'fp':
                raise Unsupported('%s of %r' % (op, ins.ty))
            env[ins.id] = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}[op](V(0), V(1))
        elif op == 'fneg':
            env[ins.id] = fneg(V(0))
        elif op == 'zext':
            env[ins.id] = zext(V(0), ins.x['oty'].width, ins.ty.width)
        elif op == 'sext':
            env[ins.id] = sext(V(0), ins.x['oty'].width, ins.ty.width)
        elif op == 'trunc':
            env[ins.id] = trunc(V(0), ins.x['oty'].width, ins.ty.width)
        elif op == 'sitofp':
            if ins.ty.width != 64:
                raise Unsupported('sitofp float')
            env[ins.id] = sitofp(V(0), ins.x['oty'].width)
        elif op == 'uitofp':
            if ins.ty.width != 64:
                raise Unsupported('uitofp float')
            env[ins.id] = uitofp(V(0), ins.x['oty'].width)
        elif op == 'fptosi':
            env[ins.id] = fptosi(V(0), ins.ty.width)
        elif op == 'fptoui':
            env[ins.id] = fptoui(V(0), ins.ty.width)
        elif op == 'fpext':
            v = V(0)
            if isc(v):
                env[ins.id] = d2b(struct.unpack('<f', struct.pack('<I', v))[0])
            else:
                env[ins.id] = FPEXT(v)
        elif op == 'ptrtoint':
            env[ins.id] = self.to_int(V(0))
        elif op == 'inttoptr':
            env[ins.id] = self.to_ptr(V(0))
        elif op == 'bitcast':
            v = V(0)
            env[ins.id] = v
        elif op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, bool):
                env[ins.id] = a if c else b
                return
            if ins.ty.kind == 'ptr':
                a, b = self.to_ptr(a), self.to_ptr(b)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    env[ins.id] = Ptr(a.obj, ite(c, a.off, b.off, 64))
                    return
            elif ins.ty.kind in ('int', 'fp'):
                env[ins.id] = ite_b(c, a, b) if ins.ty.width == 1 else ite(c, a, b, ins.ty.width)
                return
            r = []
            for cond, v in ((c, a), (z3.Not(c), b)):
                if self.S.sat(st.pc, cond):
                    s2 = st.copy()
                    s2.assume(cond)
                    r.append((s2, v))
            return r
        elif op == 'extractvalue':
            v = V(0)
            for k in ins.x['idx']:
                if isinstance(v, Undef):
                    break
                v = v[k]
            env[ins.id] = v
        elif op == 'insertvalue':
            env[ins.id] = self._insert(V(0), V(1), ins.x['idx'])
        elif op == 'freeze':
            env[ins.id] = V(0)
        elif op == 'fence':
            pass
        elif op == 'call':
            return self.do_call(st, env, ins)
        elif op == 'atomicrmw':
            return self.rmw(st, V(0), V(1), ins)
        elif op == 'cmpxchg':
            return self.cas(st, V(0), V(1), V(2), ins)
        elif op == 'landingpad':
            if not isinstance(st.g.get('thrown'), Throw):
                raise Unsupported('landing pad')
            # (exception, selector): clauses are tried by comparing the selector with llvm.eh.typeid.for of each type; what matches none is resumed
            env[ins.id] = (st.g['thrown'], 1)
        else:
            raise Unsupported('instruction %s' % op)
        return None

    def small_div(self, st, op, a, b, w):
        """division by a constant with few possible quotients, as comparisons; otherwise by its defining property"""
        if sgn(b, w) < 0 or b & (b - 1) == 0:
            return None
        if op[0] == 's' and not self.S.prove(st.pc, icmp('sge', a, 0, w), full=False)[0] == 'proved':
            return None
        K = 40
        if b * K <= M(w) and self.S.prove(st.pc, icmp('ult', a, b * K, w), full=False)[0] == 'proved':
            q = 0
            # binary search for the largest feasible quotient
            while K > 1 and self.S.prove(st.pc, icmp('ult', a, b * (K // 2), w), full=False)[0] == 'proved':
                K //= 2
            for i in range(1, K):
                q = ite(icmp('uge', a, b * i, w), i, q, w)
            return q if op[1:] == 'div' else sub(a, mul(q, b, w), w)
        return None

    def _insert(self, agg, v, idx):
        if isinstance(agg, Undef):
            raise Unsupported('insert into undef')
        l = list(agg)
        l[idx[0]] = v if len(idx) == 1 else self._insert(l[idx[0]], v, idx[1:])
        return tuple(l)

    def rmw(self, st, p, v, ins):
        ty = ins.x['vty']
        k = ins.x['rmw']
        if self.atomic_hook:
            r = self.atomic_hook(self, st, 'rmw:' + k, p, ty, v, None)
            if r is not None:
                return r
        out = []
        for s, old in self.load(st, p, ty, 'atomic read'):
            new = self.rmw_new(k, old, v, ty)
            for s2 in self.store(s, p, new, ty, 'atomic write'):
                out.append((s2, old))
        return out

    def rmw_new(self, k, old, v, ty):
        w = ty.width
        if k == 'xchg':
            return v
        if w is None:
            raise Unsupported('rmw %s' % k)
        if k in ('add', 'sub', 'and', 'or', 'xor'):
            return binop(k, old, v, w)
        if k == 'fadd':
            return fadd(old, v)
        if k == 'fsub':
            return fsub(old, v)
        if k in ('max', 'min', 'umax', 'umin'):
            pred = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
            return ite(icmp(pred, old, v, w), old, v, w)
        raise Unsupported('rmw %s' % k)

    def cas(self, st, p, exp, new, ins):
        ty = ins.x['vty']
        if self.atomic_hook:
            r = self.atomic_hook(self, st, 'cas', p, ty, new, exp)
            if r is not None:
                return r
        out = []
        for s, old in self.load(st, p, ty, 'atomic read'):
            w = ty.width or 64
            if ty.kind == 'ptr':
                c = self.ptr_cmp(s, 'eq', old, exp)
            else:
                c = eq(old, exp, w)
            # a weak exchange may also fail spuriously
            if c is not False and self.S.sat(s.pc, c):
                s1 = s.copy()
                s1.assume(c)
                for s2 in self.store(s1, p, new, ty, 'atomic write'):
                    out.append((s2, (old, True)))
            s1 = s.copy()
            out.append((s1, (old, False)))
        return out

    # ---------------------------------------------------------------- loops
    def loop(self, fn, H, st, env, prev):
        body = fn.loops[H]
        blk = fn.blocks[H]
        env0 = self.phis(st, env, blk, prev)
        # 1. constant trip count: unroll
        mark = len(self.obls)
        saved = (st.copy(), dict(env0))
        try:
            return self._unroll(fn, H, body, blk, st, env0)
        except NeedCut:
            del self.obls[mark:]
            st, env0 = saved
        return self._cut(fn, H, body, blk, st, env0)

    def _unroll(self, fn, H, body, blk, st, env0):
        outs = []
        work = [(st, env0, 0, self.sym_unroll)]
        while work:
            s, e, n, budget = work.pop()
            if n > self.max_unroll:
                raise NeedCut()
            r = self.run(fn, s, e, H, None, body, H)
            backs = [o for o in r if o[0] == 'back']
            others = [o for o in r if o[0] != 'back']
            if backs and others and budget <= 0:
                raise NeedCut()
            if len(backs) > 1 and budget <= 0 and n > 3:
                raise NeedCut()
            outs += others
            for o in backs:
                _, s2, e2, _, fr = o
                e3 = self.phis(s2, e2, blk, fr)
                work.append((s2, e3, n + 1, budget - (1 if others else 0)))
        return outs

    def _cut(self, fn, H, body, blk, st, env0):
        L = LoopCut(self, fn, H, body, blk, st, env0)
        self.loops_cut.append(fn.dem)
        return L.solve()


class Throw:
    """an exception in flight, thrown by a contract: names = the type infos a handler may name to catch it"""
    def __init__(self, names, ptr=None):
        self.names, self.ptr = names, ptr


class NeedBytes(Exception):
    pass


class HVar:
    """a loop-carried variable: a phi of the header, or a memory cell written in the loop, or a ghost"""
    def __init__(self, kind, key, w, ty=None):
        self.kind, self.key, self.w, self.ty = kind, key, w, ty

    def get(self, E, st, env):
        if self.kind == 'phi':
            return env[self.key]
        if self.kind == 'cell':
            obj, off = self.key
            return E.mread(st, obj, off, self.w // 8)
        if self.kind == 'ghost':
            return st.g.get(self.key)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.key)


class LoopCut:
    """inductive invariant of one loop, found by Houdini over candidates; then one arbitrary iteration is verified"""

    def __init__(self, E, fn, H, body, blk, st, env0):
        self.E, self.fn, self.H, self.body, self.blk = E, fn, H, body, blk
        self.st0, self.env0 = st, env0
        self.cells = {}        # (obj, off) -> (w, kinds)
        self.arrays = {}       # obj -> generation
        self.ghosts = {}
        self.phi_objs = {}     # phi id -> list of obj choices ('int' for plain)
        self.absk = set()
        for p in blk.phis:
            v = env0[p.id]
            self.phi_objs[p.id] = [self._shape(v)]
        self.cands = None

    def _shape(self, v):
        if isinstance(v, Ptr):
            return ('obj', v.obj)
        if isinstance(v, FnPtr):
            return ('fn', v.name)
        if isinstance(v, Undef):
            return ('undef',)
        if isinstance(v, tuple):
            raise Unsupported('aggregate phi')
        return ('word',)

    def headers(self):
        """all havocked header states: list of (state, env)"""
        E = self.E
        st = self.st0.copy()
        env = dict(self.env0)
        for (obj, off), (w, shapes) in self.cells.items():
            pass
        states = [(st, env)]
        for p in self.blk.phis:
            new = []
            for s, e in states:
                for k, sh in enumerate(self.phi_objs[p.id]):
                    s2, e2 = (s.copy(), dict(e))
                    e2[p.id] = self._fresh_of(sh, p.ty, 'phi.' + (p.name or 'x'))
                    new.append((s2, e2))
            states = new
        for (obj, off), (w, shapes) in self.cells.items():
            new = []
            for s, e in states:
                for sh in shapes:
                    s2, e2 = s.copy(), dict(e)
                    if sh[0] == 'word':
                        v = fresh('cell', 8 * w)
                    elif sh[0] == 'obj':
                        v = NULL if sh[1] is None else Ptr(sh[1], fresh('celloff'))
                    elif sh[0] == 'undef':
                        v = Undef()
                    else:
                        v = FnPtr(sh[1])
                    E.mwrite(s2, obj, off, w, v)
                    new.append((s2, e2))
            states = new
        for s, e in states:
            for obj in self.arrays:
                # whole content unknown, except what invariants say
                old = s.mem[obj]
                E.nobj += 1
                nm = '%s~%d' % (obj, E.nobj)
                elt = E.objs[obj].elt or self.arrays[obj]
                s.mem[obj] = Mem((), ('sym', nm, elt))
            for k, w in self.ghosts.items():
                if w == 'len':
                    raise Unsupported('ghost sequence %s changes in a loop' % k)
                s.g[k] = fresh('g.' + k, w)
            for k in self.absk:
                s.absv.pop(k, None)
        return states

    def _fresh_of(self, sh, ty, name):
        if sh[0] == 'word':
            return fresh(name, ty.width or 64)
        if sh[0] == 'obj':
            if sh[1] is None:
                return NULL
            return Ptr(sh[1], fresh(name + '.off'))
        if sh[0] == 'undef':
            return Undef()
        return FnPtr(sh[1])

    def hvars(self):
        r = []
        for p in self.blk.phis:
            if p.ty.kind in ('int', 'ptr', 'fp'):
                r.append(HVar('phi', p.id, p.ty.width or 64, p.ty))
        for (obj, off), (w, shapes) in self.cells.items():
            r.append(HVar('cell', (obj, off), 8 * w))
        for k, w in self.ghosts.items():
            if w != 'len':
                r.append(HVar('ghost', k, w))
        return r

    def inv_values(self):
        """loop-invariant integer values used by comparisons in the loop"""
        defs = set()
        for b in self.body:
            blk = self.fn.blocks[b]
            for i in blk.phis + blk.instrs:
                defs.add(i.id)
        vals = []
        for b in self.body:
            for i in self.fn.blocks[b].instrs:
                if i.op == 'icmp':
                    for o in i.ops:
                        if o[0] == 'v' and o[1] not in defs and o[1] in self.env0:
                            vals.append(self.env0[o[1]])
                        elif o[0] == 'i':
                            vals.append(o[2])
        return vals

    def gen(self):
        """engine candidates"""
        E = self.E
        c = []
        hv = self.hvars()
        st0, env0 = self.st0, self.env0

        def num(v):
            if isinstance(v, Ptr):
                return v.off if v.obj is not None else None
            if isinstance(v, (FnPtr, Undef)) or v is None or isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                return None
            return v

        def width(v):
            return 64 if isinstance(v, int) else v.size()
        init = {}
        for h in hv:
            try:
                init[h] = h.get(E, st0, env0)
            except KeyError:
                init[h] = None
        for h in hv:
            v0 = init[h]
            n0 = num(v0)
            if n0 is None:
                if isinstance(v0, bool) or (v0 is not None and z3.is_expr(v0) and z3.is_bool(v0)):
                    c.append(('%r unchanged' % h, lambda s, e, h=h, v0=v0: b_not(b_xor(h.get(E, s, e), v0))))
                continue

            def rel(pred, h=h, n0=n0, v0=v0):
                def f(s, e):
                    v = h.get(E, s, e)
                    if isinstance(v0, Ptr) and isinstance(v, Ptr) and v.obj != v0.obj:
                        return True
                    n = num(v)
                    if n is None:
                        return True
                    return icmp(pred, n, n0, h.w)
                return f
            for pred in ('eq', 'uge', 'ule', 'sge', 'sle'):
                c.append(('%r %s entry' % (h, pred), rel(pred)))

            def bound(h=h):
                def f(s, e):
                    v = h.get(E, s, e)
                    if isinstance(v, Ptr) and v.obj is not None and s.size.get(v.obj) is not None:
                        return icmp('ule', v.off, s.size[v.obj])
                    return True
                return f
            c.append(('%r in object' % h, bound()))
        ivals = []
        for v in self.inv_values():
            if isinstance(v, Ptr) or (not isinstance(v, (FnPtr, Undef, tuple, bool)) and not (z3.is_expr(v) and z3.is_bool(v))):
                ivals.append(v)
        for h in hv:
            for iv in ivals:
                if isinstance(iv, Ptr):
                    def g(s, e, h=h, iv=iv, pred='ule'):
                        v = h.get(E, s, e)
                        if isinstance(v, Ptr) and v.obj == iv.obj and v.obj is not None:
                            return icmp('ule', v.off, iv.off)
                        return True
                    c.append(('%r <= bound' % h, g))
                else:
                    for pred in ('ule', 'sle', 'uge', 'sge', 'ne'):
                        def g(s, e, h=h, iv=iv, pred=pred):
                            v = num(h.get(E, s, e))
                            if v is None or (not isc(iv) and iv.size() != h.w):
                                return True
                            return icmp(pred, v, iv, h.w)
                        c.append(('%r %s bound' % (h, pred), g))
        # pairwise relations of loop-carried variables: order and constant difference
        nums = [h for h in hv if num(init[h]) is not None]
        for i, a in enumerate(nums):
            for b in nums[i + 1:]:
                if a.w != b.w:
                    continue

                def d(s, e, a=a, b=b):
                    x, y = h2(a, s, e), h2(b, s, e)
                    if x is None or y is None:
                        return True
                    return eq(sub(x, y, a.w), sub(num(init[a]), num(init[b]), a.w), a.w)

                def h2(h, s, e):
                    v = h.get(E, s, e)
                    v0 = init[h]
                    if isinstance(v0, Ptr) and (not isinstance(v, Ptr) or v.obj != v0.obj):
                        return None
                    return num(v)
                c.append(('%r-%r const' % (a, b), d))
                for pred in ('ule', 'uge', 'sle', 'sge'):
                    def o(s, e, a=a, b=b, pred=pred):
                        va, vb = a.get(E, s, e), b.get(E, s, e)
                        if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj != vb.obj:
                            return True
                        x, y = num(va), num(vb)
                        if x is None or y is None:
                            return True
                        return icmp(pred, x, y, a.w)
                    c.append(('%r %s %r' % (a, pred, b), o))
        return c

    def solve(self):
        E = self.E
        for hook in E.loop_hooks:
            hook(self)
        rounds = 0
        E.quiet += 1
        cands = None
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('no invariant after 40 rounds')
                if cands is None:
                    allc = self.gen() + self.spec_cands()
                    cands = []
                    s00 = self.st0.copy()
                    for (obj, off), (w, shapes) in self.cells.items():
                        # an uninitialised cell that the header state holds as a word is an arbitrary word on entry
                        if ('undef',) not in shapes and isinstance(E._read(s00, s00.mem[obj], off, w, obj), Undef):
                            E.mwrite(s00, obj, off, w, fresh('undef', 8 * w))
                    for k, w in self.ghosts.items():
                        if s00.g.get(k) is None:
                            s00.g[k] = fresh('g0.' + k, w)
                    cands = self.filter(allc, s00, self.env0, entry=True)
                dropped = False
                grown = False
                for s, e in self.headers():
                    for nm, f in cands:
                        s.assume(f(s, e))
                    if not E.S.sat(s.pc):
                        continue
                    base = s.copy()
                    outs = E.run(self.fn, s, e, self.H, None, self.body, self.H)
                    for o in outs:
                        if o[0] != 'back':
                            continue
                        _, s2, e2, _, fr = o
                        e3 = E.phis(s2, e2, self.blk, fr)
                        if self.grow(base, s2, e3):
                            grown = True
                    if grown:
                        break
                    for o in outs:
                        if o[0] != 'back':
                            continue
                        _, s2, e2, _, fr = o
                        e3 = E.phis(s2, e2, self.blk, fr)
                        keep = self.filter(cands, s2, e3)
                        dropped = dropped or len(keep) < len(cands)
                        cands = keep
                if grown:
                    cands = None
                    continue
                if not dropped:
                    break
        finally:
            E.quiet -= 1
        # arbitrary iteration, obligations recorded
        res = []
        live = False
        E.loop_info.append((self.fn.dem, len(cands), [nm for nm, _ in cands if nm.startswith('spec:')]))
        if os.environ.get('VC_LOOP'):
            print('LOOP', self.fn.dem[:80], [nm for nm, _ in cands], file=sys.stderr)
        for s, e in self.headers():
            for nm, f in cands:
                s.assume(f(s, e))
            if not E.S.sat(s.pc):
                continue
            live = True
            outs = E.run(self.fn, s, e, self.H, None, self.body, self.H)
            for o in outs:
                if o[0] == 'back':
                    continue
                res.append(o)
        if not live and E.S.sat(self.st0.pc):
            raise Unsupported('the loop invariant of %s is contradictory' % self.fn.dem[:80])
        return res

    def filter(self, cands, st, env, entry=False):
        """the candidates that hold in the state; those a model of the state refutes go first, many at a time"""
        E = self.E
        s = st.copy()
        todo = []
        for nm, f in cands:
            try:
                g = f(s, env)
            except Unsupported:
                continue
            if g is None:
                continue
            todo.append((nm, f, None if g is True else z(g)))
        out = {id(f) for nm, f, g in todo if g is None}
        sv = E.S

        def split(rest):
            while rest:
                sv.nq += 1
                t0 = time.time()
                sv._sync(s.pc)
                sv.inc.push()
                sv.inc.add(z3.Not(z3.And(*[g for _, _, g in rest])))
                r = sv.inc.check()
                model = sv.inc.model() if r == z3.sat else None
                sv.inc.pop()
                sv.qtime += time.time() - t0
                if os.environ.get('VC_LOOP') == '3':
                    print('    filter query', r, len(rest), '%.2fs' % (time.time() - t0), file=sys.stderr)
                if r == z3.unsat:
                    out.update(id(f) for _, f, _ in rest)
                    return
                keep = []
                if model is not None:
                    for nm, f, g in rest:
                        if z3.is_false(model.eval(g, model_completion=True)) and not (nm.startswith('spec:') and not entry and has_fp(g)):
                            continue
                        keep.append((nm, f, g))
                    if len(keep) < len(rest):
                        rest = keep
                        continue
                elif len(rest) > 1:
                    split(rest[:len(rest) // 2])
                    split(rest[len(rest) // 2:])
                    return
                for nm, f, g in rest:
                    full = nm.startswith('spec:') and not entry
                    res = sv.prove(s.pc, g, full=full and has_fp(g), timeout=3000)[0]
                    if full and res == 'unknown' and not has_fp(g):
                        res = sv.prove(s.pc, g, timeout=3000)[0]
                    if res == 'proved':
                        out.add(id(f))
                    elif res == 'unknown' and not has_fp(g):
                        E.weak.append('%s in %s' % (nm, self.fn.dem[:60]))
                return
        split([x for x in todo if x[2] is not None])
        if os.environ.get('VC_LOOP'):
            for nm, f, g in todo:
                if id(f) not in out and nm.startswith('spec:') and (not entry or os.environ.get('VC_LOOP') == '2'):
                    print('   drop', nm, 'at entry' if entry else '', 'in', self.fn.dem[:60], file=sys.stderr)
        return [(nm, f) for nm, f in cands if id(f) in out]

    def spec_cands(self):
        r = []
        for f in getattr(self, 'spec', []):
            r += f(self)
        return r

    def grow(self, base, s2, e3):
        """does the state at the back edge fit the havoc shape?  otherwise widen"""
        E = self.E
        g = False
        for p in self.blk.phis:
            sh = self._shape(e3[p.id])
            if sh[0] == 'obj' and sh[1] is not None and sh[1] not in base.mem:
                raise Unsupported('loop carries a pointer to an object created in the loop')
            if sh not in self.phi_objs[p.id]:
                if ('word',) in self.phi_objs[p.id] and sh[0] == 'obj':
                    continue
                self.phi_objs[p.id].append(sh)
                g = True
        for obj, mem in s2.mem.items():
            if obj not in base.mem:
                continue
            b = base.mem[obj]
            if mem is b:
                continue
            if obj in self.arrays:
                continue
            # same prefix of layers, only concrete cells differ?
            ml, bl = mem.layers, b.layers
            ok = True
            k = 0
            while k < min(len(ml), len(bl)) and ml[k] is bl[k]:
                k += 1
            rest, brest = ml[k:], bl[k:]
            if all(isinstance(x, dict) for x in rest) and all(isinstance(x, dict) for x in brest) and mem.base == b.base:
                keys = set()
                for x in rest:
                    keys |= {(o, c[0]) for o, c in x.items()}
                bkeys = {}
                for x in brest:
                    bkeys.update(x)
                for o, w in keys:
                    nv = None
                    for x in reversed(rest):
                        if o in x and x[o][0] == w:
                            nv = x[o][1]
                            break
                    ov = bkeys.get(o)
                    if ov is not None and ov[0] == w and (ov[1] is nv or (isc(ov[1]) and isc(nv) and ov[1] == nv) or
                                                         (z3.is_expr(ov[1]) and z3.is_expr(nv) and ov[1].get_id() == nv.get_id()) or
                                                         (isinstance(ov[1], Ptr) and isinstance(nv, Ptr) and ov[1].obj == nv.obj and self._same(ov[1].off, nv.off))):
                        continue
                    sh = self._shape(nv)
                    if (obj, o) in self.cells:
                        w0, shapes = self.cells[(obj, o)]
                        if w0 != w:
                            raise Unsupported('cell width changes in loop')
                        if sh not in shapes:
                            shapes.append(sh)
                            g = True
                    else:
                        s0 = self.st0
                        v0 = E._read(s0, s0.mem[obj], o, w, obj)
                        shapes = []
                        for x in (sh, self._shape(v0)):
                            if x not in shapes:
                                shapes.append(x)
                        if ('undef',) in shapes and len(shapes) > 1:
                            shapes.remove(('undef',))
                        self.cells[(obj, o)] = (w, shapes)
                        g = True
            else:
                elt = 1
                for x in rest:
                    if isinstance(x, tuple) and x[0] == 'w':
                        elt = x[2]
                self.arrays[obj] = elt
                # cells of this object are covered by the array havoc
                for key in [k2 for k2 in self.cells if k2[0] == obj]:
                    del self.cells[key]
                g = True
        for k, v in s2.g.items():
            ov = base.g.get(k)
            if v is ov or (isinstance(v, (int, str, type(None))) and v == ov):
                continue
            if z3.is_expr(v) and z3.is_expr(ov) and v.get_id() == ov.get_id():
                continue
            if k not in self.ghosts:
                if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                    self.ghosts[k] = 1
                elif isc(v) or z3.is_bv(v):
                    self.ghosts[k] = 64 if isc(v) else v.size()
                else:
                    raise Unsupported('ghost %s changes in a loop' % k)
                g = True
        for k, v in s2.absv.items():
            if k[0] not in base.mem:
                continue
            ov = base.absv.get(k)
            if ov is v or k in self.absk:
                continue
            if ov is None and k not in base.absv:
                self.absk.add(k)
                continue
            self.absk.add(k)
            g = True
        return g

    def _same(self, a, b):
        if isc(a) and isc(b):
            return a == b
        return z3.is_expr(a) and z3.is_expr(b) and a.get_id() == b.get_id()
