"""Contracts assumed on dependencies (compiler intrinsics, libc, libstdc++, abseil, fmt, spdlog, ...).

Every contract here is trusted; each use is counted and reported in the evidence of the check that used it."""
import re
import z3
from .ops import *
from .engine import Throw, Ptr, NULL, FnPtr, Undef, Unsupported, fresh, Mem, State

BASE = []


def contract(rx, table=None):
    c = re.compile(rx)

    def deco(f):
        (BASE if table is None else table).append((c, f))
        return f
    return deco


# ---------------------------------------------------------------- intrinsics
@contract(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|stackrestore|prefetch|donothing)')
def _nop(E, st, a, c):
    return None


@contract(r'^llvm\.is\.constant\.')
def _isconst(E, st, a, c):
    return False             # either answer is allowed; libstdc++ uses it to choose between equivalent computations


@contract(r'^llvm\.stacksave')
def _stacksave(E, st, a, c):
    return NULL


@contract(r'^llvm\.(trap|ubsantrap)')
def _trap(E, st, a, c):
    E.fail(st, 'trap', 'abort')
    return []


@contract(r'^llvm\.(memcpy|memmove)\.|^(memcpy|memmove)$')
def _memcpy(E, st, a, c):
    return [(s, a[0]) for s in E.memcpy(st, a[0], a[1], a[2])]


@contract(r'^llvm\.memset\.|^memset$')
def _memset(E, st, a, c):
    return [(s, a[0]) for s in E.memset(st, a[0], trunc(a[1], 32, 8) if c.name == 'memset' else a[1], a[2])]


@contract(r'^llvm\.ctlz\.')
def _ctlz(E, st, a, c):
    x = a[0]
    w = c.retty.width
    if isc(x):
        return w - x.bit_length()
    if a[1] is True:
        E.oblige(st, icmp('ne', x, 0, w), 'ctlz of a non-zero value', 'arith')
    r = w
    res = None
    conds = []
    for i in range(w):
        b = simp(z3.Extract(w - 1 - i, w - 1 - i, x))
        if isc(b):
            if b == 1:
                res = i
                break
            continue
        conds.append((eq(b, 1, 1), i))
    r = w if res is None else res
    for cnd, i in reversed(conds):
        r = ite(cnd, i, r, w)
    return r


@contract(r'^llvm\.(u|s)(max|min)\.')
def _minmax(E, st, a, c):
    m = re.match(r'^llvm\.(u|s)(max|min)', c.dem)
    w = c.retty.width
    pred = m.group(1) + ('gt' if m.group(2) == 'max' else 'lt')
    return ite(icmp(pred, a[0], a[1], w), a[0], a[1], w)


@contract(r'^llvm\.abs\.')
def _abs(E, st, a, c):
    w = c.retty.width
    return ite(icmp('slt', a[0], 0, w), sub(0, a[0], w), a[0], w)


@contract(r'^llvm\.(s|u)(add|sub|mul)\.with\.overflow')
def _ovf(E, st, a, c):
    m = re.match(r'^llvm\.(s|u)(add|sub|mul)\.with', c.dem)
    w = c.argtys[0].width
    sg, op = m.group(1) == 's', m.group(2)
    ext = sext if sg else zext
    x, y = ext(a[0], w, 2 * w), ext(a[1], w, 2 * w)
    r = binop(op, x, y, 2 * w)
    lo = trunc(r, 2 * w, w)
    return (lo, icmp('ne', ext(lo, w, 2 * w), r, 2 * w))


@contract(r'^llvm\.fabs\.f64')
def _fabs(E, st, a, c):
    return binop('and', a[0], M(63), 64)


@contract(r'^llvm\.fmuladd\.f64')
def _fma(E, st, a, c):
    return fadd(fmul(a[0], a[1]), a[2])


@contract(r'^llvm\.is\.fpclass|^__isnan|^(std::)?isnan\(double\)$')
def _fpclass(E, st, a, c):
    if c.dem.startswith('llvm.is'):
        if not (isc(a[1]) and a[1] == 3):
            raise Unsupported('fpclass %s' % (a[1],))
    return f_isnan(a[0])


@contract(r'^llvm\.expect|^llvm\.launder|^llvm\.strip')
def _expect(E, st, a, c):
    return a[0]


# ---------------------------------------------------------------- exceptions thrown by contracts
@contract(r'^llvm\.eh\.typeid\.for')
def _typeid(E, st, a, c):
    t = st.g.get('thrown')
    n = E.global_name(a[0])
    if not isinstance(t, Throw) or n is None:
        raise Unsupported('catch of an unknown type')
    return 1 if n in t.names else 2


@contract(r'^__cxa_begin_catch$')
def _begin_catch(E, st, a, c):
    if not isinstance(a[0], Throw):
        raise Unsupported('unknown exception caught')
    return a[0].ptr if a[0].ptr is not None else NULL


@contract(r'^__cxa_end_catch$')
def _end_catch(E, st, a, c):
    st.g.pop('thrown', None)
    return None


# ---------------------------------------------------------------- abnormal termination
@contract(r'^std::__throw_|^__cxa_(throw|rethrow|bad_|pure_virtual)|^std::terminate|^__clang_call_terminate|^abort$|^std::rethrow_exception')
def _throw(E, st, a, c):
    E.fail(st, 'no exception or termination (%s)' % c.dem[:60], 'abort')
    return []


@contract(r'^__assert_fail$|^std::__glibcxx_assert_fail')
def _assert(E, st, a, c):
    msg = E.cstring(st, a[0]) or b''
    E.fail(st, 'assertion holds: %s' % msg.decode('latin1')[:80], 'assert')
    return []


# ---------------------------------------------------------------- allocation (assumed to succeed)
@contract(r'^operator new(\[\])?\(unsigned long\)|^operator new(\[\])?\(unsigned long, std::align_val_t\)')
def _new(E, st, a, c):
    if not isc(a[0]):
        E.oblige(st, icmp('ult', a[0], 1 << 62), 'allocation size is sane', 'alloc')
    return E.new_obj(st, 'heap', a[0], 'heap')


@contract(r'^malloc$')
def _malloc(E, st, a, c):
    return E.new_obj(st, 'heap', a[0], 'heap')


@contract(r'^operator delete(\[\])?\(void\*|^free$')
def _delete(E, st, a, c):
    out = []
    p = E.to_ptr(a[0])
    if z3.is_expr(p):
        rs = E.deref(st, p, 'free')
    else:
        rs = [(st, p)]
    for s, q in rs:
        if isinstance(q, Ptr) and q.obj is None:
            out.append((s, None))
            continue
        if isinstance(q, Undef):
            E.fail(s, 'free of an uninitialised pointer', 'lifetime')
            continue
        o = E.objs.get(q.obj)
        if o is None:
            raise Unsupported('free of unknown object')
        ok = s.alive.get(q.obj) is True and o.kind in ('heap', 'arg') and isc(q.off) and q.off == 0
        if not ok:
            if s.alive.get(q.obj) is True and not isc(q.off):
                E.oblige(s, eq(q.off, 0), 'free of the start of an allocation', 'lifetime')
            else:
                E.fail(s, 'free of a live allocation (no double free)', 'lifetime')
                continue
        s.alive[q.obj] = False
        s.g['freed'] = s.g.get('freed', ()) + (q.obj,)
        out.append((s, None))
    return out


# ---------------------------------------------------------------- libc strings over known content
@contract(r'^strlen$|^std::char_traits<char>::length\(char const\*\)$|^__gnu_cxx::char_traits<char>::length')
def _strlen(E, st, a, c):
    s = E.cstring(st, a[0])
    if s is None:
        h = E.opts.get('strlen')
        if h:
            return h(E, st, a, c)
        raise Unsupported('strlen of symbolic content')
    return len(s)


@contract(r'^__cxa_guard_acquire$')
def _ga(E, st, a, c):
    return 0


@contract(r'^__cxa_guard_release$|^__cxa_atexit$|^__cxa_guard_abort$')
def _gr(E, st, a, c):
    return 0 if c.name == '__cxa_atexit' else None


@contract(r'^std::__is_constant_evaluated\(\)$|^std::is_constant_evaluated')
def _ice(E, st, a, c):
    return False


@contract(r'^lround$|^std::lround|^lroundl?$|^llround$')
def _lround(E, st, a, c):
    return LROUND(bv(a[0], 64))
