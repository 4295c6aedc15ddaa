"""Bit-precise operations on machine words, with constant folding.

An integer of w bits is a Python int (0 <= v < 2^w) or a z3 BitVec of w bits; an i1 is a Python bool or z3 Bool;
a double is its 64-bit pattern.  Arithmetic on doubles is kept as uninterpreted functions (congruence only) and is
given its IEEE-754 meaning by `ieee` when a query fails without it; comparisons are always exact."""
import struct, z3

def M(w):
    return (1 << w) - 1

def isc(x):
    return isinstance(x, int) and not isinstance(x, bool)

def bv(x, w):
    if isinstance(x, bool):
        return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, int):
        return z3.BitVecVal(x & M(w), w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if x.size() != w:
        raise TypeError('width %d expected %d' % (x.size(), w))
    return x

def sgn(v, w):
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v

def simp(x):
    if isinstance(x, (int, bool)):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x

def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & M(w)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return simp(bv(a, w) + bv(b, w))

def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & M(w)
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))

def mul(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & M(w)
    return simp(bv(a, w) * bv(b, w))

def b_and(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)

def b_or(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)

def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)

def b_implies(a, b):
    return b_or(b_not(a), b)

def b_xor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        a, b = b, a
    if b is True:
        return b_not(a)
    if b is False:
        return a
    return z3.Xor(a, b)

def z(x):
    """python bool or z3 bool -> z3 bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x

def icmp(pred, a, b, w=64):
    if isc(a) and isc(b):
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred]
    a, b = bv(a, w), bv(b, w)
    return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
            'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]())

def eq(a, b, w=64):
    return icmp('eq', a, b, w)

def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    return simp(z3.If(c, bv(a, w), bv(b, w)))

def ite_b(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return simp(z3.If(c, z(a), z(b)))

def zext(x, w0, w1):
    if isinstance(x, bool):
        return 1 if x else 0
    if isinstance(x, int):
        return x
    if z3.is_bool(x):
        return simp(z3.If(x, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1)))
    return simp(z3.ZeroExt(w1 - w0, x)) if w1 > w0 else x

def sext(x, w0, w1):
    if isinstance(x, bool):
        return M(w1) if x else 0
    if isinstance(x, int):
        return sgn(x, w0) & M(w1)
    if z3.is_bool(x):
        return simp(z3.If(x, z3.BitVecVal(M(w1), w1), z3.BitVecVal(0, w1)))
    return simp(z3.SignExt(w1 - w0, x)) if w1 > w0 else x

def trunc(x, w0, w1):
    if isinstance(x, int):
        x = int(x) & M(w1)
        return bool(x) if w1 == 1 else x
    r = simp(z3.Extract(w1 - 1, 0, x)) if w1 < w0 else x
    if w1 == 1:
        return eq(r, 1, 1)
    return r

def binop(op, a, b, w):
    if op == 'add':
        return add(a, b, w)
    if op == 'sub':
        return sub(a, b, w)
    if op == 'mul':
        return mul(a, b, w)
    if isc(a) and isc(b):
        if op == 'udiv' and b:
            return a // b
        if op == 'urem' and b:
            return a % b
        if op in ('sdiv', 'srem') and b:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & M(w)
        if op == 'shl':
            return (a << b) & M(w) if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & M(w)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
    a, b = bv(a, w), bv(b, w)
    return simp({'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b,
                 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]())

# ---------------------------------------------------------------- doubles
B64 = z3.BitVecSort(64)
B32 = z3.BitVecSort(32)
FADD = z3.Function('fp.add', B64, B64, B64)
FMUL = z3.Function('fp.mul', B64, B64, B64)
FDIV = z3.Function('fp.div', B64, B64, B64)
SITOFP = z3.Function('fp.of_i64', B64, B64)
UITOFP = z3.Function('fp.of_u64', B64, B64)
FPTOSI = z3.Function('fp.to_i64', B64, B64)
FPTOUI = z3.Function('fp.to_u64', B64, B64)
FPEXT = z3.Function('fp.ext32', B32, B64)
LROUND = z3.Function('fp.lround', B64, B64)

def d2b(f):
    return struct.unpack('<Q', struct.pack('<d', f))[0]

def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]

SIGN = 1 << 63

def fneg(a):
    return binop('xor', a, SIGN, 64)

def _py(f):
    try:
        return d2b(f())
    except (OverflowError, ZeroDivisionError, ValueError):
        return None

def _pydiv(x, y):
    if y == 0:
        if x == 0 or x != x:
            return d2b(float('nan'))
        neg = (struct.pack('<d', x)[7] ^ struct.pack('<d', y)[7]) & 0x80
        return d2b(float('-inf') if neg else float('inf'))
    return d2b(x / y)

def fadd(a, b):
    if isc(a) and isc(b):
        return d2b(b2d(a) + b2d(b))
    a, b = bv(a, 64), bv(b, 64)
    if str(a.sexpr()) > str(b.sexpr()):
        a, b = b, a
    return FADD(a, b)

def fsub(a, b):
    return fadd(a, fneg(b))

def fmul(a, b):
    if isc(a) and isc(b):
        r = _py(lambda: b2d(a) * b2d(b))
        if r is not None:
            return r
    if isc(a) and a == d2b(1.0):
        return b
    if isc(b) and b == d2b(1.0):
        return a
    a, b = bv(a, 64), bv(b, 64)
    if str(a.sexpr()) > str(b.sexpr()):
        a, b = b, a
    return FMUL(a, b)

def fdiv(a, b):
    if isc(a) and isc(b):
        return _pydiv(b2d(a), b2d(b))
    return FDIV(bv(a, 64), bv(b, 64))

def f_isnan(a):
    m = binop('and', a, M(63), 64)
    return icmp('ugt', m, 0x7FF0000000000000, 64)

def flt(a, b):
    """a < b, ordered"""
    if isc(a) and isc(b):
        return b2d(a) < b2d(b)
    A, B = bv(a, 64), bv(b, 64)
    sa, sb = z3.Extract(63, 63, A) == 1, z3.Extract(63, 63, B) == 1
    bz = ((A | B) << 1) == 0
    return simp(z3.And(z3.Not(z(f_isnan(A))), z3.Not(z(f_isnan(B))), z3.Not(bz),
                  z3.Or(z3.And(sa, z3.Not(sb)), z3.And(z3.Not(sa), z3.Not(sb), z3.ULT(A, B)), z3.And(sa, sb, z3.ULT(B, A)))))

def feq(a, b):
    if isc(a) and isc(b):
        return b2d(a) == b2d(b)
    A, B = bv(a, 64), bv(b, 64)
    return simp(z3.And(z3.Not(z(f_isnan(A))), z3.Not(z(f_isnan(B))), z3.Or(A == B, ((A | B) << 1) == 0)))

def fcmp(pred, a, b):
    if pred == 'false':
        return False
    if pred == 'true':
        return True
    uno = b_or(f_isnan(a), f_isnan(b))
    if pred == 'uno':
        return simp(z(uno))
    if pred == 'ord':
        return simp(z(b_not(uno)))
    p = pred[1:]
    c = {'eq': lambda: feq(a, b), 'gt': lambda: flt(b, a), 'ge': lambda: b_or(flt(b, a), feq(a, b)),
         'lt': lambda: flt(a, b), 'le': lambda: b_or(flt(a, b), feq(a, b)),
         'ne': lambda: b_and(b_not(uno), b_not(feq(a, b)))}[p]()
    return simp(z(b_or(c, uno))) if pred[0] == 'u' else simp(z(c))

def sitofp(a, w=64):
    if isc(a):
        return d2b(float(sgn(a, w)))
    return SITOFP(sext(a, w, 64))

def uitofp(a, w=64):
    if isc(a):
        return d2b(float(a))
    if w < 64:
        return SITOFP(zext(a, w, 64))   # same value; one function for both views
    return UITOFP(a)

def fptosi(a, w=64):
    if isc(a):
        f = b2d(a)
        if f == f and abs(f) < 2.0 ** 63:
            return int(f) & M(w)
        return (1 << (w - 1))
    return trunc(FPTOSI(a), 64, w)

def fptoui(a, w=64):
    if isc(a):
        f = b2d(a)
        if f == f and 0 <= f < 2.0 ** 64:
            return int(f) & M(w)
    return trunc(FPTOUI(bv(a, 64)), 64, w)

_x, _y = z3.Var(0, B64), z3.Var(1, B64)
_D = z3.Float64()
_R = z3.RNE()
def _fp(v):
    return z3.fpBVToFP(v, _D)
def ieee(e):
    """replace the uninterpreted double operations by their IEEE-754 definitions"""
    return z3.substitute_funs(e,
        (FADD, z3.fpToIEEEBV(z3.fpAdd(_R, _fp(_x), _fp(_y)))),
        (FMUL, z3.fpToIEEEBV(z3.fpMul(_R, _fp(_x), _fp(_y)))),
        (FDIV, z3.fpToIEEEBV(z3.fpDiv(_R, _fp(_x), _fp(_y)))),
        (SITOFP, z3.fpToIEEEBV(z3.fpSignedToFP(_R, _x, _D))),
        (UITOFP, z3.fpToIEEEBV(z3.fpUnsignedToFP(_R, _x, _D))),
        (FPTOSI, z3.fpToSBV(z3.RTZ(), _fp(_x), B64)),
        (FPTOUI, z3.fpToUBV(z3.RTZ(), _fp(_x), B64)),
        (LROUND, z3.fpToSBV(z3.RNA(), _fp(_x), B64)))

def has_fp(e, _seen=None):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('fp.'):
                return True
            st.extend(x.children())
    return False
