"""A NUL-terminated line of arbitrary length and content, and the library functions that scan it.

FIRST(set, p) is the position of the first character of the set at or after p, NPOS if there is none before the end; its
recursive definition is instantiated at every byte the code reads and at every position the library is asked about."""
import re, z3
from ..ops import *
from ..engine import Ptr, Unsupported, fresh
from ..lib import contract

HANDLERS = H = []
TRUSTED = ['std::string_view::find/find_first_of/substr, strchr: the position of the first such character (ISO C++)',
           'strtod/strtoull/strtoll: a function of the text from the given position; the end pointer lies between that position and the end of the line',
           'std::string construction, assignment and fmt formatting of messages: no effect on anything else']
BV = z3.BitVecSort(64)
NPOS = (1 << 64) - 1
FD = z3.Function('strtod', BV, BV)
FDE = z3.Function('strtod.end', BV, BV)
FU = z3.Function('strtoull', BV, BV)
FUE = z3.Function('strtoull.end', BV, BV)
FI = z3.Function('strtoll', BV, BV)
FIE = z3.Function('strtoll.end', BV, BV)


class Line:
    def __init__(self, E, st, sets):
        self.E = E
        self.n = fresh('n')
        st.assume(z3.ULT(self.n, 1 << 40))
        self.p = E.sym_obj(st, 'line', self.n + 1, 1)
        self.obj = self.p.obj
        self.sets = {s: z3.Function('first[%s]' % s, BV, BV) for s in sets}
        E.objs[self.obj].facts.append(self.facts)
        E.opts['line'] = self
        self.byte_ = z3.Function('mem!%s!1' % 'x', BV, z3.BitVecSort(8))

    def byte(self, st, off):
        return bv(self.E.mread(st, self.obj, off, 1), 8)

    def facts(self, E, st, off, w, v):
        if w != 1:
            return None
        o, b = bv(off, 64), bv(v, 8)
        c = [z3.Implies(z3.ULE(o, self.n), (b == 0) == (o == self.n))]
        for s, F in self.sets.items():
            hit = z3.Or(*[b == ord(x) for x in s])
            c.append(z3.Implies(z3.ULE(o, self.n), F(o) == z3.If(o == self.n, z3.BitVecVal(NPOS, 64), z3.If(hit, o, F(o + 1)))))
        return z3.And(*c)

    def first(self, st, s, p):
        """FIRST(s, p) with what is known of it; s is a string of characters"""
        s = ''.join(sorted(set(s)))
        F = self.sets.get(s)
        if F is None:
            F = self.sets[s] = z3.Function('first[%s]' % s, BV, BV)
        p = bv(p, 64)
        r = F(p)
        st.assume(z3.Implies(z3.ULE(p, self.n), z3.Or(r == NPOS, z3.And(z3.ULE(p, r), z3.ULT(r, self.n)))))
        st.assume(z3.Implies(p == self.n, r == NPOS))
        yes, no = st.copy(), st
        b = self.byte(st, z3.If(r == NPOS, self.n, r))
        st.assume(z3.Implies(z3.And(z3.ULE(p, self.n), r != NPOS), z3.Or(*[b == ord(x) for x in s])))
        return r

    def num(self, st, kind, p):
        f, e = {'d': (FD, FDE), 'u': (FU, FUE), 'i': (FI, FIE)}[kind]
        p = bv(p, 64)
        st.assume(z3.Implies(z3.ULE(p, self.n), z3.And(z3.ULE(p, e(p)), z3.ULE(e(p), self.n))))
        st.assume(z3.Implies(p == self.n, e(p) == p))
        if kind == 'i':
            st.assume(z3.Implies(e(p) == p, f(p) == 0))
        return f(p), e(p)

    def off(self, v, what):
        """offset of a pointer into the line, or Unsupported"""
        v = self.E.to_ptr(v)
        if not isinstance(v, Ptr) or v.obj != self.obj:
            raise Unsupported('%s of something other than the line' % what)
        return bv(v.off, 64)


def is_at(E, v, off):
    """v points to offset off of the line"""
    v = E.to_ptr(v)
    return z(eq(bv(v.off, 64), bv(off, 64))) if isinstance(v, Ptr) and v.obj == E.opts['line'].obj else z3.BoolVal(False)


def view(E, st, a):
    """(ptr, len) of the string_view object at a"""
    p = E.to_ptr(a)
    return E.to_ptr(E.mread(st, p.obj, add(p.off, 8), 8)), bv(E._as_bits(E.mread(st, p.obj, p.off, 8), 8), 64)


def _inline(c, E):
    return NotImplemented


@contract(r'^std::basic_string_view<char[^()]*>::(find_first_of|find)\(char( const\*)?, unsigned long\) const$', H)
def _find(E, st, a, c):
    L = E.opts.get('line')
    ptr, n = view(E, st, a[0])
    if L is None or not isinstance(ptr, Ptr) or ptr.obj != L.obj:
        return NotImplemented
    if 'char const*' in c.dem:
        s = E.cstring(st, a[1])
        if s is None or (not s) or (len(s) != 1 and '::find(' in c.dem):
            raise Unsupported('characters searched for')
        s = s.decode('latin1')
    elif isc(a[1]):
        s = chr(a[1])
    else:
        raise Unsupported('character searched for')
    base, pos = bv(ptr.off, 64), bv(a[2], 64)
    E.oblige(st, z3.ULE(pos + base, L.n + 1), 'search starts within the line', 'bounds')
    r = L.first(st, s, base + pos)
    end = base + n
    return z3.If(z3.Or(z3.UGT(pos, n), r == NPOS, z3.UGE(r, end)), z3.BitVecVal(NPOS, 64), r - base)


@contract(r'^strchr$|^std::strchr\(|^(std::)?(strchr|index)\(char( const)?\*, int\)$', H)
def _strchr(E, st, a, c):
    L = E.opts.get('line')
    if L is None:
        return NotImplemented
    p = L.off(a[0], 'strchr')
    E.oblige(st, z3.ULE(p, L.n), 'search starts within the line', 'bounds')
    if not isc(a[1]) or a[1] == 0:
        raise Unsupported('character searched for')
    r = L.first(st, chr(a[1] & 255), p)
    no = st.copy()
    no.assume(r == NPOS)
    st.assume(r != NPOS)
    return [(st, Ptr(L.obj, r)), (no, Ptr(None, 0))]


@contract(r'^std::basic_string_view<char[^()]*>::substr\(unsigned long, unsigned long\) const$', H)
def _substr(E, st, a, c):
    ptr, n = view(E, st, a[0])
    pos, k = bv(a[1], 64), bv(a[2], 64)
    E.oblige(st, z3.ULE(pos, n), 'no exception (substr position within the view)', 'abort')
    rest = n - pos
    return (z3.If(z3.ULT(k, rest), k, rest), ptr + a[1])


@contract(r'^(__isoc23_)?(strtod|strtoull|strtoll|strtoul|strtol)$', H)
def _strto(E, st, a, c):
    L = E.opts.get('line')
    if L is None:
        return NotImplemented
    p = L.off(a[0], c.name)
    E.oblige(st, z3.ULE(p, L.n), 'a number is read from within the line', 'bounds')
    if 'strtod' not in c.name and a[2] != 10:
        raise Unsupported('base of the number')
    v, e = L.num(st, 'd' if 'strtod' in c.name else 'u' if 'strtou' in c.name else 'i', p)
    q = E.to_ptr(a[1])
    if isinstance(q, Ptr) and q.obj is not None:
        E.mwrite(st, q.obj, q.off, 8, Ptr(L.obj, e))
    return v


@contract(r'^(isspace|std::isspace\(int\)|isalnum|isdigit|isalpha)$', H)
def _isspace(E, st, a, c):
    return fresh('isspace', 32)


@contract(r'^strlen$|^std::char_traits<char>::length\(char const\*\)$', H)
def _strlen(E, st, a, c):
    L = E.opts.get('line')
    p = E.to_ptr(a[0])
    if L is None or not isinstance(p, Ptr) or p.obj != L.obj:
        s = E.cstring(st, p)
        if s is None:
            raise Unsupported('strlen of symbolic content')
        return len(s)
    E.oblige(st, z3.ULE(bv(p.off, 64), L.n), 'the text measured lies within the line', 'bounds')
    return L.n - bv(p.off, 64)


# ---- messages
@contract(r'^std::(__cxx11::)?basic_string<char[^()]*>::empty\(\) const$', H)
def _empty(E, st, a, c):
    return fresh('empty', 1)


@contract(r'^std::(__cxx11::)?basic_string<char[^()]*>::(basic_string(<[^()]*>)?\(|~basic_string\(|operator(=|\+=)\(|append\(|assign\()', H)
def _str(E, st, a, c):
    return a[0] if 'operator' in c.dem or 'append' in c.dem or 'assign' in c.dem else None


@contract(r'^std::(__cxx11::)?basic_string<char.*> std::operator\+', H)
def _plus(E, st, a, c):
    return None


@contract(r'^([^()]* )?fmt::', H)
def _fmt(E, st, a, c):
    return E._undef(c.retty) if c.retty is not None and c.retty.kind != 'void' else None
