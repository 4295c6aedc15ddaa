"""C21: a round of publishing.  The measurements are covered by the batches posted, one after the other; the work posted for a batch
is verified where it is posted, on its own state, with everything it shares with the other batches under its lock."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, NULL, FnPtr, Unsupported, fresh, State, Mem, Obj
from ..lib import contract
from . import logging as lg
from .reg import *
from .maps import k, strip, method
from .c17 import cover

SOURCES = [VERIF + '/vc/drivers/c21.cc']
IRFLAGS = ['-fno-access-control']
H = []
BV = z3.BitVecSort(64)
FIRST, LAST = z3.Function('batch.first', BV, BV), z3.Function('batch.last', BV, BV)
NM, BS, NB, RN = z3.BitVec('measurements', 64), z3.BitVec('batch_size', 64), z3.BitVec('buffers', 64), z3.BitVec('answers', 64)
TRUSTED = ['asio::post runs the work it is given once, on a thread of the pool', 'absl::BlockingCounter: Wait returns when the counter given its number has been decremented that often', 'absl::Mutex provides mutual exclusion',
           'std::vector of batches, buffers and answers; std::hopscotch_set of messages', 'measurements_to_json (C22), HttpClient::Post (C24), handle_aggr_response (C23), Registry::Measurements (C19)', 'absl time: no effect on what is posted'] + lg.TRUSTED
ASSUMPTIONS = ['the batch size is positive', 'fewer than 2^31 measurements', 'as many buffers as threads in the pool, at least one (set together by the constructor)', 'memory is available: nothing throws']
HARNESS = dict(srcs=[VERIF + '/harness/c21.cc'] + SPECTATOR, flags=['-fno-access-control'], libs=LIBS,
               what='rounds of 0 to 3000 measurements with batch sizes from 1 to beyond their number, enabled or not; libcurl is a stand-in that keeps the payloads, which are decoded and compared with the measurements')


def num(E, v):
    return bv(E.to_int(v) if isinstance(v, (Ptr, FnPtr)) else v, 64)


def shared(E, st, what):
    """something all batches share is used"""
    if st.g['task'] is True:
        E.oblige(st, bv(st.g['decs'], 8) == 0, 'nothing of the round is used after the batch is counted as done (%s)' % what, 'spec')


def locked(E, st, what):
    shared(E, st, what)
    if st.g['task'] is True:
        h = st.g['held']
        E.oblige(st, len(h) > 0, 'what the batches share is used under a lock (%s)' % what, 'spec')
        if h:
            E.oblige(st, st.g.get('by ' + what, h[-1]) in h, 'what the batches share is always used under the same lock (%s)' % what, 'spec')
            st.g.setdefault('by ' + what, h[-1])


@contract(r'^spectator::Publisher<spectator::Registry>::(measurements_to_json|get_http_config|handle_aggr_response)\(', H)
def _pub(E, st, a, c):
    m = method(c.dem)
    if m == "get_http_config":
        return None
    if m == 'handle_aggr_response':
        return fresh('sent'), fresh('dropped')
    if st.g['task'] is not True or len(a) != 4:
        raise Unsupported('encoding outside of the work for a batch')
    shared(E, st, 'encode')
    p = E.to_ptr(a[1])
    E.oblige(st, isinstance(p, Ptr) and p.obj == E.opts['payload'].obj and isc(p.off) and p.off == 0, 'a batch is encoded into a buffer of its own', 'spec')
    E.oblige(st, bv(st.g['taken'], 8) == 2, 'a batch is encoded into a buffer that was taken', 'spec')
    E.oblige(st, bv(st.g['enc'], 8) == 0, 'a batch is encoded once', 'spec')
    st.g['enc'] = z3.BitVecVal(1, 8)
    o = []
    for x in a[2:4]:
        x = E.to_ptr(x)
        if not isinstance(x, Ptr) or x.obj != E.opts['measurements'].obj:
            raise Unsupported('a batch of something else')
        o.append(bv(x.off, 64))
    at = bv(st.g['posted'], 64)
    i, j = z3.LShR(o[0], 4), z3.LShR(o[1], 4)
    E.oblige(st, z3.And(o[0] == i << 4, o[1] == j << 4, i == at), 'a batch starts where the one before it ends', 'spec')
    E.oblige(st, z3.And(z3.ULT(i, j), z3.ULE(j - i, BS)), 'a batch has at least one measurement, and no more than the batch size', 'spec')
    E.oblige(st, z3.ULE(j, NM), 'a batch ends with the last measurement at most', 'spec')
    st.g['last'] = j
    return None


@contract(r'^spectator::SmilePayload::Result\(\)$', H)
def _result(E, st, a, c):
    p = E.to_ptr(a[0])
    E.oblige(st, z3.And(bv(st.g['enc'], 8) == 1, isinstance(p, Ptr) and p.obj == E.opts['payload'].obj), 'what is posted is the encoded batch', 'spec')
    return z3.BitVec('encoded.data', 64), z3.BitVec('encoded.size', 64)


@contract(r'^spectator::HttpClient::Post\(', H)
def _post(E, st, a, c):
    if st.g['task'] is not True or len(a) != 5:
        raise Unsupported('posting outside of the work for a batch')
    shared(E, st, 'post')
    u, q = E.to_ptr(a[2]), E.to_ptr(a[4])
    E.oblige(st, isinstance(u, Ptr) and u.obj == E.opts['config'].obj and isc(u.off) and u.off == k(E, 'uri'), 'a batch is posted to the configured address', 'spec')
    E.oblige(st, z3.And(num(E, E.mread(st, q.obj, q.off, 8)) == z3.BitVec('encoded.data', 64), num(E, E.mread(st, q.obj, q.off + 8, 8)) == z3.BitVec('encoded.size', 64)), 'what is posted is the encoded batch', 'spec')
    E.oblige(st, z3.And(bv(st.g['enc'], 8) == 1, bv(st.g['sent'], 8) == 0), 'a batch is posted once', 'spec')
    E.oblige(st, bv(st.g['taken'], 8) == 2, 'the buffer of a batch is kept until it is posted', 'spec')
    st.g['sent'] = z3.BitVecVal(1, 8)
    return None


@contract(r'^(\S+ )?spectator::(HttpClient|HttpClientConfig|HttpResponse)::(HttpClient|~HttpClient|HttpClientConfig|~HttpClientConfig|HttpResponse|~HttpResponse)\(', H)
def _ctor(E, st, a, c):
    return None


@contract(r'^spectator::Registry::(GetLogger|GetConfig|Measurements)\(\) const$', H)
def _reg(E, st, a, c):
    if 'Config' in c.dem:
        return E.opts['config']
    if 'Measurements' in c.dem:
        E.oblige(st, z3.Not(st.g['measured']), 'meters are measured once in a round', 'spec')
        st.g['measured'] = z3.BoolVal(True)
        p, m = E.to_ptr(a[0]), E.opts['measurements'].obj
        for i, o in enumerate((0, NM << 4, NM << 4)):
            E.mwrite(st, p.obj, p.off + 8 * i, 8, Ptr(m, o))
    return None


@contract(r'^std::vector<spectator::Measurement,[^()]*>::~vector\(\)$|^std::(__)?pair<int, spectator::HttpResponse>::~pair', H)
def _free(E, st, a, c):
    return None


@contract(r'^vc_enabled$', H)
def _enabled(E, st, a, c):
    return E.opts['enabled']


@contract(r'^([^\s(]+ )*__gnu_cxx::(operator[!=]=<std::pair<int, spectator::HttpResponse>|__normal_iterator<std::pair<int, spectator::HttpResponse>( const)?\*,.*>::operator(\*|->))', H)
def _answer(E, st, a, c):
    E.oblige(st, st.g['waited'], 'answers are used when all batches are done', 'spec')
    return fresh('more', 1) if re.search(r'__gnu_cxx::operator[!=]', c.dem) else E.opts['scrap']


# ---- the batches
@contract(r'^([^\s(]+ )*std::vector<std::pair<__gnu_cxx::__normal_iterator<spectator::Measurement( const)?\*', H)
def _batches(E, st, a, c):
    s, m = strip(c.dem), None
    m = re.sub(r'.*::', '', s.split('(')[0]).split(' ')[-1]
    if not s.split('(')[0].split(' ')[-1].startswith('std::vector'):
        return NotImplemented
    if m in ('vector', '~vector', 'reserve'):
        return None
    if m in ('emplace_back', 'push_back'):
        if m == 'push_back' or len(a) == 2:
            q = E.to_ptr(a[1])
            x = [E.mread(st, q.obj, q.off + d, 8) for d in (0, 8)]
        else:
            x = [E.mread(st, E.to_ptr(p).obj, E.to_ptr(p).off, 8) for p in a[1:3]]
        x = [E.to_ptr(p) for p in x]
        if not all(isinstance(p, Ptr) and p.obj == E.opts['measurements'].obj for p in x):
            raise Unsupported('a batch of something else')
        i, j, at = z3.LShR(bv(x[0].off, 64), 4), z3.LShR(bv(x[1].off, 64), 4), bv(st.g['covered'], 64)
        E.oblige(st, z3.And(bv(x[0].off, 64) == i << 4, bv(x[1].off, 64) == j << 4, i == at), 'a batch starts where the one before it ends', 'spec')
        E.oblige(st, z3.And(z3.ULT(i, j), z3.ULE(j - i, BS)), 'a batch has at least one measurement, and no more than the batch size', 'spec')
        E.oblige(st, z3.ULE(j, NM), 'a batch ends with the last measurement at most', 'spec')
        st.g['covered'] = j
        st.g['nb'] = bv(st.g['nb'], 64) + 1
        return NULL if m == 'push_back' else E.opts['scrap']
    nb, cov = bv(st.g['nb'], 64), bv(st.g['covered'], 64)
    st.assume(z3.And(z3.Implies(nb != 0, LAST(nb - 1) == cov), z3.Implies(nb == 0, cov == 0), z3.ULE(nb, cov)))
    o = E.opts['batches'].obj
    if m in ('begin', 'cbegin', 'end', 'cend'):
        return Ptr(o, 0 if 'begin' in m else nb << 4)
    if m == 'size':
        return nb
    if m == 'empty':
        return nb == 0
    if m in ('operator[]', 'at'):
        E.oblige(st, z3.ULT(bv(a[1], 64), nb), 'only batches that are there are used', 'bounds')
        return Ptr(o, bv(a[1], 64) << 4)
    raise Unsupported('batches: ' + s)


# ---- posting
@contract(r'^([^\s(]+ )*asio::(post|dispatch|defer)<', H)
def _asio(E, st, a, c):
    if not c.dem.split(' ', 1)[-1].startswith('asio::post<') and not c.dem.startswith('asio::post<'):
        raise Unsupported('asio: ' + c.dem[:80])
    p = E.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.obj != E.opts['pub'].obj or p.off != k(E, 'pool') or st.g['task'] is True:
        raise Unsupported('another pool')
    x = re.search(r'asio::post<asio::thread_pool, (.*?)>\(asio::thread_pool&', c.dem)
    if not x:
        raise Unsupported('work for the pool')
    fs = [f for f in E.m.find('^' + re.escape(x.group(1)) + r'::operator\(\)\(\)( const)?$')]
    if len(fs) != 1:
        raise Unsupported('work for the pool')
    E.oblige(st, bv(st.g['avail'], 64) == NB, 'there is a buffer for every thread of the pool', 'spec')
    E.oblige(st, z3.Not(st.g['waited']), 'no work is posted after waiting', 'spec')
    t = st.copy()
    t.g['task'] = True
    t.g.update(taken=z3.BitVecVal(0, 8), enc=z3.BitVecVal(0, 8), sent=z3.BitVecVal(0, 8), decs=z3.BitVecVal(0, 8), held=())
    last = fresh('last')
    n, at = 0, LAST(bv(st.g['np'], 64))
    nth = True
    for s, r in E.run_fn(t, fs[0], [a[1]]):
        n += 1
        E.oblige(s, bv(s.g['enc'], 8) == 1, 'every batch is encoded', 'spec')
        E.oblige(s, bv(s.g['sent'], 8) == 1, 'every batch is posted', 'spec')
        E.oblige(s, bv(s.g['decs'], 8) == 1, 'every batch is counted as done, once', 'spec')
        E.oblige(s, bv(s.g['taken'], 8) == 0, 'the buffer of a batch is given back', 'spec')
        E.oblige(s, len(s.g['held']) == 0, 'no lock is kept', 'spec')
        if 'last' in s.g and n == 1:
            last = s.g['last']
        elif 'last' in s.g:
            E.oblige(s, s.g['last'] == last, 'a batch is what was posted', 'spec')
        if nth:
            q = E.S.prove(s.pc, last == at)[0]
            nth = q == 'proved'
            if q == 'unknown':
                E.weak.append('which batch is posted')
    E.opts['works'] += n
    # proved above, on every path of the work
    st.assume(z3.And(z3.ULT(bv(st.g['posted'], 64), last), z3.ULE(last - bv(st.g['posted'], 64), BS), z3.ULE(last, NM), last == at if nth and n else True))
    st.g['posted'] = last
    st.g['np'] = bv(st.g['np'], 64) + 1
    return None


@contract(r'^absl(::\w+)?::BlockingCounter::(BlockingCounter|Wait|DecrementCount|~BlockingCounter)\(', H)
def _counter(E, st, a, c):
    m = method(c.dem)
    if m == 'BlockingCounter':
        st.g['counter'] = z3.SignExt(32, bv(a[1], 32))
        E.opts['counter'] = E.to_ptr(a[0])
        return None
    p = E.to_ptr(a[0])
    if m[0] != '~' and (not isinstance(p, Ptr) or p.obj != E.opts['counter'].obj):
        raise Unsupported('another counter')
    if m == 'DecrementCount':
        if st.g['task'] is not True:
            raise Unsupported('counting in the round itself')
        E.oblige(st, z3.And(bv(st.g['sent'], 8) == 1, bv(st.g['taken'], 8) == 0), 'a batch is counted as done after it was posted and its buffer given back', 'spec')
        E.oblige(st, len(st.g['held']) == 0, 'a batch is counted as done without a lock of the round', 'spec')
        st.g['decs'] = bv(st.g['decs'], 8) + 1
        return fresh('last', 1)
    if m == 'Wait':
        if st.g['task'] is True:
            raise Unsupported('waiting in the work for a batch')
        E.oblige(st, bv(st.g['np'], 64) == bv(st.g['counter'], 64), 'the round waits for as many batches as were posted', 'spec')
        st.g['waited'] = z3.BoolVal(True)
    return None


@contract(r'^absl(::\w+)?::Mutex::(~?Mutex|Lock|lock|Unlock|unlock)\(\)$', H)
def _mutex(E, st, a, c):
    m = method(c.dem).lower()
    p = E.to_ptr(a[0])
    if m in ('lock', 'unlock'):
        if not isinstance(p, Ptr) or not isc(p.off):
            raise Unsupported('another lock')
        shared(E, st, 'lock')
        key = (p.obj, p.off)
        if m == 'lock':
            E.oblige(st, key not in st.g['held'], 'a lock is not taken twice', 'spec')
            st.g['held'] += (key,)
        else:
            E.oblige(st, key in st.g['held'], 'only a lock that is held is released', 'spec')
            st.g['held'] = tuple(x for x in st.g['held'] if x != key)
    return None


@contract(r'^([^\s(]+ )*std::vector<spectator::SmilePayload\*,', H)
def _avail(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('std::vector'):
        return NotImplemented
    if st.g['task'] is True:
        locked(E, st, 'buffers')
        t = bv(st.g['taken'], 8)
        if m == 'back':
            if E.S.sat(st.pc, t != 0):
                raise Unsupported('a second buffer')
            st.g['taken'] = z3.BitVecVal(1, 8)
            p = E.new_obj(st, 'last_buffer', 8, 'arg')
            E.mwrite(st, p.obj, 0, 8, E.opts['payload'])
            return p
        if m == 'pop_back':
            E.oblige(st, t == 1, 'the buffer removed is the one taken', 'spec')
            st.g['taken'] = z3.BitVecVal(2, 8)
            return None
        if m in ('push_back', 'emplace_back'):
            q = E.to_ptr(a[1])
            v = E.to_ptr(E.mread(st, q.obj, q.off, 8))
            E.oblige(st, isinstance(v, Ptr) and v.obj == E.opts['payload'].obj and isc(v.off) and v.off == 0, 'the buffer given back is the one taken', 'spec')
            E.oblige(st, t == 2, 'a buffer is given back after it was taken', 'spec')
            st.g['taken'] = z3.BitVecVal(0, 8)
            return a[1]
        if m in ('empty', 'size'):
            return False if m == 'empty' else bv(fresh('available'), 64)
        raise Unsupported('buffers: ' + s)
    if m in ('vector', '~vector', 'reserve'):
        return None
    if m in ('push_back', 'emplace_back'):
        q = E.to_ptr(a[1])
        v = E.to_ptr(E.mread(st, q.obj, q.off, 8))
        n = bv(st.g['avail'], 64)
        E.oblige(st, isinstance(v, Ptr) and v.obj == E.opts['buffers'].obj and z3.And(bv(v.off, 64) == n * k(E, 'payload_size'), z3.ULT(n, NB)), 'every buffer is available once', 'spec')
        st.g['avail'] = n + 1
        return a[1]
    if m == 'size':
        return bv(st.g['avail'], 64)
    raise Unsupported('buffers: ' + s)


@contract(r'^([^\s(]+ )*std::vector<std::pair<int, spectator::HttpResponse>,', H)
def _answers(E, st, a, c):
    s, m = strip(c.dem), method(c.dem)
    if not s.split('(')[0].split(' ')[-1].startswith('std::vector'):
        return NotImplemented
    if m in ('vector', '~vector', 'reserve') and st.g['task'] is not True:
        return None
    if st.g['task'] is True:
        locked(E, st, 'answers')
        if m in ('push_back', 'emplace_back'):
            return E.opts['scrap']
        raise Unsupported('answers: ' + s)
    E.oblige(st, st.g['waited'], 'answers are used when all batches are done', 'spec')
    if m in ('begin', 'cbegin', 'end', 'cend'):
        return Ptr(E.opts['answers'].obj, 0 if 'begin' in m else RN * 104)
    if m in ('size', 'empty'):
        return RN if m == 'size' else RN == 0
    if m in ('operator[]', 'at', 'front', 'back'):
        return E.opts['scrap']
    raise Unsupported('answers: ' + s)


@contract(r'tsl::hopscotch_set<std::|tsl::detail_hopscotch_hash::.*hopscotch_iterator<', H)
def _set(E, st, a, c):
    q = strip(c.dem).split('(')[0].split(' ')[-1]
    if not q.startswith('tsl::') and not q.startswith('operator'):
        return NotImplemented
    m = method(c.dem)
    if m in ('operator!=', 'operator=='):
        return fresh('more', 1)
    if m in ('operator*', 'operator@'):
        return E.opts['scrap']
    if m == 'operator++':
        return a[0]
    return None if c.retty is None or c.retty.kind == 'void' else E._undef(c.retty)


@contract(r'^absl(::\w+)?::(Now|GetCurrentTimeNanos|ToDoubleSeconds|ToInt64\w+|operator[-+])\(', H)
def _time(E, st, a, c):
    if 'GetCurrent' in c.dem or 'ToInt64' in c.dem or 'ToDouble' in c.dem:
        return fresh('time')
    return fresh('time'), fresh('time', 32)


HANDLERS = H + lg.HANDLERS


def inv(L):
    r = []
    E, O = L.E, L.E.opts
    r.append(('spec: batches are not empty', lambda s, e: z3.And(z3.ULE(bv(s.g['nb'], 64), bv(s.g['covered'], 64)), z3.ULE(bv(s.g['covered'], 64), NM), (bv(s.g['nb'], 64) == 0) == (bv(s.g['covered'], 64) == 0))))
    r.append(('spec: posted up to the last batch', lambda s, e: bv(s.g['posted'], 64) == z3.If(bv(s.g['np'], 64) == 0, z3.BitVecVal(0, 64), LAST(bv(s.g['np'], 64) - 1))))
    r.append(('spec: posted at most what there is', lambda s, e: z3.And(z3.ULE(bv(s.g['posted'], 64), NM), z3.ULE(bv(s.g['np'], 64), bv(s.g['posted'], 64)))))
    r.append(('spec: posted batches are there', lambda s, e: z3.ULE(bv(s.g['np'], 64), bv(s.g['nb'], 64))))
    for h in [h for h in L.hvars() if h.kind in ('phi', 'cell') and h.w == 64]:
        def place(s, e, h=h):
            v = h.get(E, s, e)
            if not isinstance(v, Ptr):
                return True
            off = bv(v.off, 64)
            if v.obj == O['measurements'].obj:
                return z3.And(off == z3.LShR(off, 4) << 4, z3.ULE(z3.LShR(off, 4), NM))
            if v.obj == O['batches'].obj:
                return z3.And(off == z3.LShR(off, 4) << 4, z3.ULE(z3.LShR(off, 4), bv(s.g['nb'], 64)))
            if v.obj == O['buffers'].obj:
                return z3.And(off == bv(s.g['avail'], 64) * k(E, 'payload_size'), z3.ULE(bv(s.g['avail'], 64), NB))
            if v.obj == O['answers'].obj:
                return z3.ULE(off, 1 << 39)
            return True
        r.append(('spec: %r in bounds' % h, place))
        for g, o in (('covered', 'measurements'), ('posted', 'measurements'), ('np', 'batches')):
            def at(s, e, h=h, g=g, o=o):
                v = h.get(E, s, e)
                if not isinstance(v, Ptr):
                    return bv(v, 64) == bv(s.g[g], 64) if isc(v) or z3.is_bv(v) else True
                return z3.LShR(bv(v.off, 64), 4) == bv(s.g[g], 64) if v.obj == O[o].obj else True
            r.append(('spec: %r is at %s' % (h, g), at))
    return r


def t_send(label, enabled, some):
    def run(E):
        st = State()
        st.assume(z3.And(z3.ULT(NM, 1 << 31), z3.ULT(0, BS), z3.ULT(BS, 1 << 31), z3.ULT(0, NB), z3.ULT(NB, 1 << 16), z3.ULT(RN, 1 << 31)))
        if k(E, 'measurement_size') != 16 or k(E, 'batch_width') != 4:
            raise Unsupported('layout')
        O = E.opts
        O.update(works=0, counter=NULL, enabled=z3.BoolVal(enabled))
        O['measurements'] = E.sym_obj(st, 'measurements', NM << 4)
        O['buffers'] = E.sym_obj(st, 'buffers', NB * k(E, 'payload_size'))
        O['payload'] = E.sym_obj(st, 'payload', k(E, 'payload_size'))
        O['answers'] = E.sym_obj(st, 'answers', 1 << 40)
        O['scrap'] = E.sym_obj(st, 'scrap', 256)

        def f(E, st, off, w):
            if w != 8:
                raise Unsupported('part of a batch')
            i = z3.LShR(bv(off, 64), 4)
            m = O['measurements'].obj
            E.oblige(st, z3.ULT(i, bv(st.g['nb'], 64)), 'only batches that are there are used', 'bounds')
            st.assume(z3.And(FIRST(i) == z3.If(i == 0, z3.BitVecVal(0, 64), LAST(i - 1)), z3.ULT(FIRST(i), LAST(i)), z3.ULE(LAST(i) - FIRST(i), BS), z3.ULE(LAST(i), NM)))
            if not E.S.sat(st.pc, z3.Not(bv(off, 64) & 15 == 0)):
                return Ptr(m, FIRST(i) << 4)
            if not E.S.sat(st.pc, z3.Not(bv(off, 64) & 15 == 8)):
                return Ptr(m, LAST(i) << 4)
            raise Unsupported('part of a batch')

        O['batches'] = E.new_obj(st, 'batches', 1 << 40, 'arg', ('fn', f))
        O['config'] = cfg = E.sym_obj(st, 'config', k(E, 'config_size'))
        vt = E.new_obj(st, 'vtable', 64, 'arg')
        for i in range(8):
            E.mwrite(st, vt.obj, 8 * i, 8, FnPtr('vc_enabled'))
        E.mwrite(st, cfg.obj, 0, 8, vt)
        E.mwrite(st, cfg.obj, k(E, 'batch_size'), 4, z3.Extract(31, 0, BS))
        O['pub'] = pub = E.sym_obj(st, 'publisher', k(E, 'publisher_size'))
        E.mwrite(st, pub.obj, k(E, 'registry'), 8, E.sym_obj(st, 'registry', k(E, 'registry_size')))
        E.mwrite(st, pub.obj, k(E, 'threads'), 8, NB)
        for i, o in enumerate((0, NB * k(E, 'payload_size'), NB * k(E, 'payload_size'))):
            E.mwrite(st, pub.obj, k(E, 'buffers') + 8 * i, 8, Ptr(O['buffers'].obj, o))
        z = z3.BitVecVal(0, 64)
        st.g.update(task=False, held=(), measured=z3.BoolVal(False), waited=z3.BoolVal(False), covered=z, nb=z, posted=z, np=z, avail=z, counter=z, logger=E.sym_obj(st, 'logger', 4096))
        st.assume(NM != 0 if some else NM == 0)
        E.loop_hooks.append(lambda L: setattr(L, 'spec', getattr(L, 'spec', []) + [inv]))
        n = 0
        for s, r in E.run_fn(st, E.m.find1('^vc_send$'), [pub]):
            n += 1
            if enabled and some:
                E.oblige(s, bv(s.g['posted'], 64) == NM, 'every measurement is in a batch that is posted', 'spec')
                E.oblige(s, s.g['waited'], 'the round ends when all batches are done', 'spec')
            else:
                E.oblige(s, bv(s.g['np'], 64) == 0, 'nothing is posted (%s)' % label, 'spec')
            E.oblige(s, len(s.g['held']) == 0, 'no lock is kept', 'spec')
        cover(E, 'round', n > 0)
        if enabled and some:
            cover(E, 'work', O['works'] > 0)
    return run


def tasks(module):
    return [('send_metrics', t_send('enabled', True, True)), ('send_metrics, disabled', t_send('disabled', False, True)), ('send_metrics, nothing to send', t_send('no measurements', True, False)),
            ('send_metrics, disabled and nothing to send', t_send('disabled', False, False))]
