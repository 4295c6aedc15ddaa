"""C12: the receive path of both servers. Start() is run up to asio's async_receive, whose contract records the buffer and
the completion handler; the handler is then run for every error code, every number of bytes asio may report and every content."""
import re, z3
from ..build import VERIF
from ..ops import *
from ..engine import Ptr, Unsupported, fresh, State
from ..lib import contract
from .meters import ABSL
from . import logging as lg

SOURCES = [VERIF + '/vc/drivers/c12.cc', 'server/udp_server.cc', 'server/local_server.cc']
IRFLAGS = ['-fno-access-control']
H = []
TRUSTED = ['asio basic_datagram_socket::async_receive(_from): writes the datagram to the start of the buffer, reports at most its length, calls the handler once later',
           'asio::buffer, mutable_buffers_1: verified as part of the code (inlined)', 'std::function::operator(): one call of the handler'] + lg.TRUSTED
ASSUMPTIONS = ['the handler does not throw (C14 to C16)', 'one thread runs the io_context of a server (spectatord starts one)',
               'a datagram longer than the 65536 byte receive buffer is cut by the kernel']
HARNESS = dict(srcs=[VERIF + '/harness/c12.cc', 'server/udp_server.cc', 'server/local_server.cc', 'server/proc_utils.cc', 'util/logger.cc'], flags=['-fno-access-control'],
               libs=ABSL + ['-lspdlog', '-lfmt', '-lpthread'], what='datagrams of 0 to 65536 random bytes over real sockets (Unix and loopback UDP), alone and in bursts, to both servers')


def cover(E, name, ok):
    E.covers = getattr(E, 'covers', []) + [(name, bool(ok))]


def k(E, n):
    return E.m.global_init('vc_' + n)[1][2]


@contract(r'^([^()]* )?asio::basic_datagram_socket<.*>::async_receive(_from)?<', H)
def _recv(E, st, a, c):
    o = E.opts['srv']
    sock, b, h = E.to_ptr(a[0]), E.to_ptr(a[1]), E.to_ptr(a[-1])
    E.oblige(st, sock.obj == o['p'].obj and eq(sock.off, o['socket']) is True, 'the receive is started on the server\'s socket', 'spec')
    ptr, n = E.to_ptr(E.mread(st, b.obj, b.off, 8)), bv(E._as_bits(E.mread(st, b.obj, add(b.off, 8), 8), 8), 64)
    good = isinstance(ptr, Ptr) and ptr.obj == o['p'].obj
    E.oblige(st, good and z(eq(bv(ptr.off, 64), o['buf'])), 'datagrams are received at the start of the receive buffer', 'spec')
    E.oblige(st, z3.And(z3.ULE(n, o['len']), n != 0), 'the buffer given to the socket lies within the receive buffer', 'spec')
    E.oblige(st, z3.And(z3.UGE(n, 65507), z3.UGE(n, o['len'] - 1)), 'the buffer given to the socket takes a datagram of any length up to the receive buffer', 'spec')
    if 'async_receive_from' in c.dem:
        raise Unsupported('async_receive_from')
    st.g['started'] = st.g.get('started', 0) + 1
    st.g['n'] = n
    size = st.size[h.obj]
    if not isc(size):
        raise Unsupported('closure size')
    cl = E.new_obj(st, 'closure', sub(size, h.off), 'arg')
    rs = E.memcpy(st, cl, h, sub(size, h.off))
    if len(rs) != 1:
        raise Unsupported('closure copy')
    st.g['closure'] = cl
    m = re.search(r'async_receive<asio::mutable_buffers_1, (.*)>\(asio::mutable_buffers_1 const&', c.dem)
    if not m:
        raise Unsupported('completion handler of %s' % c.dem[:200])
    st.g['cls'] = m.group(1).rstrip('&')
    return None


@contract(r'^std::function<.*\(char\*\)>::operator\(\)\(char\*\) const$', H)
def _call(E, st, a, c):
    o = E.opts['srv']
    this, p = [E.to_ptr(x) for x in a[-2:]]
    E.oblige(st, isinstance(this, Ptr) and this.obj == o['p'].obj and eq(this.off, o['handler']) is True, 'the handler called is the one given to the server', 'spec')
    E.oblige(st, isinstance(p, Ptr) and p.obj == o['p'].obj and z(eq(bv(p.off, 64), o['buf'])), 'the handler is given the start of the receive buffer', 'spec')
    E.oblige(st, 'n' not in st.g or st.g.get('started') == 0, 'the handler has returned before the next receive is started', 'spec')
    st.g['calls'] = st.g.get('calls', 0) + 1
    n, j = E.opts['bytes'], E.opts['j']
    b0, b1 = o['byte'], E.mread(st, p.obj, add(o['buf'], j), 1)
    E.oblige(st, z3.Implies(z3.ULT(j, n), bv(b1, 8) == b0), 'the handler is given the bytes received', 'spec')
    E.oblige(st, bv(E.mread(st, p.obj, add(o['buf'], n), 1), 8) == 0, 'the bytes received are followed by a NUL', 'spec')
    return None


@contract(r'^std::optional<std::(__cxx11::)?basic_string<char[^()]*> ?>::~optional\(\)$', H)
def _opt(E, st, a, c):
    return None


@contract(r'^std::error_code::operator bool\(\) const$', H)
def _ec(E, st, a, c):
    return NotImplemented


HANDLERS = H + lg.HANDLERS


def task(which):
    def run(E):
        E.opts['j'] = fresh('j')
        st = State()
        p = E.sym_obj(st, 'server', k(E, which + '_size'))
        o = E.opts['srv'] = dict(p=p, **{x: k(E, which + '_' + x) for x in ('buf', 'len', 'socket', 'handler')})
        where = fresh('outside')
        inb = z3.And(z3.UGE(where, o['buf']), z3.ULT(where, o['buf'] + o['len']))
        st.assume(z3.And(z3.ULT(where, k(E, which + '_size')), z3.Not(inb)))
        out0 = bv(E.mread(st, p.obj, where, 1), 8)
        outs = E.run_fn(st, E.m.find1('^vc_%s_start$' % which), [p])
        cover(E, 'start', len(outs) >= 1)
        seen = set()
        for s, _ in outs:
            E.oblige(s, s.g.get('started') == 1, 'starting the server starts exactly one receive', 'spec')
            E.oblige(s, bv(E.mread(s, p.obj, where, 1), 8) == out0, 'starting writes nothing outside the receive buffer', 'frame')
            f = [x for x in E.m.find('^' + re.escape(s.g['cls']) + r'::operator\(\)\(std::error_code const&, unsigned long\)( const)?$') if not x.decl]
            if len(f) != 1:
                raise Unsupported('completion handler %s' % s.g['cls'])
            n, lim, cl = fresh('n'), s.g['n'], s.g['closure']
            s = s.copy()
            s.g = dict(s.g, started=0, calls=0)
            s.assume(z3.ULE(n, lim))
            # asio has written the datagram: arbitrary bytes
            E.opts['bytes'], o['byte'] = n, fresh('byte', 8)
            fresh_mem = E.sym_obj(s, 'datagram', o['len'])
            s.assume(bv(E.mread(s, fresh_mem.obj, E.opts['j'], 1), 8) == o['byte'])
            rs = E.memcpy(s, Ptr(p.obj, o['buf']), fresh_mem, lim)
            for s1 in rs:
                ec = E.sym_obj(s1, 'ec', 16)
                code = bv(E.mread(s1, ec.obj, 0, 4), 32)
                for s2, _ in E.run_fn(s1, f[0], [cl, ec, n]):
                    want = z3.And(code == 0, n != 0)
                    calls = s2.g.get('calls')
                    E.oblige(s2, want if calls == 1 else z3.Not(want) if calls == 0 else False, 'a datagram is handed over exactly once, errors and empty datagrams to nobody', 'spec')
                    E.oblige(s2, s2.g.get('started') == 1, 'every completion starts exactly one more receive', 'spec')
                    E.oblige(s2, bv(E.mread(s2, p.obj, where, 1), 8) == out0, 'nothing outside the receive buffer changes', 'frame')
                    E.oblige(s2, s2.g.get('cls') == s.g['cls'] and z(s2.g['n'] == lim), 'the next receive has the same buffer and handler', 'spec')
                    seen.add(calls)
        cover(E, 'handed over and not handed over', seen >= {0, 1})
    return run


def tasks(m):
    return [('udp server', task('udp')), ('local server', task('local'))]
