"""Trusted: logging, error messages and their formatting have no effect the properties observe (they are no-ops)."""
from ..engine import Ptr, fresh
from ..lib import contract
HANDLERS = H = []
TRUSTED = ['spectatord::Logger() and every spdlog/fmt logging call: no effect on the state the property observes']


@contract(r'^spectatord::(Logger|GetLogger)\(|^std::error_code::message|^std::(__cxx11::)?basic_string<char[^()]*>::~basic_string\(\)$', H)
def _nop(E, st, a, c):
    return None


@contract(r'^std::(__)?shared_ptr(_access)?<spdlog::logger(, [^:]*::_Lock_policy\)2.*)?>::(operator->|operator\*|get|_M_get)\(\) const$', H)
def _lg(E, st, a, c):
    if 'logger' not in st.g:
        st.g['logger'] = E.sym_obj(st, 'logger', 4096)
    return st.g['logger']


@contract(r'^std::(__)?shared_ptr<spdlog::logger(, [^:]*::_Lock_policy\)2.*)?>::(~(__)?shared_ptr|shared_ptr|operator=)\(', H)
def _sp(E, st, a, c):
    return a[0]


@contract(r'^([^()]* )?spdlog::', H)
def _spd(E, st, a, c):
    if '::should_log(' in c.dem or c.retty is not None and str(c.retty) in ('i1', 'bool'):
        return fresh('should_log', 1)
    return None
