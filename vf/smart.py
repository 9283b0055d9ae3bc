"""Assumed contracts on shared_ptr / weak_ptr / scoped lock: a handle to the object it was given (no reference counting)."""
import z3
from .engine import *
from .std import *


def nz(p):
    return ptr_term(p) != 0


def smart(eng, weak_may_expire=True):
    C = eng.contract
    SP = r'^((void|bool) )?(sofa::pbrpc|boost|std)::shared_ptr<.*>::'
    ld = lambda e, s, p: e.load(s, p, ('ptr',))

    def copy(e, s, a, n):
        e.store(s, a[0], ('ptr',), ld(e, s, a[1]))
        return a[0]

    def setp(e, s, a, n):
        e.store(s, a[0], ('ptr',), a[1])

    def swap(e, s, a, n):
        x, y = ld(e, s, a[0]), ld(e, s, a[1])
        e.store(s, a[0], ('ptr',), y)
        e.store(s, a[1], ('ptr',), x)
    zero = lambda e, s, a, n: e.store(s, a[0], ('ptr',), c64(0))
    C(SP + r'(operator->|operator\*|get)\(\) const', lambda e, s, a, n: ld(e, s, a[0]))
    C(SP + r'operator .*\(\) const', lambda e, s, a, n: Agg([ptr_term(ld(e, s, a[0])), c64(0)]))
    C(SP + r'operator bool', lambda e, s, a, n: nz(ld(e, s, a[0])))
    C(SP + r'operator!\(\)', lambda e, s, a, n: Not(nz(ld(e, s, a[0]))))
    C(SP + r'shared_ptr\(\)', zero)
    C(SP + r'shared_ptr<.*>\([\w:]+\*\)', setp)
    C(SP + r'shared_ptr(<.*>)?\((sofa::pbrpc|boost|std)::shared_ptr<.*> ?(const)?&+', copy)
    C(SP + r'operator=(<.*>)?\(', copy)
    C(SP + r'reset\(\)', zero)
    C(SP + r'reset<.*>\([\w:]+\*\)', setp)
    C(SP + r'swap\(', swap)
    C(SP + r'~shared_ptr', nop)
    W = r'^(sofa::pbrpc|boost|std)::weak_ptr<.*>::'
    C(W + r'weak_ptr\(\)', zero)
    C(W + r'weak_ptr(<.*>)?\([^)]', copy)
    C(W + r'operator=', copy)
    C(W + r'~weak_ptr', nop)

    def lock(e, s, a, n):
        x = ld(e, s, a[1])
        if not weak_may_expire:
            e.store(s, a[0], ('ptr',), x)
            return None
        s2 = s.copy()
        e.store(s2, a[0], ('ptr',), c64(0))
        e.store(s, a[0], ('ptr',), x)
        return [(s2, None), (s, None)]
    C(W + r'lock\(\) const', lock)
    C(r'^(sofa::pbrpc|boost|std)::enable_shared_from_this<.*>::shared_from_this\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), a[1]))
    C(r'^(boost::_bi::.* |.* )?boost::bind<', nop)
    C(r'^boost::function<.*>::(~?function)', nop)
    C(r'^boost::function\d?<.*>::(~?function\d?)\(', nop)
    C(r'^boost::_bi::', nop)
