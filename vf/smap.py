"""Assumed contracts on std::map<std::string, std::string>: a partial function from byte strings to byte strings.
Keys used on one map must be distinguishable (literals, or the same string object); anything else is refused as unsupported."""
import z3
from .engine import *
from .std import *
from .maps import Maps

MS = r'^std::map<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, .*>::'


class SMapV:
    """entries: {key: (present Bool, node)}; what is not listed is unknown (or absent when base_empty)"""

    def __init__(self, entries=(), empty=False):
        self.entries, self.empty = tuple(entries), empty

    def havoc(self, eng, st, key):
        return SMapV()


def literal(eng, st, v):
    n = cval(z3.simplify(v.len))
    if n is None or n > 64:
        return None
    a = str_arr(eng, st, v)
    bs = [cval(z3.simplify(a.get(c64(k)))) for k in range(n)]
    return None if any(b is None for b in bs) else bytes(bs)


def keyid(eng, st, v):
    l = literal(eng, st, v)
    return l if l is not None else ('var', v.obj.id)


class StrMaps:
    def __init__(self, eng, on_index=None):
        self.eng = eng
        self.base = Maps(eng)
        self.on_index = on_index
        C = eng.contract
        C(MS + r'map\(\)$', lambda e, s, a, n: self.put(s, a[0], SMapV(empty=True)))
        C(MS + r'~map\(\)$', nop)
        C(MS + r'clear\(\)$', lambda e, s, a, n: self.put(s, a[0], SMapV(empty=True)))
        C(MS + r'find\(', self.find)
        C(MS + r'count\(', lambda e, s, a, n: [(s2, c64(1) if ok else c64(0)) for s2, ok, nd in self.lookup(s, a[0], a[1])])
        C(MS + r'operator\[\]\(', self.index)
        C(MS + r'end\(\)', lambda e, s, a, n: self.base.end(s, a[0]))
        for k in ('begin', 'erase', 'insert', 'swap', 'operator=', 'size', 'empty', 'at', 'lower_bound', 'upper_bound'):
            def un(e, s, a, n, k=k):
                raise Unsupported('string map %s' % k)
            C(MS + k + r'\(', un)

    def key(self, ptr):
        p = self.eng.materialise(None, ptr) if not isinstance(ptr, P) else ptr
        return ('smap', p.obj.id, p.off)

    def get(self, s, ptr):
        return s.ghost.get(self.key(ptr)) or SMapV()

    def put(self, s, ptr, v):
        self.eng.setghost(s, self.key(ptr), v)

    def node(self, s, ptr, k, v):
        """the same key of the same map has the same node on every path"""
        m = ptr.obj.memo.setdefault(('smapnodes', ptr.off), {})
        if not isinstance(k, bytes):
            # one node stands for the only unknown key in use; whether it is present is unknown each time
            if 'var' not in m:
                m['var'] = Obj('node_var', 'cells', size=64)
            return m['var'], fresh('has_var', 1)
        if k not in m:
            o = Obj('node_%s' % (k.decode('latin1') if isinstance(k, bytes) else 'var'), 'cells', size=64)
            m[k] = (o, fresh('has_' + (k.decode('latin1') if isinstance(k, bytes) else 'var'), 1))
        return m[k]

    def lookup(self, s, ptr, kptr):
        """[(state, found?, node)]"""
        e = self.eng
        kv = get_str(e, s, kptr)
        k = keyid(e, s, kv)
        m = self.get(s, ptr)
        d = dict(m.entries)
        if k not in d:
            for k2 in d:
                if not (isinstance(k, bytes) and isinstance(k2, bytes)):
                    raise Unsupported('string map keys that may coincide')
            o, has = self.node(s, ptr, k, kv)
            d[k] = (z3.BoolVal(False) if m.empty else has, o)
        has, o = d[k]
        out = []
        for s2, val in ((s.copy(), False), (s, True)):
            s2.assume(has if val else Not(has))
            if not e.feasible(s2, TRUE):
                continue
            d2 = dict(d)
            d2[k] = (z3.BoolVal(val), o)
            e.setghost(s2, self.key(ptr), SMapV(d2.items(), m.empty))
            out.append((s2, val, o))
        return out

    def find(self, e, s, a, n):
        return [(s2, P(o) if ok else self.base.end(s2, a[0])) for s2, ok, o in self.lookup(s, a[0], a[1])]

    def index(self, e, s, a, n):
        out = []
        for s2, ok, o in self.lookup(s, a[0], a[1]):
            if not ok:
                set_str(e, s2, P(o, 32), AConst(BV(0, 8)), c64(0))
                m = self.get(s2, a[0])
                d = dict(m.entries)
                k = keyid(e, s2, get_str(e, s2, a[1]))
                d[k] = (z3.BoolVal(True), o)
                e.setghost(s2, self.key(a[0]), SMapV(d.items(), m.empty))
            if self.on_index:
                self.on_index(e, s2, a[0], a[1], o)
            out.append((s2, P(o, 32)))
        return out
