"""Assumed contracts on std::map / std::set (and boost::unordered) with keys that have an identity term.
A map is a function key -> (present, value word); the nodes handed out by operator[] / find are live: what is stored through
them is part of the map.  Iteration visits every key exactly once: the map is enumerated by a ghost sequence of its nodes."""
import re
import z3
from .engine import *
from .std import *
from .cont import SeqV, elem_ptr, get_seq, put_seq

KS, BS = z3.BitVecSort(64), z3.BoolSort()
ANY = r'^(std|boost|std::tr1)::(map|set|unordered_map|unordered_set|unordered::unordered_map)<'
ITER = r'^std::_Rb_tree_(const_)?iterator<.*>::'


class MapV:
    """pres/val: z3 arrays over the key identity; live: nodes whose value may have been written since (key, node)"""
    __slots__ = ('pres', 'val', 'live', 'loc')

    def __init__(self, pres, val, live=(), loc=None):
        self.pres, self.val, self.live, self.loc = pres, val, tuple(live), loc

    def havoc(self, eng, st, key):
        return MapV(z3.Array(nm('hp'), KS, BS), z3.Array(nm('hv'), KS, KS), (), self.loc)


_n = [0]


def nm(p):
    _n[0] += 1
    return '%s!m%d' % (p, _n[0])


def mkey(p):
    return ('map', p.obj.id, p.off)


class Maps:
    """keyof(e, s, ptr, demangled) -> identity term (64 bits); voff: offset of the value in the pair; vsize its first word's size"""

    def __init__(self, eng, keyof=None, kset=None, voff=8, vsize=8, guard=None, fresh_guard=None):
        self.eng, self.voff, self.vsize, self.guard = eng, voff, vsize, guard
        self.keyof = keyof or (lambda e, s, p, d: z3.ZeroExt(64 - kwidth(d), e.load(s, p, ('i', kwidth(d)))) if kwidth(d) < 64 else e.load(s, p, ('i', 64)))
        self.kset = kset or (lambda e, s, node, k, d: e.store(s, P(node), ('i', kwidth(d)), z3.Extract(kwidth(d) - 1, 0, k) if kwidth(d) < 64 else k))
        self.install(eng)

    # -- state
    def get(self, s, ptr, empty=False):
        p = self.eng.materialise(s, ptr)
        k = mkey(p)
        v = s.ghost.get(k)
        if v is None:
            v = MapV(z3.K(KS, z3.BoolVal(False)), z3.K(KS, BV(0, 64)), (), k) if empty else MapV(z3.Array(nm('pres'), KS, BS), z3.Array(nm('val'), KS, KS), (), k)
            s.ghost[k] = v
        return v

    def put(self, s, ptr, v):
        p = self.eng.materialise(s, ptr)
        self.eng.setghost(s, mkey(p), v)

    def flush(self, s, v):
        """fold the live nodes into the value function"""
        val = v.val
        for k, node in v.live:
            x = ptr_term(self.eng.load(s, P(node, self.voff), ('ptr',) if self.vsize == 8 else ('i', self.vsize * 8)))
            if x.size() < 64:
                x = z3.ZeroExt(64 - x.size(), x)
            val = z3.If(z3.Select(v.pres, k), z3.Store(val, k, x), val)
        return MapV(v.pres, z3.simplify(val), (), v.loc)

    def has(self, s, v, k):
        return z3.Select(v.pres, k)

    def at(self, s, v, k):
        return z3.Select(self.flush(s, v).val, k)

    def node(self, s, v, k, d):
        o = self.eng.new_obj(s, 'node', 'cells', size=256)
        self.kset(self.eng, s, o, k, d)
        if self.vsize:
            x = z3.simplify(z3.Select(v.val, k))
            self.eng.store(s, P(o, self.voff), ('ptr',) if self.vsize == 8 else ('i', self.vsize * 8), x if self.vsize == 8 else z3.Extract(self.vsize * 8 - 1, 0, x))
        return o

    def end(self, s, ptr):
        p = self.eng.materialise(s, ptr)
        key = ('mapend', p.off)
        if key not in p.obj.memo:
            p.obj.memo[key] = Obj('end_%s' % p.obj.name, 'cells', size=8)
        return P(p.obj.memo[key])

    def install(self, eng):
        C = eng.contract

        def G(e, s, a, k=0, empty=False):
            if self.guard is not None:
                self.guard(e, s, e.materialise(s, a[k]))
            return self.get(s, a[k], empty)

        def ctor(e, s, a, n):
            self.put(s, a[0], MapV(z3.K(KS, z3.BoolVal(False)), z3.K(KS, BV(0, 64)), (), mkey(e.materialise(s, a[0]))))

        def find(e, s, a, n):
            v = G(e, s, a)
            d = e.demangled(n)
            k = z3.simplify(self.keyof(e, s, a[1], d))
            v = self.flush(s, v)
            out = []
            hit = z3.Select(v.pres, k)
            s2 = s.copy()
            s2.assume(Not(hit))
            if e.feasible(s2, TRUE):
                out.append((s2, self.end(s2, a[0])))
            s.assume(hit)
            if e.feasible(s, TRUE):
                o = self.node(s, v, k, d)
                o.mapkey = k
                self.put(s, a[0], MapV(v.pres, v.val, [(k, o)], v.loc))
                out.append((s, P(o)))
            return out

        def index(e, s, a, n):
            v = self.flush(s, G(e, s, a))
            d = e.demangled(n)
            k = z3.simplify(self.keyof(e, s, a[1], d))
            had = z3.Select(v.pres, k)
            val = z3.Store(v.val, k, z3.If(had, z3.Select(v.val, k), BV(0, 64)))
            v = MapV(z3.Store(v.pres, k, z3.BoolVal(True)), val, (), v.loc)
            o = self.node(s, v, k, d)
            o.mapkey = k
            self.put(s, a[0], MapV(v.pres, v.val, [(k, o)], v.loc))
            return P(o, self.voff)

        def erase_key(e, s, a, n):
            v = self.flush(s, G(e, s, a))
            k = z3.simplify(self.keyof(e, s, a[1], e.demangled(n)))
            had = z3.Select(v.pres, k)
            self.put(s, a[0], MapV(z3.Store(v.pres, k, z3.BoolVal(False)), v.val, (), v.loc))
            return z3.If(had, c64(1), c64(0))

        def erase_it(e, s, a, n):
            v = self.flush(s, G(e, s, a))
            p = a[1] if isinstance(a[1], P) else None
            if p is not None and getattr(p.obj, 'mapkey', None) is None:
                p2 = e.load(s, a[1], ('ptr',)) if p.obj.kind == 'cells' else None
                p = p2 if isinstance(p2, P) else None
            if p is None or getattr(p.obj, 'mapkey', None) is None:
                raise Unsupported('erase of an unknown iterator')
            k = p.obj.mapkey
            e.oblige(s, z3.Select(v.pres, k), 'erases-an-element-it-found')
            self.put(s, a[0], MapV(z3.Store(v.pres, k, z3.BoolVal(False)), v.val, (), v.loc))
            return self.end(s, a[0])

        def swap(e, s, a, n):
            v, w = self.flush(s, G(e, s, a)), self.flush(s, G(e, s, a, 1))
            self.put(s, a[0], w)
            self.put(s, a[1], v)

        def clear(e, s, a, n):
            G(e, s, a)
            ctor(e, s, a, n)

        def assign(e, s, a, n):
            w = self.flush(s, G(e, s, a, 1))
            G(e, s, a)
            self.put(s, a[0], w)
            return a[0]

        def insert_key(e, s, a, n):
            """std::set::insert(key): {iterator, inserted}"""
            v = self.flush(s, G(e, s, a))
            k = z3.simplify(self.keyof(e, s, a[1], e.demangled(n)))
            had = z3.Select(v.pres, k)
            self.put(s, a[0], MapV(z3.Store(v.pres, k, z3.BoolVal(True)), v.val, (), v.loc))
            return Agg([fresh('it', 64), z3.If(had, BV(0, 8), BV(1, 8))])

        def begin(e, s, a, n):
            v = self.flush(s, G(e, s, a))
            self.put(s, a[0], v)
            return elem_ptr(self.enum(s, a[0], v, e.demangled(n)), c64(0))

        def end(e, s, a, n):
            p = e.materialise(s, a[0])
            v = self.flush(s, self.get(s, a[0]))
            ek = ('enum',) + mkey(p)
            if ek in s.ghost and s.ghost[ek][1] is v.pres:
                q = s.ghost[ek][0]
                return elem_ptr(q, q.len)
            return self.end(s, a[0])

        def size(e, s, a, n):
            v = G(e, s, a)
            return z3.Function('mapsize', v.pres.sort(), KS)(v.pres)

        def empty(e, s, a, n):
            v = G(e, s, a)
            return z3.simplify(z3.Function('mapsize', v.pres.sort(), KS)(v.pres) == 0)
        C(ANY + r'.*>::(map|set)\(\)$', ctor)
        C(ANY + r'.*>::~(map|set)\(\)$', nop)
        C(ANY + r'.*>::find\(', find)
        C(ANY + r'.*>::operator\[\]\(', index)
        C(ANY + r'.*>::erase(\[abi:cxx11\])?\(std::_Rb_tree', erase_it)
        C(ANY + r'.*>::erase\(', erase_key)
        C(ANY + r'.*>::swap\(', swap)
        C(ANY + r'.*>::clear\(', clear)
        C(ANY + r'.*>::insert\(', insert_key)
        C(ANY + r'.*>::operator=\(', assign)
        C(ANY + r'.*>::begin\(\)', begin)
        C(ANY + r'.*>::end\(\)', end)
        C(ANY + r'.*>::size\(\)', size)
        C(ANY + r'.*>::empty\(\)', empty)

        def itp(e, s, x):
            p = e.load(s, x, ('ptr',))
            return p

        def deref(e, s, a, n):
            p = itp(e, s, a[0])
            if isinstance(p, P) and p.obj.kind == 'elems' and getattr(p.obj, 'mapfacts', None):
                p.obj.mapfacts(s, p)
            return p

        def step(delta):
            def h(e, s, a, n):
                p = itp(e, s, a[0])
                if not isinstance(p, P) or p.obj.kind != 'elems':
                    raise Unsupported('step of an unknown map iterator')
                e.store(s, a[0], ('ptr',), p.add(delta * p.obj.stride))
                return a[0]
            return h

        def poststep(e, s, a, n):
            p = itp(e, s, a[0])
            if not isinstance(p, P) or p.obj.kind != 'elems':
                raise Unsupported('step of an unknown map iterator')
            e.store(s, a[0], ('ptr',), p.add(p.obj.stride))
            return p
        C(ITER + r'operator(->|\*)\(\) const$', deref)
        C(ITER + r'operator\+\+\(\)$', step(1))
        C(ITER + r'operator\+\+\(int\)$', poststep)

        def cmp_(neg):
            def h(e, s, a, n):
                r = e.ptr_eq(s, itp(e, s, a[0]), itp(e, s, a[1])) if hasattr(e, 'ptr_eq') else e.icmp(s, 'eq', itp(e, s, a[0]), itp(e, s, a[1]))
                r = r if z3.is_bool(r) else r == 1
                return z3.simplify(Not(r) if neg else r)
            return h
        C(r'^(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator', cmp_(False))
        C(r'^(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator', cmp_(True))
        C(ITER + r'operator==\(', cmp_(False))
        C(ITER + r'operator!=\(', cmp_(True))

    def enum(self, s, ptr, v, d):
        """the ghost sequence of the map's nodes.  For every watched key x that is present there is exactly one index."""
        eng = self.eng
        p = eng.materialise(s, ptr)
        ek = ('enum',) + mkey(p)
        if ek in s.ghost and s.ghost[ek][1] is v.pres:
            return s.ghost[ek][0]
        o = Obj('enum_' + p.obj.name, 'elems', stride=256)
        o.layout = [(0, 8), (self.voff, self.vsize)] if self.vsize else [(0, 8)]
        n = fresh('mapn', 64)
        s.assume(z3.ULT(n, 1 << 40))
        q = SeqV(o, c64(0), n)
        watch = [(x, fresh('ix', 64)) for x in getattr(self, 'watch', ())]
        o.watch = watch

        def key(s2, i):
            return q.at(eng, s2, i, 0, 8)
        for x, ix in watch:
            s.assume(Implies(z3.Select(v.pres, x), And(z3.ULT(ix, n), key(s, ix) == x)))
            if self.vsize:
                s.assume(Implies(z3.Select(v.pres, x), q.at(eng, s, ix, self.voff, self.vsize) == (z3.Select(v.val, x))))

        def facts(s2, p2):
            i, r = eng.elem_split(p2)
            k = key(s2, i)
            s2.assume(Implies(z3.ULT(i, n), z3.Select(v.pres, k)))
            if self.vsize:
                s2.assume(Implies(z3.ULT(i, n), q.at(eng, s2, i, self.voff, self.vsize) == z3.Select(v.val, k)))
            if getattr(self, 'extra', None):
                self.extra(s2, q, i, k)
            for x, ix in watch:
                s2.assume(Implies(And(z3.ULT(i, n), k == x), i == ix))
                if getattr(self, 'ordered', False):
                    # std::set / std::map enumerate their keys in increasing order
                    s2.assume(Implies(And(z3.ULT(i, n), z3.Select(v.pres, x)), z3.ULT(i, ix) == z3.ULT(k, x)))
        o.mapfacts = facts
        s.ghost[ek] = (q, v.pres)
        return q


def kwidth(d):
    m = re.match(ANY + r'(unsigned long|long|unsigned int|int)[ ,]', d)
    if not m:
        return 64
    return 64 if 'long' in m.group(3) else 32
