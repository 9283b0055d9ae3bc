"""R01: the service registry: a service is found under its full name and only there, is listed once, and its statistics add up."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
from vf.smart import *
import props.F01 as F01
from props.V01 import log, one, tru, Ctx, Z8

PROP = Prop('R01')
PROP.assumptions = ['two descriptors have the same full name exactly when the names are equal byte strings, which is what std::string comparison decides', 'std::map and std::set behave as finite maps ordered by key',
                    'the hash of a name depends on its bytes only (proved memory-safe; it decides no result, only where a cache entry is kept)', 'a finished call is reported by one thread at a time per method']
PROP.native('reg', 'reg.cc', args=['4'], thorough_args=['60'], what='real registry with random services (many names, prefixes, same cache slots) against a map; statistics over random histories and extreme periods against a log of seconds', **F01.ALL)
If1 = z3.If
PROP.tu('reg', '''#include "vfstd.h"
#include <list>
#define private public
#define protected public
#include <sofa/pbrpc/service_pool.h>
using namespace sofa::pbrpc;
typedef ServicePool SP; typedef ServiceBoard SB; typedef MethodBoard MB;
extern "C" void vf_use(SP* p, google::protobuf::Service* s, const std::string& n, std::list<SB*>* l, std::list<google::protobuf::Service*>* m, StatSlot* o, int k, sofa::pbrpc::builtin::MethodStat* ms, sofa::pbrpc::builtin::ServiceStat* ss, int64 e, int64* rp, int* rc) {
  p->RegisterService(s, true); SB* b = p->FindService(n); p->ListService(l); p->ListService(m); p->NextSlot(); p->ServiceCount(); b->NextSlot(); b->Method(k)->ReportProcessEnd(true, e); b->ReportProcessEnd(k, true, e);
  b->Method(k)->NextSlot(); b->Method(k)->LatestStats(k, o); b->Method(k)->LatestStats(k, ms); b->LatestStats(e, ss); b->LatestStats(k, k, ms); b->GetRealPeriod(e, rp, rc); p->~SP(); b->~SB(); new (b) SB(b, s, true); new (p) SP(NULL); new (b->Method(k)) MB; p->CacheIndex(n); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_map, SP, _service_map) OFF(o_lock, SP, _service_map_lock) OFF(o_head, SP, _head) OFF(o_count, SP, _count) OFF(o_cache, SP, _cache)
OFF(b_next, SB, _next) OFF(b_svc, SB, _svc) OFF(b_own, SB, _own) OFF(b_desc, SB, _svc_desc) OFF(b_n, SB, _method_count) OFF(b_mb, SB, _method_boards)
OFF(m_sb, MB, _service_board) OFF(m_desc, MB, _desc) OFF(m_slots, MB, _stat_slots) OFF(m_idx, MB, _slot_index) OFF(m_id, MB, _slot_id)
OFF(t_sc, StatSlot, succeed_count) OFF(t_st, StatSlot, succeed_process_time) OFF(t_sm, StatSlot, succeed_max_process_time) OFF(t_fc, StatSlot, failed_count) OFF(t_ft, StatSlot, failed_process_time) OFF(t_fm, StatSlot, failed_max_process_time) OFF(t_id, StatSlot, slot_id)
extern "C" const unsigned long SZ_P = sizeof(SP), SZ_B = sizeof(SB), SZ_M = sizeof(MB), SZ_T = sizeof(StatSlot), SZ_CACHE = sizeof(((SP*)0)->_cache), SZ_SLOTS = sizeof(((MB*)0)->_stat_slots), N_SLOTS = STAT_SLOT_COUNT;
''')
SPR = r'^sofa::pbrpc::ServicePool::'
SBR = r'^sofa::pbrpc::ServiceBoard::'
MBR = r'^sofa::pbrpc::MethodBoard::'
STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
nameof = z3.Function('nameof', z3.BitVecSort(64), z3.BitVecSort(64))     # descriptor -> identity of its full name
descof = z3.Function('descof', z3.BitVecSort(64), z3.BitVecSort(64))     # service -> its descriptor
hash_ = z3.Function('hash', z3.BitVecSort(64), z3.BitVecSort(64))
lenof = z3.Function('lenof', z3.BitVecSort(64), z3.BitVecSort(64))


def names(eng, st):
    """strings known by the identity of their contents"""
    C = eng.contract

    def key(e, s, p):
        p = e.materialise(s, p)
        return ('nid', p.obj.id, p.off)

    def nid(e, s, p):
        v = s.ghost.get(key(e, s, p))
        if v is None:
            v = s.ghost[key(e, s, p)] = fresh('nid', 64)
        return v

    def setnid(e, s, p, v):
        e.setghost(s, key(e, s, p), v)

    def named(e, s, v, memo={}):
        o = e.new_obj(s, 'name', 'cells', size=32)
        s.ghost[('nid', o.id, 0)] = v
        return P(o)
    C(STR + r'basic_string\(std::__cxx11::basic_string<.*(const)?&+\)', lambda e, s, a, n: setnid(e, s, a[0], nid(e, s, a[1])))
    C(STR + r'operator=\(std::__cxx11::basic_string<', lambda e, s, a, n: (setnid(e, s, a[0], nid(e, s, a[1])), a[0])[1])
    C(STR + r'~basic_string', nop)

    def chars(e, s, a, n):
        v = nid(e, s, a[0])
        o = e.new_obj(s, 'chars', 'bytes', size=z3.simplify(lenof(v) + 1))
        o.memo['nameid'] = v
        return P(o, 0)
    C(STR + r'(c_str|data)\(\)', chars)
    C(r'^(int )?pthread_(spin|mutex)_(init|destroy)', lambda e, s, a, n: BV(0, 32))
    C(STR + r'(size|length)\(\)', lambda e, s, a, n: lenof(nid(e, s, a[0])))
    C(r'^(bool )?std::operator==.*basic_string<', lambda e, s, a, n: nid(e, s, a[0]) == nid(e, s, a[1]))
    C(r'^(bool )?std::operator!=.*basic_string<', lambda e, s, a, n: nid(e, s, a[0]) != nid(e, s, a[1]))
    C(r'^google::protobuf::(Service|Method)Descriptor::full_name(\[abi:cxx11\])?\(', lambda e, s, a, n: named(e, s, nameof(ptr_term(a[0]))))

    def murmur(e, s, a, n):
        p = a[0]
        v = p.obj.memo.get('nameid') if isinstance(p, P) else None
        e.oblige(s, And(z3.BoolVal(v is not None and p.off == 0 and not p.sym), z3.SignExt(32, a[1]) == lenof(v)) if v is not None else FALSE, 'hashes-the-whole-name')
        return hash_(v)
    C(r'^sofa::pbrpc::murmurhash\(', murmur)
    return nid, setnid, named


def locks(eng, c, st, at):
    st.ghost['lock'] = c64(0)
    is_ = lambda p: isinstance(p, P) and p.obj is c.S and p.off == at

    def lock(e, s, a, n):
        if is_(a[0]):
            e.oblige(s, s.ghost['lock'] == 0, 'takes-a-free-lock')
            e.setghost(s, 'lock', c64(1))
        return BV(0, 32)

    def unlock(e, s, a, n):
        if is_(a[0]):
            e.setghost(s, 'lock', c64(0))
        return BV(0, 32)
    eng.contract(r'^(int )?pthread_(spin|mutex)_lock', lock)
    eng.contract(r'^(int )?pthread_(spin|mutex)_unlock', unlock)


def pool(eng):
    c, st = Ctx(), State()
    eng.auto_unroll = 0
    c.S = eng.new_obj(st, 'pool', 'cells', size=eng.off('SZ_P'))
    c.cache = eng.region(st, c.S, eng.off('o_cache'), eng.off('SZ_CACHE'), 'cache', 'elems', 8)
    c.nid, c.setnid, c.named = names(eng, st)
    locks(eng, c, st, eng.off('o_lock'))
    c.mapp = P(c.S, eng.off('o_map'))
    c.maps = Maps(eng, keyof=lambda e, s, p, d: c.nid(e, s, p), kset=lambda e, s, node, k, d: s.ghost.__setitem__(('nid', node.id, 0), k), voff=32,
                  guard=lambda e, s, p: e.oblige(s, s.ghost['lock'] == 1, 'the-table-is-used-under-its-lock') if p.obj is c.S else None)
    c.v0 = c.maps.get(st, c.mapp)
    c.head = lambda s: ptr_term(eng.load(s, P(c.S, eng.off('o_head')), ('ptr',)))
    c.count = lambda s: eng.load(s, P(c.S, eng.off('o_count')), ('i', 32))
    c.has = lambda s, k: c.maps.has(s, c.maps.get(s, c.mapp), k)
    c.at = lambda s, k: c.maps.at(s, c.maps.get(s, c.mapp), k)
    c.slot = lambda s, i: ptr_term(eng.load(s, elem_ptr(SeqV(c.cache, c64(0), c64(eng.off('SZ_CACHE') // 8)), i), ('ptr',)))
    c.sname = z3.Function('boardname', z3.BitVecSort(64), z3.BitVecSort(64))   # board -> name of its service

    def sname(e, s, a, n):
        w = ptr_term(a[0])
        e.oblige(s, w != 0, 'a-board')
        return c.named(e, s, c.sname(w))
    eng.contract(SBR + r'ServiceName(\[abi:cxx11\])?\(', sname)
    # invariant of the registry: an entry of the table is a board of that name; a cache entry is the board the table has for its name
    c.inv_at = lambda s, k: Implies(c.has(s, k), And(c.at(s, k) != 0, c.sname(c.at(s, k)) == k))
    c.inv_slot = lambda s, i: Implies(And(z3.ULT(i, eng.off('SZ_CACHE') // 8), c.slot(s, i) != 0), And(c.has(s, c.sname(c.slot(s, i))), c.at(s, c.sname(c.slot(s, i))) == c.slot(s, i)))
    return c, st


@PROP.job('find', 'reg')
def j_find(eng):
    """a service is found under its name exactly when it is registered, whatever the cache holds"""
    c, st = pool(eng)
    nm_ = eng.new_obj(st, 'asked', 'cells', size=32)
    k = fresh('asked', 64)
    st.ghost[('nid', nm_.id, 0)] = k
    h = z3.URem(hash_(k), c64(eng.off('SZ_CACHE') // 8))
    st.assume(z3.And(lenof(k) >= 0, lenof(k) < 1 << 31))
    st.assume(And(c.inv_at(st, k), c.inv_slot(st, h)))
    for s, r in eng.call(st.copy(), eng.find(SPR + r'FindService\('), [P(c.S), P(nm_)]):
        eng.cover(s)
        eng.oblige(s, ptr_term(r) == If1(c.has(st, k), c.at(st, k), c64(0)), 'found-exactly-when-registered')
        eng.oblige(s, s.ghost['lock'] == 0, 'the-lock-is-released')
        eng.oblige(s, And(c.has(s, k) == c.has(st, k), c.inv_slot(s, h)), 'finding-changes-nothing')


@PROP.job('register', 'reg')
def j_register(eng):
    """a new name is added, with its board in front of the others; a name that is taken is refused and nothing changes"""
    c, st = pool(eng)
    svc = fresh('service', 64)
    st.assume(svc != 0)
    eng.contract(r'GetDescriptor', lambda e, s, a, n: descof(ptr_term(a[0])))
    eng.indirect = lambda e, s, fp, args, d: descof(ptr_term(args[0]))
    so = eng.new_obj(st, 'service', 'cells', size=64, addr=svc)
    vt = eng.new_obj(st, 'vt', 'cells', size=4096)
    eng.store(st, P(so), ('ptr',), P(vt))
    k = nameof(descof(svc))
    st.assume(And(lenof(k) >= 0, lenof(k) < 1 << 31))
    own = fresh('own', 1)
    st.ghost['made'] = Z8

    def board(e, s, a, n):
        w = ptr_term(a[0])
        e.oblige(s, And(ptr_term(a[1]) == c.head(st), ptr_term(a[2]) == svc, tru(a[3]) == own), 'the-board-gets-the-service-and-the-rest-of-the-list')
        s.assume(c.sname(w) == k)
        s.ghost['board'] = w
        # a new object is none of the boards there are
        s.assume(And(*[w != x for x in (c.head(st), c.at(st, y), c.slot(st, j))]))
        log(e, s, 'made')
    y, j = fresh('other', 64), fresh('j', 64)          # any other name, any slot of the cache
    st.assume(z3.ULT(j, eng.off('SZ_CACHE') // 8))
    hk = z3.URem(hash_(k), c64(eng.off('SZ_CACHE') // 8))
    st.assume(And(c.inv_at(st, k), c.inv_at(st, y), c.inv_slot(st, j), c.inv_slot(st, hk)))
    st.assume(c.inv_at(st, c.sname(c.slot(st, j))))
    eng.contract(SBR + r'ServiceBoard\(', board)
    cnt0 = c.count(st)
    st.assume(And(cnt0 >= 0, cnt0 < 1 << 30))
    for s, r in eng.call(st.copy(), eng.find(SPR + r'RegisterService\('), [P(c.S), P(so), own]):
        eng.cover(s)
        r = tru(r)
        g = s.ghost
        b = g.get('board', c64(0))
        had = c.has(st, k)
        eng.oblige(s, r == Not(had), 'registered-exactly-when-the-name-is-free')
        eng.oblige(s, g['made'] == one(Not(had)), 'one-board-for-a-new-service-none-otherwise')
        eng.oblige(s, And(c.has(s, k), c.at(s, k) == If1(had, c.at(st, k), b)), 'found-from-now-on')
        eng.oblige(s, Implies(y != k, And(c.has(s, y) == c.has(st, y), Implies(c.has(st, y), c.at(s, y) == c.at(st, y)))), 'no-other-service-is-affected')
        eng.oblige(s, c.head(s) == If1(had, c.head(st), b), 'listed-from-now-on')
        eng.oblige(s, c.count(s) == cnt0 + If1(had, BV(0, 32), BV(1, 32)), 'counted')
        eng.oblige(s, And(c.inv_at(s, k), c.inv_at(s, y), c.inv_slot(s, j)), 'the-registry-stays-consistent')
        eng.oblige(s, g['lock'] == 0, 'the-lock-is-released')


@PROP.job('registry', 'reg')
def j_registry(eng):
    """a new registry is empty; at the end every board is deleted once; a board deletes the service it owns once"""
    c, st = pool(eng)
    y, j = fresh('name', 64), fresh('j', 64)
    st.assume(z3.ULT(j, eng.off('SZ_CACHE') // 8))
    s0 = st.copy()
    eng.contract(r'^std::map<std::__cxx11::basic_string<char.*>::map\(\)', lambda e, s, a, n: c.maps.put(s, a[0], MapV(z3.K(KS, z3.BoolVal(False)), z3.K(KS, BV(0, 64)), (), mkey(a[0]))))

    def wipe(e, s, a, n):
        p = a[0]
        if isinstance(p, P) and p.obj is c.cache:
            e.oblige(s, And(z3.BoolVal(p.off == 0 and not p.sym), a[2] == eng.off('SZ_CACHE'), a[1] == 0), 'the-whole-cache-is-emptied')
            s2 = e.wst(s, c.cache)
            s2.fields[0] = (8, AFn(lambda i: c64(0), 64))
            return True
    ms = eng.memset
    eng.memset = lambda s, d, b, n: None if wipe(eng, s, [d, b, n], '') else ms(s, d, b, n)
    for s, r in eng.call(s0, eng.find(SPR + r'ServicePool\('), [P(c.S), fresh('srv', 64)]):
        eng.cover(s)
        eng.oblige(s, And(Not(c.has(s, y)), c.head(s) == 0, c.count(s) == 0, c.slot(s, j) == 0), 'a-new-registry-is-empty')
    eng.memset = ms
    # destruction
    s1 = st.copy()
    c.maps.watch = [y]
    s1.assume(c.inv_at(s1, y))
    s1.ghost.update({'del': Z8, 'mbdel': Z8})
    pres = c.has(s1, y)
    c.maps.guard = None

    def bdel(e, s, a, n):
        w = ptr_term(a[0])
        e.oblige(s, w != 0, 'a-board-is-deleted')
        log(e, s, 'del', And(pres, w == c.at(st, y)))
    eng.contract(SBR + r'~ServiceBoard\(', bdel)
    eng.contract(r'^operator delete\(', nop)
    # different names have different boards
    c.maps.extra = lambda s, q, i, k: s.assume(Implies(z3.ULT(i, q.len), And(q.at(eng, s, i, 32, 8) != 0, c.sname(q.at(eng, s, i, 32, 8)) == k)))

    def inv(e, ctx):
        out = []
        for q in [ctx.st0.ghost[k][0] for k in ctx.st0.ghost if isinstance(k, tuple) and k[0] == 'enum']:
            for nm_, get in loop_iters(e, ctx, q.obj):
                out.append(('in-range ' + nm_, lambda s, env, get=get, q=q: z3.ULE(get(s, env), q.len)))
                for x, ix in q.obj.watch:
                    out.append(('deleted ' + nm_, lambda s, env, get=get, ix=ix: s.ghost['del'] == one(And(pres, z3.ULT(ix, get(s, env))))))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(s1, eng.find(SPR + r'~ServicePool\('), [P(c.S)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['del'] == one(pres), 'every-service-goes-once')


def chain(eng, c, st):
    """the list of boards: wordAt(0..m-1) linked, wordAt(m) = 0"""
    wordAt = z3.Function('wordAt', z3.BitVecSort(64), z3.BitVecSort(64))
    idxOf = z3.Function('idxOf', z3.BitVecSort(64), z3.BitVecSort(64))
    m = fresh('boards', 64)
    st.assume(z3.ULT(m, 1 << 20))
    c.m, c.wordAt, c.idxOf = m, wordAt, idxOf

    def facts(s, i):
        s.assume(And(Implies(z3.ULT(i, m), wordAt(i) != 0), Implies(i == m, wordAt(i) == 0), Implies(z3.ULE(i, m), idxOf(wordAt(i)) == i)))
    facts(st, c64(0))
    eng.store(st, P(c.S, eng.off('o_head')), ('ptr',), wordAt(c64(0)))

    def nxt(e, s, a, n):
        i = idxOf(ptr_term(a[0]))
        e.oblige(s, And(ptr_term(a[0]) == wordAt(i), z3.ULT(i, m)), 'follows-the-list')
        facts(s, i)
        facts(s, i + 1)
        return wordAt(i + 1)
    eng.contract(SBR + r'Next\(', nxt)
    c.facts = facts
    # where a walk over the list stands
    c.walks = lambda e, ctx: [(nm_, get) for nm_, get in loop_ints(e, ctx)]
    c.on = lambda w: And(z3.ULE(idxOf(w), m), w == wordAt(idxOf(w)), (w == 0) == (idxOf(w) == m))


@PROP.job('next-slot', 'reg')
def j_next_slot(eng):
    """a new second begins once for every service and every method"""
    c, st = pool(eng)
    chain(eng, c, st)
    w = fresh('w', 64)
    st.assume(z3.ULT(w, c.m))
    c.facts(st, w)
    st.ghost['ticks'] = Z8
    eng.contract(SBR + r'NextSlot\(', lambda e, s, a, n: log(e, s, 'ticks', ptr_term(a[0]) == c.wordAt(w)))

    def inv(e, ctx):
        out = []
        for nm_, get in c.walks(e, ctx):
            out.append(('on ' + nm_, lambda s, env, get=get: c.on(get(s, env))))
            out.append(('ticked ' + nm_, lambda s, env, get=get: s.ghost['ticks'] == one(z3.ULT(w, c.idxOf(get(s, env))))))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st.copy(), eng.find(SPR + r'NextSlot\('), [P(c.S)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['ticks'] == 1, 'once-for-every-service')


def board(eng, n=None):
    c, st = Ctx(), State()
    c.B = eng.new_obj(st, 'board', 'cells', size=eng.off('SZ_B'))
    c.n = eng.load(st, P(c.B, eng.off('b_n')), ('i', 32))
    st.assume(And(c.n >= 0, c.n < 1 << 16))
    c.M = eng.new_obj(st, 'methods', 'elems', size=z3.simplify(z3.SignExt(32, c.n) * eng.off('SZ_M')), stride=eng.off('SZ_M'))
    eng.store(st, P(c.B, eng.off('b_mb')), ('ptr',), P(c.M))
    c.seq = SeqV(c.M, c64(0), z3.SignExt(32, c.n))
    return c, st


@PROP.job('board', 'reg')
def j_board(eng):
    """the board of a service: every method has its own, and what is reported for a method goes to that one"""
    c, st = board(eng)
    w = fresh('w', 64)
    st.assume(z3.ULT(w, z3.SignExt(32, c.n)))
    at = lambda s, p: eng.elem_split(p)[0] if isinstance(p, P) and p.obj is c.M else c64(-1)
    st.ghost['ticks'] = Z8
    eng.contract(MBR + r'NextSlot\(', lambda e, s, a, n: log(e, s, 'ticks', at(s, a[0]) == w))

    def inv(e, ctx):
        out = []
        for nm_, get in loop_ints(e, ctx):
            out.append(('range ' + nm_, lambda s, env, get=get: And(get(s, env) >= 0, get(s, env) <= z3.SignExt(32, c.n))))
            out.append(('up ' + nm_, lambda s, env, get=get: s.ghost['ticks'] == one(w < get(s, env))))
            out.append(('down ' + nm_, lambda s, env, get=get: s.ghost['ticks'] == one(w >= get(s, env))))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st.copy(), eng.find(SBR + r'NextSlot\('), [P(c.B)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['ticks'] == 1, 'once-for-every-method')
    # dispatch of reports and queries
    k, ok, t = fresh('method', 32), fresh('succeed', 1), fresh('time', 64)
    s1 = st.copy()
    s1.assume(And(k >= 0, k < c.n))
    s1.ghost['rep'] = Z8

    def rep(e, s, a, n):
        e.oblige(s, And(at(s, a[0]) == z3.SignExt(32, k), tru(a[1]) == ok, a[2] == t), 'reported-to-the-board-of-the-method')
        log(e, s, 'rep')
    eng.contract(MBR + r'ReportProcessEnd\(', rep)
    for s, r in eng.call(s1.copy(), eng.find(SBR + r'ReportProcessEnd\('), [P(c.B), k, ok, t]):
        eng.cover(s)
        eng.oblige(s, s.ghost['rep'] == 1, 'reported-once')
    for s, r in eng.call(s1.copy(), eng.find(SBR + r'Method\('), [P(c.B), k]):
        eng.cover(s)
        eng.oblige(s, at(s, r) == z3.SignExt(32, k), 'the-board-of-the-method')

    def latest(e, s, a, n):
        e.oblige(s, And(at(s, a[0]) == z3.SignExt(32, k), a[1] == BV(7, 32), ptr_term(a[2]) == 4096), 'asks-the-board-of-the-method')
        log(e, s, 'rep')
    eng.contract(MBR + r'LatestStats\(', latest)
    for s, r in eng.call(s1.copy(), eng.find(SBR + r'LatestStats\(int, int, sofa::pbrpc::builtin::MethodStat'), [P(c.B), k, BV(7, 32), c64(4096)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['rep'] == 1, 'asked-once')


@PROP.job('board-new', 'reg')
def j_board_new(eng):
    """a new board knows its service and gives every method its own board with the right descriptor; at the end the service goes if it is owned"""
    c, st = Ctx(), State()
    c.B = eng.new_obj(st, 'board', 'cells', size=eng.off('SZ_B'))
    n = fresh('methods', 32)
    st.assume(And(n >= 0, n < 1 << 16))
    svc = eng.new_obj(st, 'service', 'cells', size=64)
    vt = eng.new_obj(st, 'vt', 'cells', size=4096)
    eng.store(st, P(svc), ('ptr',), P(vt))
    desc = fresh('desc', 64)
    meth = z3.Function('method', z3.BitVecSort(64), z3.BitVecSort(64))
    st.ghost['svcdel'] = Z8

    def virt(e, s, fp, args, d):
        if d.get('ret') in (('void',), None) or str(d.get('ret')) in ('void', "('void',)"):
            log(e, s, 'svcdel', z3.BoolVal(isinstance(args[0], P) and args[0].obj is svc))
            return None
        return desc
    eng.indirect = lambda e, s, fp, args, d: (desc if s.ghost.get('phase') is None else log(e, s, 'svcdel', z3.BoolVal(isinstance(args[0], P) and args[0].obj is svc)))
    C = eng.contract
    C(r'^google::protobuf::ServiceDescriptor::method_count', lambda e, s, a, n_: (e.oblige(s, ptr_term(a[0]) == desc, 'of-its-service'), n)[1])

    def method(e, s, a, n_):
        i = z3.SignExt(32, a[1])
        e.oblige(s, And(ptr_term(a[0]) == desc, i >= 0, i < z3.SignExt(32, n)), 'a-method-of-its-service')
        return meth(i)
    C(r'^google::protobuf::ServiceDescriptor::method\(', method)
    C(MBR + r'MethodBoard\(', nop)

    def newarr(e, s, a, n_):
        o = e.new_obj(s, 'methods', 'elems', size=a[0], stride=eng.off('SZ_M'))
        s.ghost['arr'] = o
        e.oblige(s, z3.UGE(a[0], z3.SignExt(32, n) * eng.off('SZ_M')), 'room-for-every-method')
        return P(o)
    C(r'^operator new\[\]\(', newarr)
    C(r'.*operator delete', nop)
    w = fresh('w', 64)
    st.assume(z3.ULT(w, z3.SignExt(32, n)))

    def arr_of(s):
        p = eng.load(s, P(c.B, eng.off('b_mb')), ('ptr',))
        return p

    def good(s):
        p = arr_of(s)
        if not isinstance(p, P):
            return FALSE
        q = SeqV(p.obj, c64(0), z3.SignExt(32, n))
        at = P(p.obj, p.off, p.sym).addsym(w, eng.off('SZ_M'))
        return And(ptr_term(eng.load(s, at.add(eng.off('m_sb')), ('ptr',))) == c.B.addr, ptr_term(eng.load(s, at.add(eng.off('m_desc')), ('ptr',))) == meth(w))

    def inv(e, ctx):
        out = []
        for nm_, get in loop_ints(e, ctx):
            out.append(('range ' + nm_, lambda s, env, get=get: And(get(s, env) >= 0, get(s, env) <= z3.SignExt(32, n))))
            out.append(('set ' + nm_, lambda s, env, get=get: Implies(w < get(s, env), good(s))))
        return out
    eng.loopspecs.append((r'ServiceBoard::ServiceBoard', inv))
    nx, own = fresh('next', 64), fresh('own', 1)
    for s, r in eng.call(st.copy(), eng.find(SBR + r'ServiceBoard\('), [P(c.B), nx, P(svc), own]):
        eng.cover(s)
        L = lambda o: ptr_term(eng.load(s, P(c.B, eng.off(o)), ('ptr',)))
        eng.oblige(s, And(L('b_next') == nx, L('b_svc') == svc.addr, L('b_desc') == desc, eng.load(s, P(c.B, eng.off('b_n')), ('i', 32)) == n), 'knows-its-service-and-the-next')
        eng.oblige(s, (eng.load(s, P(c.B, eng.off('b_own')), ('i', 8)) != 0) == own, 'knows-whether-it-owns-the-service')
        eng.oblige(s, good(s), 'every-method-has-its-own-board')


SLOT = ('t_sc', 't_st', 't_sm', 't_fc', 't_ft', 't_fm', 't_id')


def method(eng):
    c, st = Ctx(), State()
    c.M = eng.new_obj(st, 'mboard', 'cells', size=eng.off('SZ_M'))
    N = eng.off('N_SLOTS')
    c.N = N
    c.slots = eng.region(st, c.M, eng.off('m_slots'), eng.off('SZ_SLOTS'), 'slots', 'elems', eng.off('SZ_T'))
    c.idx = lambda s: eng.load(s, P(c.M, eng.off('m_idx')), ('i', 32))
    c.id = lambda s: eng.load(s, P(c.M, eng.off('m_id')), ('i', 64))
    i0, d0 = c.idx(st), c.id(st)
    st.assume(And(i0 >= 0, i0 < N, d0 >= 0, d0 < 1 << 40))
    c.f = lambda s, f, i: eng.load(s, elem_ptr(SeqV(c.slots, c64(0), c64(N)), i).add(eng.off(f)), ('i', 64))
    return c, st


@PROP.job('report', 'reg')
def j_report(eng):
    """a finished call is counted in the running second: as succeeded or failed, with its time in the sum and the maximum; a new second starts from zero"""
    c, st = method(eng)
    i0 = z3.SignExt(32, c.idx(st))
    j = fresh('j', 64)
    st.assume(z3.ULT(j, c.N))
    ok, t = fresh('succeed', 1), fresh('time', 64)
    V = {f: c.f(st, f, i0) for f in SLOT}
    J = {f: c.f(st, f, j) for f in SLOT}
    for s, r in eng.call(st.copy(), eng.find(MBR + r'ReportProcessEnd\('), [P(c.M), ok, t]):
        eng.cover(s)
        mx = lambda a, b: If1(a < b, b, a)
        for f, good in (('t_sc', V['t_sc'] + If1(ok, c64(1), c64(0))), ('t_st', V['t_st'] + If1(ok, t, c64(0))), ('t_sm', If1(ok, mx(V['t_sm'], t), V['t_sm'])),
                        ('t_fc', V['t_fc'] + If1(ok, c64(0), c64(1))), ('t_ft', V['t_ft'] + If1(ok, c64(0), t)), ('t_fm', If1(ok, V['t_fm'], mx(V['t_fm'], t)))):
            eng.oblige(s, c.f(s, f, i0) == good, 'counted-once:' + f)
        eng.oblige(s, Implies(j != i0, And(*[c.f(s, f, j) == J[f] for f in SLOT])), 'no-other-second-is-touched')
        eng.oblige(s, And(c.idx(s) == c.idx(st), c.id(s) == c.id(st)), 'the-second-stays')
    for s, r in eng.call(st.copy(), eng.find(MBR + r'NextSlot\('), [P(c.M)]):
        eng.cover(s)
        i1 = z3.SignExt(32, c.idx(s))
        eng.oblige(s, And(c.idx(s) >= 0, c.idx(s) < c.N, i1 == If1(i0 == c.N - 1, c64(0), i0 + 1)), 'the-next-slot-of-the-ring')
        eng.oblige(s, c.id(s) == c.id(st) + 1, 'the-seconds-are-counted')
        eng.oblige(s, And(*[c.f(s, f, i1) == 0 for f in SLOT[:6]]), 'the-new-second-starts-from-zero')
        eng.oblige(s, Implies(j != i1, And(*[c.f(s, f, j) == J[f] for f in SLOT[:6]])), 'the-past-seconds-stay')


def latest_of(F):
  def j_latest(eng):
    """the statistics of the last n seconds are the sums and maxima over exactly those complete seconds, fewer only if there were fewer"""
    c, st = method(eng)
    n0 = fresh('n', 32)
    st.assume(And(n0 > 0, n0 <= c.N - 2))
    i0, d0 = z3.SignExt(32, c.idx(st)), c.id(st)
    out = eng.new_obj(st, 'out', 'cells', size=eng.off('SZ_T'))
    prev = lambda i: If1(i == 0, c64(c.N - 1), i - 1)                           # going back in the ring
    past = z3.Function('past', z3.BitVecSort(64), z3.BitVecSort(64))            # the slot k seconds before the last complete one
    st.assume(past(c64(0)) == prev(i0))
    m = If1(z3.SignExt(32, n0) < d0, z3.SignExt(32, n0), d0)                    # how many seconds there are to add up
    S = {f: z3.Function('S' + f, z3.BitVecSort(64), z3.BitVecSort(64)) for f in SLOT}
    zero = lambda f: S[f](c64(0)) == 0
    raw = lambda f, i: eng.elem_field(st, c.slots, st.mem[c.slots.id], eng.off(f), 8).get(i)

    def defs(s, k):
        s.assume(And(past(k + 1) == prev(past(k)), past(k) >= 0, past(k) < c.N))
        for f in F:
            v = raw(f, past(k))
            s.assume(Implies(z3.ULT(k, c.N), S[f](k + 1) == (If1(S[f](k) < v, v, S[f](k)) if f in ('t_sm', 't_fm') else S[f](k) + v)))
    for f in F:
        st.assume(zero(f))
    defs(st, c64(0))
    got = lambda s, f: eng.load(s, P(out, eng.off(f)), ('i', 64))

    def inv(e, ctx):
        r = []
        ints = loop_ints(e, ctx)
        first = {nm_: get(ctx.st0, ctx.env0) for nm_, get in ints}
        for nm_, get in ints:
            for sgn in (1, -1):
                starts = lambda v: z3.simplify(v).eq(z3.simplify(first[nm_]))
                if not starts(c64(0)) if sgn > 0 else not (starts(z3.SignExt(32, n0)) or starts(z3.SignExt(32, n0) - 1)):
                    continue
                k = lambda s, env, get=get, nm_=nm_, sgn=sgn: z3.simplify((get(s, env) - first[nm_]) * sgn)
                tag = '%s%s ' % ('+' if sgn > 0 else '-', nm_)
                r.append(('count ' + tag, lambda s, env, k=k: And(k(s, env) >= 0, k(s, env) <= m)))
                for f in F:
                    def eqf(s, env, k=k, f=f):
                        defs(s, k(s, env))
                        return got(s, f) == S[f](k(s, env))
                    r.append(('sum %s%s' % (tag, f), eqf))
                r.append(('id ' + tag, lambda s, env, k=k: got(s, 't_id') == If1(k(s, env) == 0, c64(0), d0 - k(s, env))))
                for nm2, g2 in ints:
                    if nm2 != nm_:
                        r.append(('step %s%s' % (tag, nm2), lambda s, env, k=k, g2=g2, nm2=nm2: g2(s, env) == first[nm2] - k(s, env)))
                        r.append(('ring %s%s' % (tag, nm2), lambda s, env, k=k, g2=g2, nm2=nm2: g2(s, env) == past(k(s, env))))
        return r
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st.copy(), eng.find(MBR + r'LatestStats\(int, sofa::pbrpc::StatSlot'), [P(c.M), n0, P(out)]):
        eng.cover(s)
        for f in F:
            eng.oblige(s, got(s, f) == S[f](m), 'adds-up:' + f)
        eng.oblige(s, got(s, 't_id') == If1(m == 0, c64(0), d0 - m), 'says-where-it-starts')
  PROP.job('latest-' + F[0][2:], 'reg')(j_latest)


for f_ in (SLOT[:3], SLOT[3:6]):
    latest_of(f_)


@PROP.job('period', 'reg')
def j_period(eng):
    """any period asked for gives a number of seconds there is room for: as many as asked, at least one, at most 600"""
    c, st = board(eng)
    rp, rc = eng.new_obj(st, 'rp', 'cells', size=8), eng.new_obj(st, 'rc', 'cells', size=4)
    ask = fresh('ask', 64)
    for s, r in eng.call(st.copy(), eng.find(SBR + r'GetRealPeriod\('), [P(c.B), ask, P(rp), P(rc)]):
        eng.cover(s)
        n = z3.SignExt(32, eng.load(s, P(rc), ('i', 32)))
        lim = eng.off('N_SLOTS') - 2
        eng.oblige(s, n == If1(ask < 1, c64(1), If1(ask > lim, c64(lim), ask)), 'as-many-seconds-as-asked-within-what-is-kept')
        eng.oblige(s, eng.load(s, P(rp), ('i', 64)) == n, 'says-how-many')


@PROP.job('list', 'reg')
def j_list(eng):
    """the list of services has every registered service once and nothing else"""
    c, st = pool(eng)
    chain(eng, c, st)
    w, z = fresh('w', 64), fresh('z', 64)
    st.assume(z3.ULT(w, c.m))
    c.facts(st, w)
    y = c.sname(c.wordAt(w))
    named = lambda s, i: s.assume(Implies(And(z3.ULT(i, c.m), c.sname(c.wordAt(i)) == y), i == w))     # no two services have the same name: proved in 'register'
    out = eng.new_obj(st, 'out', 'cells', size=64)
    st.ghost.update({'cleared': Z8, 'push': Z8, 'other': Z8})
    is_out = lambda e, s, p: (lambda q: isinstance(q, P) and q.obj is out)(e.materialise(s, p))
    LST = r'^std::(__cxx11::)?list<sofa::pbrpc::ServiceBoard\*.*>::'
    eng.contract(LST + r'clear\(', lambda e, s, a, n: (e.oblige(s, And(z3.BoolVal(is_out(e, s, a[0])), s.ghost['push'] == 0), 'clears-the-list-first'), e.setghost(s, 'cleared', BV(1, 8)))[0] and None)

    def push(e, s, a, n):
        v = ptr_term(e.load(s, a[1], ('ptr',)))
        e.oblige(s, And(z3.BoolVal(is_out(e, s, a[0])), s.ghost['cleared'] == 1), 'into-the-emptied-list')
        i = c.idxOf(v)
        e.oblige(s, And(z3.ULT(i, c.m), v == c.wordAt(i)), 'only-registered-services')
        log(e, s, 'push', v == c.wordAt(w))
    eng.contract(LST + r'push_back\(', push)
    eng.contract(r'^std::map<std::__cxx11::basic_string<char.*>::map\(\)', lambda e, s, a, n: (c.maps.put(s, a[0], MapV(z3.K(KS, z3.BoolVal(False)), z3.K(KS, BV(0, 64)), (), mkey(a[0]))), e.setghost(s, 'tmp', a[0]))[0])
    eng.contract(r'^std::map<std::__cxx11::basic_string<char.*>::~map\(\)', nop)
    good = lambda k, v: And(c.sname(v) == k, z3.ULT(c.idxOf(v), c.m), v == c.wordAt(c.idxOf(v)))

    def extra(s, q, i, k):
        # z was arbitrary: what was proved for it holds for every key
        v = q.at(eng, s, i, 32, 8)
        s.assume(Implies(z3.ULT(i, q.len), good(k, v)))
        named(s, c.idxOf(v))
        s.assume(Implies(And(z3.ULT(i, q.len), k == y), v == c.wordAt(w)))       # what was proved for w
    c.maps.extra = extra
    c.maps.watch = [y]
    T = lambda s: c.maps.get(s, s.ghost['tmp'])

    def inv(e, ctx):
        r = []
        enums = [ctx.st0.ghost[k][0] for k in ctx.st0.ghost if isinstance(k, tuple) and k[0] == 'enum']
        for q in enums:
            for nm_, get in loop_iters(e, ctx, q.obj):
                r.append(('in-range ' + nm_, lambda s, env, get=get, q=q: z3.ULE(get(s, env), q.len)))
                for x, ix in q.obj.watch:
                    r.append(('listed ' + nm_, lambda s, env, get=get, ix=ix: s.ghost['push'] == one(z3.ULT(ix, get(s, env)))))
        if not enums:
            for nm_, get in c.walks(e, ctx):
                r.append(('on ' + nm_, lambda s, env, get=get: c.on(get(s, env))))

                def seen(s, env, get=get):
                    named(s, c.idxOf(get(s, env)))
                    return And(c.maps.has(s, T(s), y) == z3.ULT(w, c.idxOf(get(s, env))), Implies(c.maps.has(s, T(s), y), c.maps.at(s, T(s), y) == c.wordAt(w)))
                r.append(('seen ' + nm_, seen))
            r.append(('good', lambda s, env: Implies(c.maps.has(s, T(s), z), good(z, c.maps.at(s, T(s), z)))))
        return r
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st.copy(), eng.find(SPR + r'ListService\(std::__cxx11::list<sofa::pbrpc::ServiceBoard\*'), [P(c.S), P(out)]):
        eng.cover(s)
        eng.oblige(s, And(s.ghost['push'] == 1, s.ghost['cleared'] == 1), 'every-service-once')


@PROP.job('hash', 'reg')
def j_hash(eng):
    """hashing a name reads its bytes and nothing else, for every length"""
    st = State()
    n = fresh('len', 32)
    st.assume(And(n >= 0, n < 1 << 30))
    n8 = z3.SignExt(32, n)
    key = eng.new_obj(st, 'key', 'bytes', size=n8)

    def inv(e, ctx):
        r = []
        vs = [(nm_, (lambda s, env, nm_=nm_: env[nm_])) for nm_, ty in ctx.phis if isinstance(ctx.env0[nm_], P) and ctx.env0[nm_].obj is key]
        for oid, o in stack_objs(e, ctx):
            for off, (size, v) in list(ctx.st0.mem[oid].cells.items()):
                if isinstance(v, P) and v.obj is key:
                    vs.append(('%d+%d' % (oid, off), lambda s, env, oid=oid, off=off: s.mem[oid].cells[off][1]))
        for nm_, get in vs:
            r.append(('inside ' + nm_, lambda s, env, get=get: And(z3.ULE(get(s, env).offterm(), n8 & ~c64(7)), get(s, env).offterm() & 7 == 0)))
        return r
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st.copy(), eng.find(r'^sofa::pbrpc::murmurhash\(void const\*, int\)'), [P(key), n]):
        eng.cover(s)


# ---------------------------------------------------------------- the builtin service
PROP.tu('bi', '''#include "vfstd.h"
#include <list>
#include <google/protobuf/service.h>
#define private public
#define protected public
#include <sofa/pbrpc/builtin_service_impl.cc>
using namespace sofa::pbrpc;
typedef sofa::pbrpc::builtin::BuiltinServiceImpl BI;
extern "C" void vf_run(void*); extern "C" void vf_failed(void*);
struct TD : public google::protobuf::Closure { virtual void Run() { vf_run(this); } };
struct TC : public google::protobuf::RpcController { virtual void Reset() {} virtual bool Failed() const { return false; } virtual std::string ErrorText() const { return ""; } virtual void StartCancel() {} virtual void SetFailed(const std::string&) { vf_failed(this); }
  virtual bool IsCanceled() const { return false; } virtual void NotifyOnCancel(google::protobuf::Closure*) {} };
extern "C" void vf_use(TC* c, TD* d) { new (c) TC; new (d) TD; }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(i_srv, BI, _rpc_server) OFF(i_pool, BI, _service_pool) OFF(i_dis, BI, _disable_list_service) OFF(i_n, BI, _list_service_last_count) OFF(i_rsp, BI, _list_service_last_response)
OFF(p_mc, RpcServerOptions, max_connection_count) OFF(p_ka, RpcServerOptions, keep_alive_time) OFF(p_mp, RpcServerOptions, max_pending_buffer_size) OFF(p_ti, RpcServerOptions, max_throughput_in) OFF(p_to, RpcServerOptions, max_throughput_out)
OFF(p_wt, RpcServerOptions, work_thread_num) OFF(p_db, RpcServerOptions, disable_builtin_services) OFF(p_dl, RpcServerOptions, disable_list_service)
extern "C" const unsigned long SZ_I = sizeof(BI), SZ_O = sizeof(RpcServerOptions);
''')
BIR = r'^sofa::pbrpc::builtin::'
RST = r'^sofa::pbrpc::RpcServerImpl::'
UPD = (('max_connection_count', 'p_mc'), ('keep_alive_time', 'p_ka'), ('max_pending_buffer_size', 'p_mp'), ('max_throughput_in', 'p_ti'), ('max_throughput_out', 'p_to'))


def builtin(eng):
    c, st = Ctx(), State()
    C = eng.contract
    smart(eng)
    c.I = eng.new_obj(st, 'impl', 'cells', size=eng.off('SZ_I'))
    c.srv, c.pool = fresh('srv', 64), fresh('pool', 64)
    st.assume(And(c.srv != 0, c.pool != 0))
    eng.store(st, P(c.I, eng.off('i_srv')), ('ptr',), c.srv)
    eng.store(st, P(c.I, eng.off('i_pool')), ('ptr',), c.pool)
    st.assume(z3.ULE(eng.load(st, P(c.I, eng.off('i_dis')), ('i', 8)), 1))
    c.ctl, c.don = eng.new_obj(st, 'controller', 'cells', size=8), eng.new_obj(st, 'done', 'cells', size=8)
    eng.set_vptr(st, c.ctl, 'TC')
    eng.set_vptr(st, c.don, 'TD')
    c.req, c.rsp = fresh('request', 64), fresh('response', 64)
    st.assume(And(c.req != 0, c.rsp != 0, c.req != c.rsp))
    st.ghost.update({'run': Z8, 'failed': Z8, 'reset': Z8, 'stats': Z8, 'asked': Z8, 'told': Z8})

    def before(e, s, a, n):
        e.oblige(s, s.ghost['run'] == 0, 'the-answer-is-complete-when-done-runs')
    c.before = before

    def run(e, s, a, n):
        before(e, s, a, n)
        e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.don), 'runs-the-closure-of-the-call')
        log(e, s, 'run')
    C(r'^vf_run', run)

    def failed(e, s, a, n):
        before(e, s, a, n)
        e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.ctl), 'tells-the-controller-of-the-call')
        log(e, s, 'failed')
    C(r'^vf_failed', failed)
    C(STR + r'(basic_string<.*>\(char const\*|~basic_string)', nop)
    C(r'^std::__new_allocator|^std::allocator', nop)
    C(r'^google::protobuf::internal::HasBits<1ul>::operator\[\]', lambda e, s, a, n: P(e.new_obj(s, 'hasbits', 'cells', size=8)))
    C(r'^google::protobuf::MessageLite::GetArenaForAllocation', lambda e, s, a, n: c64(0))
    C(r'google::protobuf::internal::ArenaStringPtr::Set\(', before)
    C(BIR + r'(\w+Response|ServerOptions|ServiceStat)::(set_\w+|Clear|CopyFrom)\(', before)
    C(BIR + r'\w+Response::(mutable_|add_)\w+\(', lambda e, s, a, n: (before(e, s, a, n), z3.Function('partof', z3.BitVecSort(64), z3.BitVecSort(64))(ptr_term(a[0])))[1])
    c.ask = {f: fresh('ask_' + f, 32) for f, _ in UPD}
    c.has = {f: fresh('has_' + f, 1) for f, _ in UPD}
    c.has_options = fresh('has_options', 1)
    for f, _ in UPD:
        C(BIR + r'ServerOptions::has_%s\(\) const' % f, lambda e, s, a, n, f=f: c.has[f])
        C(BIR + r'ServerOptions::%s\(\) const' % f, lambda e, s, a, n, f=f: c.ask[f])
    C(BIR + r'UpdateOptionsRequest::has_options\(\) const', lambda e, s, a, n: c.has_options)
    C(BIR + r'UpdateOptionsRequest::options\(\) const', lambda e, s, a, n: c64(4096))
    isrv = lambda e, s, w: e.oblige(s, ptr_term(w) == c.srv, 'of-this-server')
    ipool = lambda e, s, w: e.oblige(s, ptr_term(w) == c.pool, 'of-this-registry')
    c.cur = eng.new_obj(st, 'current', 'cells', size=eng.off('SZ_O'))
    words = list(range(0, eng.off('SZ_O') // 8 * 8, 8))
    c.opt = lambda s, o, f, w=32: eng.load(s, P(o, eng.off(f)), ('i', w))

    def options(e, s, a, n):
        isrv(e, s, a[1])
        for w in words:
            e.store(s, a[0].add(w), ('i', 64), e.load(s, P(c.cur, w), ('i', 64)))
    C(RST + r'GetOptions\(\)', options)
    for w in words:
        eng.load(st, P(c.cur, w), ('i', 64))
    C(RST + r'(IsListening)\(\)', lambda e, s, a, n: (isrv(e, s, a[0]), fresh('listening', 1))[1])
    C(RST + r'(ConnectionCount|ServiceCount)\(\)', lambda e, s, a, n: (isrv(e, s, a[0]), fresh('count', 32))[1])
    C(RST + r'GetStartTime\(\)', lambda e, s, a, n: isrv(e, s, a[1] if len(a) > 1 else a[0]))
    C(r'ptime_to_string', nop)

    def pend(e, s, a, n):
        isrv(e, s, a[0])
        for p in a[1:4]:
            e.store(s, p, ('i', 64), fresh('pending', 64))
    C(RST + r'GetPendingStat\(', pend)
    C(r'^sofa::pbrpc::internal::get_log_level', lambda e, s, a, n: fresh('level', 32))
    C(r'^sofa::pbrpc::internal::log_handler', nop)
    C(r'^sofa::pbrpc::ScopedLocker<', nop)
    C(SPR + r'ServiceCount\(\)', lambda e, s, a, n: (ipool(e, s, a[0]), c.nsvc)[1])
    c.nsvc = fresh('services', 32)
    return c, st


def answers(eng, c, st, fn, check=lambda s: None):
    for s, r in eng.call(st.copy(), eng.find(BIR + r'BuiltinServiceImpl::%s\(google::protobuf::RpcController' % fn), [P(c.I), P(c.ctl), c.req, c.rsp, P(c.don)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['run'] == 1, 'answered-once:' + fn)
        check(s)


@PROP.job('builtin', 'bi')
def j_builtin(eng):
    """every builtin method answers exactly once, after the answer is complete; changed options are the old ones with exactly the given ones replaced; statistics are those of the service and the period asked for"""
    c, st = builtin(eng)
    g = lambda s, k: s.ghost[k]

    def reset(e, s, a, n):
        c.before(e, s, a, n)
        isrv = ptr_term(a[0]) == c.srv
        e.oblige(s, And(isrv, c.has_options, Or(*c.has.values())), 'changes-options-only-when-some-are-given')
        o = a[1].obj
        for f, off in UPD:
            e.oblige(s, c.opt(s, o, off) == If1(c.has[f], c.ask[f], c.opt(s, c.cur, off)), 'the-given-value-or-the-old:' + f)
        e.oblige(s, And(c.opt(s, o, 'p_wt') == c.opt(s, c.cur, 'p_wt'), c.opt(s, o, 'p_db', 8) == c.opt(s, c.cur, 'p_db', 8)), 'the-other-options-stay')
        log(e, s, 'reset')
    eng.contract(RST + r'ResetOptions\(', reset)
    answers(eng, c, st, 'ServerOptions')
    answers(eng, c, st, 'ServerStatus')
    answers(eng, c, st, 'UpdateOptions', lambda s: eng.oblige(s, g(s, 'reset') + g(s, 'failed') == 1, 'changed-or-refused'))


@PROP.job('builtin-stat', 'bi')
def j_builtin_stat(eng):
    """statistics are those of the service and the period asked for, or of all services; an unknown service is an error"""
    c, st = builtin(eng)
    g = lambda s, k: s.ghost[k]
    C = eng.contract
    all_, per, brd = fresh('all', 1), fresh('period', 64), fresh('board', 64)
    C(r'^(bool )?std::operator==.*basic_string<.*char const\*', lambda e, s, a, n: all_)
    C(BIR + r'StatRequest::service_name(\[abi:cxx11\])?\(\) const', lambda e, s, a, n: P(e.new_obj(s, 'asked', 'cells', size=32, addr=c64(8192))))
    C(BIR + r'StatRequest::period_seconds\(\) const', lambda e, s, a, n: per)
    C(SPR + r'RpcServer\(\)', lambda e, s, a, n: c.srv)

    def find(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == c.pool, ptr_term(a[1]) == 8192, Not(all_)), 'looks-for-the-service-asked-for')
        log(e, s, 'asked')
        return brd
    C(SPR + r'FindService\(', find)
    i0 = fresh('i', 64)
    posOf = z3.Function('posOf', z3.BitVecSort(64), z3.BitVecSort(64))     # the list has every service once: proved in 'list'

    def inv(e, ctx):
        v = ctx.st0.ghost.get('boards')
        out = []
        for nm_, get in (loop_iters(e, ctx, v.obj) if v is not None else []):
            def at(s, env, get=get):
                i = get(s, env) - v.lo
                s.assume(Implies(z3.ULT(i, v.len), posOf(v.at(e, s, i, 0, 8)) == i))
                return And(z3.ULE(i, v.len), s.ghost['stats'] == one(z3.ULT(i0, i)))
            out.append(('asked ' + nm_, at))
        return out
    eng.loopspecs.append(('.', inv))

    def lst(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == c.pool, all_), 'lists-only-when-all-are-asked-for')
        v = get_seq(e, s, a[1], 'sofa::pbrpc::ServiceBoard*')
        v2 = SeqV(v.obj, v.lo, fresh('boards', 64))
        s.assume(z3.ULT(v2.len, 1 << 20))
        s.assume(z3.ULT(i0, v2.len))
        put_seq(e, s, a[1], v2)
        s.ghost['boards'] = v2
        log(e, s, 'asked')
    C(SPR + r'ListService\(std', lst)

    def latest(e, s, a, n):
        c.before(e, s, a, n)
        e.oblige(s, a[1] == per, 'for-the-period-asked-for')
        e.oblige(s, ptr_term(a[2]) == z3.Function('partof', z3.BitVecSort(64), z3.BitVecSort(64))(c.rsp), 'into-the-answer')
        v = s.ghost.get('boards')
        e.oblige(s, Implies(Not(all_), And(ptr_term(a[0]) == brd, brd != 0)), 'of-the-service-asked-for')
        if v is not None:
            i = posOf(ptr_term(a[0]))
            e.oblige(s, And(z3.ULT(i, v.len), ptr_term(a[0]) == v.at(e, s, i, 0, 8)), 'of-a-listed-service')
            log(e, s, 'stats', i == i0)
        else:
            log(e, s, 'stats')
    C(SBR + r'LatestStats\(long, ', latest)

    def check(s):
        eng.oblige(s, g(s, 'asked') + g(s, 'failed') >= 1, 'asked-the-registry')
        eng.oblige(s, Implies(Not(all_), g(s, 'stats') == one(g(s, 'failed') == 0)), 'statistics-or-an-error')
        eng.oblige(s, Implies(And(g(s, 'asked') == 1, Not(all_)), (g(s, 'failed') == 1) == (brd == 0)), 'an-error-exactly-for-an-unknown-service')
    st1 = st.copy()
    st1.assume(Not(all_))
    answers(eng, c, st1, 'Stat', check)
    st2 = st.copy()
    st2.assume(all_)
    answers(eng, c, st2, 'Stat', lambda s: eng.oblige(s, If1(g(s, 'failed') == 1, g(s, 'asked') == 0, g(s, 'stats') == 1), 'statistics-of-every-service-once'))


@PROP.job('builtin-health', 'bi')
def j_builtin_health(eng):
    """the health answer: while the server lives"""
    c, st = builtin(eng)
    smart(eng, weak_may_expire=False)
    answers(eng, c, st, 'Health')


@PROP.job('builtin-list', 'bi')
def j_builtin_list(eng):
    """the list of services is made from the registry, or what it was when the number of services is the same"""
    c, st = builtin(eng)
    eng.contract(SPR + r'ListService\(sofa', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == c.pool, 'from-the-registry'), log(e, s, 'asked'))[1])
    dis = eng.load(st, P(c.I, eng.off('i_dis')), ('i', 8)) != 0
    last = eng.load(st, P(c.I, eng.off('i_n')), ('i', 32))
    answers(eng, c, st, 'ListService', lambda s: (eng.oblige(s, Implies(dis, And(s.ghost['failed'] == 1, s.ghost['asked'] == 0)), 'refused-when-disabled'),
                                                  eng.oblige(s, Implies(And(s.ghost['failed'] == 0, last != c.nsvc), s.ghost['asked'] == 1), 'from-the-registry-when-something-was-added')))
