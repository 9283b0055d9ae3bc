"""Contracts for the code that assembles one wire message: header room, meta, body, header.  The ghost state follows the buffer;
every deviation from "header, meta, body, and the header states the sizes" is an obligation at the place where it shows."""
import z3
from .engine import *
from .std import *
from .spec import *

MT = r'^sofa::pbrpc::RpcMeta::'
WB = r'^sofa::pbrpc::WriteBuffer::'


def If1(a, b, c_):
    return And(Implies(a, b), Implies(Not(a), c_))


class Msg:
    """fields: {name: width} of RpcMeta; meta_ok(e, s, g): obligations when the meta is serialised; comp: the compression in force (or None:
    no body); body: the message to send"""

    def __init__(self, eng, st, fields, strings, meta_ok, comp=None, body=None, hsize=24, none=0, magic=0, offs=(4, 8, 16)):
        z = c64(0)
        st.ghost.update({'bytes': fresh('bytes', 64), 'metalen': c64(-1), 'datalen': z, 'hdrat': c64(-1), 'hdrok': BV(0, 8), 'flushed': BV(0, 8),
                         'packed': BV(0, 8), 'out': c64(0), 'stage': z, 'ser': BV(0, 8)})
        self.comp, self.body = comp, body
        C = eng.contract

        def setter(f):
            def h(e, s, a, n):
                v = a[1]
                e.setghost(s, 'm:' + f, v if z3.is_bv(v) else z3.If(v, BV(1, 8), BV(0, 8)))
                e.setghost(s, 'has:' + f, BV(1, 8))
            return h
        for f, w in fields.items():
            C(MT + r'set_%s\(' % f, setter(f))
            st.ghost['m:' + f] = BV(0, w)
            st.ghost['has:' + f] = BV(0, 8)
            C(MT + r'%s\(\) const' % f, lambda e, s, a, n, f=f: s.ghost['m:' + f])
            C(MT + r'has_%s\(\) const' % f, lambda e, s, a, n, f=f: s.ghost['has:' + f] == 1)
        C(MT + r'RpcMeta\(\)', lambda e, s, a, n: s.ghost.__setitem__('metaobj', a[0]))
        C(MT + r'~RpcMeta', nop)
        C(r'^google::protobuf::internal::HasBits<1ul>::operator\[\]', lambda e, s, a, n: P(e.new_obj(s, 'hasbits', 'cells', size=8)))
        C(r'^google::protobuf::MessageLite::GetArenaForAllocation', lambda e, s, a, n: c64(0))

        # string fields: strings = {name: (arr, len)}; the text given must be one of them
        for f in strings:
            st.ghost['has:' + f] = BV(0, 8)

        def setstr(e, s, a, n):
            v = get_str(e, s, a[1])
            k = fresh('k', 64)
            (f, (arr, ln)), = strings.items()
            e.oblige(s, And(v.len == ln, Implies(z3.ULT(k, ln), str_arr(e, s, v).get(k) == arr.get(k))), 'states-the-' + f)
            e.setghost(s, 'has:' + f, BV(1, 8))
        C(r'^(void )?google::protobuf::internal::ArenaStringPtr::Set', setstr)
        for f in strings:
            C(MT + r'(_internal_)?set_%s' % f, setstr)

        def isbuf(e, s, p):
            w = s.ghost.get('wb')
            e.oblige(s, z3.BoolVal(isinstance(p, P) and w is not None and p.obj is w.obj and p.off == w.off), 'the-buffer-of-this-message')

        def grow(e, s, what):
            k = fresh(what, 64)
            s.assume(z3.ULT(k, 1 << 30))
            e.setghost(s, 'bytes', z3.simplify(s.ghost['bytes'] + k))
            return k

        def wctor(e, s, a, n):
            s.ghost['wb'] = a[0]
            e.setghost(s, 'bytes', c64(0))
            e.setghost(s, 'stage', c64(0))
        C(WB + r'WriteBuffer\(\)', wctor)
        C(WB + r'~WriteBuffer', nop)
        C(WB + r'set_base_block_factor', nop)

        def reserve(e, s, a, n):
            isbuf(e, s, a[0])
            s2 = s.copy()
            e.setghost(s, 'hdrat', s.ghost['bytes'])
            e.setghost(s, 'bytes', z3.simplify(s.ghost['bytes'] + sx(a[1])))
            e.oblige(s, And(sx(a[1]) == hsize, s.ghost['stage'] == 0), 'makes-room-for-the-header-first')
            e.setghost(s, 'stage', c64(1))
            e.setghost(s2, 'ser', BV(1, 8))
            return [(s2, BV(-1, 64)), (s, s.ghost['hdrat'])]
        C(WB + r'Reserve\(', reserve)
        C(WB + r'ByteCount\(\) const', lambda e, s, a, n: (isbuf(e, s, a[0]), s.ghost['bytes'])[1])

        def ser(e, s, a, n):
            ok, bad = s, s.copy()
            m = s.ghost.get('metaobj')
            if isinstance(a[0], P) and m is not None and a[0].obj is m.obj:
                isbuf(e, ok, a[1])
                meta_ok(e, ok, ok.ghost)
                e.oblige(ok, ok.ghost['stage'] == 1, 'the-meta-follows-the-header')
                e.setghost(ok, 'metalen', grow(e, ok, 'metabytes'))
                e.setghost(ok, 'stage', c64(2))
            else:
                e.oblige(ok, ptr_term(a[0]) == (self.body if self.body is not None else c64(0)), 'sends-the-message-given')
                e.oblige(ok, ok.ghost['stage'] == 2, 'the-body-follows-the-meta')
                zs = ok.ghost.get('zs')
                if zs is not None and isinstance(a[1], P) and a[1].obj is zs:
                    e.setghost(ok, 'packed', BV(1, 8))
                else:
                    isbuf(e, ok, a[1])
                    e.setghost(ok, 'packed', BV(0, 8))
                e.setghost(ok, 'datalen', z3.simplify(ok.ghost['datalen'] + grow(e, ok, 'databytes')))
                e.setghost(ok, 'stage', c64(3))
            e.setghost(bad, 'ser', BV(1, 8))
            return [(bad, z3.BoolVal(False)), (ok, z3.BoolVal(True))]
        C(r'^google::protobuf::MessageLite::SerializeToZeroCopyStream', ser)

        def getz(e, s, a, n):
            isbuf(e, s, a[0])
            e.oblige(s, And(a[1] == self.comp, self.comp != none) if self.comp is not None else z3.BoolVal(False), 'compresses-as-the-meta-says')
            o = e.new_obj(s, 'zstream', 'cells', size=64)
            e.set_vptr(s, o, 'VFOut')
            s.ghost['zs'] = o
            return P(o)
        C(r'^sofa::pbrpc::get_compressed_output_stream', getz)

        def flush(e, s, a, n):
            e.setghost(s, 'flushed', BV(1, 8))
            e.setghost(s, 'datalen', z3.simplify(s.ghost['datalen'] + grow(e, s, 'flushed')))
            return z3.BoolVal(True)
        C(r'^vf_flush', flush)

        def setdata(e, s, a, n):
            isbuf(e, s, a[0])
            ld = lambda o, w: e.load(s, e.padd(s, a[2], o), ('i', w))
            g = s.ghost
            e.oblige(s, And(a[1] == g['hdrat'], sx(a[3]) == hsize), 'the-header-goes-where-it-was-reserved')
            e.oblige(s, g['stage'] == (3 if self.comp is not None else 2), 'the-header-is-set-when-all-is-written')
            e.oblige(s, g['ser'] == 0, 'no-message-after-a-failed-serialisation')
            if self.comp is not None:
                e.oblige(s, (g['packed'] == 1) == (self.comp != none), 'the-body-is-compressed-as-the-meta-says')
                e.oblige(s, Implies(g['packed'] == 1, g['flushed'] == 1), 'the-compressed-body-is-complete')
            e.oblige(s, And(ld(0, 32) == magic, sx(ld(offs[0], 32)) == g['metalen'], ld(offs[1], 64) == g['datalen'],
                            ld(offs[2], 64) == g['metalen'] + g['datalen']), 'the-header-states-the-sizes')
            e.setghost(s, 'hdrok', BV(1, 8))
            return BV(0, 32)
        C(WB + r'SetData\(', setdata)
        C(r'^sofa::pbrpc::ReadBuffer::(ReadBuffer|~ReadBuffer)\(', nop)

        def swapout(e, s, a, n):
            isbuf(e, s, a[0])
            e.oblige(s, s.ghost['hdrok'] == 1, 'the-message-is-complete-when-taken')
            e.setghost(s, 'out', ptr_term(a[1]))
        C(WB + r'SwapOut\(', swapout)
