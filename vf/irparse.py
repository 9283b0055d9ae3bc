"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the real sources."""
import re

TOK = re.compile(r'''
  (?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 |(?P<com>\$"(?:[^"\\]|\\.)*"|\$[-\w.$]+)
 |(?P<glo>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<sym>[(){}\[\]<>,=*:|])
 |(?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        t = m(s, pos)
        if not t:
            raise ParseError("tok: %r" % s[pos:pos + 60])
        k = t.lastgroup
        if k != 'ws':
            out.append((k, t.group()))
        pos = t.end()
    return out


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


def cbytes(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


VALKW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'inttoptr',
         'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'zext', 'asm', 'blockaddress', 'dso_local_equivalent',
         'no_cfi', 'icmp', 'select', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr'}


class Cur:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise ParseError("expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t[:60])))

    def done(self):
        return self.i >= len(self.t)


def p_type(c):
    k = c.kind()
    t = c.next()
    if k == 'word':
        if t == 'ptr':
            ty = ('ptr',)
            if c.peek() == 'addrspace':
                c.next(); c.expect('('); c.next(); c.expect(')')
        elif t == 'void':
            ty = ('void',)
        elif re.fullmatch(r'i\d+', t):
            ty = ('i', int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80', 'half', 'label', 'metadata', 'token', 'fp128'):
            ty = (t,)
        elif t == 'opaque':
            ty = ('opaque',)
        else:
            raise ParseError("type %s" % t)
    elif k == 'loc':
        ty = ('named', unq(t))
    elif t == '[':
        n = int(c.next()); c.expect('x'); e = p_type(c); c.expect(']')
        ty = ('arr', n, e)
    elif t == '{':
        fs = []
        if not c.eat('}'):
            while True:
                fs.append(p_type(c))
                if c.eat('}'):
                    break
                c.expect(',')
        ty = ('struct', tuple(fs), False)
    elif t == '<':
        if c.peek() == '{':
            c.next()
            fs = []
            if not c.eat('}'):
                while True:
                    fs.append(p_type(c))
                    if c.eat('}'):
                        break
                    c.expect(',')
            c.expect('>')
            ty = ('struct', tuple(fs), True)
        else:
            n = int(c.next()); c.expect('x'); e = p_type(c); c.expect('>')
            ty = ('vec', n, e)
    else:
        raise ParseError("type tok %r" % t)
    # function type suffix
    while c.peek() == '(' and ty[0] != 'metadata':
        # function type: ret (args)
        c.next()
        depth = 1
        while depth:
            x = c.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
        ty = ('fn', ty)
    return ty


def skip_paren(c):
    c.expect('(')
    d = 1
    while d:
        x = c.next()
        if x == '(':
            d += 1
        elif x == ')':
            d -= 1


def p_attrs(c):
    """skip parameter/return attributes; returns dict of interesting ones"""
    at = {}
    while True:
        k = c.kind()
        v = c.peek()
        if k == 'word' and v not in VALKW:
            # might be a type word
            if v in ('ptr', 'void', 'float', 'double', 'x86_fp80', 'label', 'metadata') or re.fullmatch(r'i\d+', v):
                return at
            c.next()
            if c.peek() == '(':
                if v in ('sret', 'byval', 'elementtype'):
                    c.next()
                    at[v] = p_type(c)
                    c.expect(')')
                else:
                    skip_paren(c)
            elif v == 'align':
                c.next()
            else:
                at[v] = True
        elif k == 'attr':
            c.next()
        elif k == 'str':
            c.next()
            if c.eat('='):
                c.next()
        else:
            return at


def p_value(c, ty):
    k = c.kind()
    t = c.next()
    if k == 'loc':
        return ('local', unq(t))
    if k == 'glo':
        return ('global', unq(t))
    if k == 'num':
        if ty and ty[0] in ('float', 'double', 'x86_fp80'):
            return ('fp', t)
        return ('int', int(t))
    if k == 'hex':
        return ('fp', t)
    if k == 'cstr':
        return ('bytes', cbytes(t))
    if k == 'word':
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t in ('null', 'none'):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'getelementptr':
            while c.peek() in ('inbounds', 'nuw', 'nusw') or c.peek() == 'inrange':
                if c.next() == 'inrange' and c.peek() == '(':
                    skip_paren(c)
            c.expect('(')
            bty = p_type(c)
            ops = []
            while c.eat(','):
                c.eat('inrange')
                oty = p_type(c)
                ops.append((oty, p_value(c, oty)))
            c.expect(')')
            return ('cgep', bty, ops)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            c.expect('(')
            fty = p_type(c)
            v = p_value(c, fty)
            c.expect('to')
            tty = p_type(c)
            c.expect(')')
            return ('ccast', t, fty, v, tty)
        if t in ('sub', 'add', 'mul', 'shl', 'and', 'or', 'xor', 'icmp', 'lshr', 'ashr'):
            pred = None
            if t == 'icmp':
                pred = c.next()
            while c.peek() in ('nsw', 'nuw'):
                c.next()
            c.expect('(')
            aty = p_type(c); a = p_value(c, aty); c.expect(',')
            bty = p_type(c); b = p_value(c, bty); c.expect(')')
            return ('cbin', t, aty, a, b, pred)
        if t == 'blockaddress':
            skip_paren(c)
            return ('undef',)
    if t in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        if t == '<' and c.peek() == '{':
            c.next()
            close = '}'
            extra = True
        else:
            extra = False
        vs = []
        if not c.eat(close):
            while True:
                ety = p_type(c)
                vs.append((ety, p_value(c, ety)))
                if c.eat(close):
                    break
                c.expect(',')
        if extra:
            c.expect('>')
        return ('agg', vs)
    raise ParseError("value %r" % t)


class Function:
    __slots__ = ('name', 'ret', 'params', 'body_lines', '_blocks', 'entry', 'decl', '_loops', 'varargs', 'retattrs')

    def __init__(self):
        self._blocks = None
        self._loops = None
        self.body_lines = None
        self.decl = True

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse_body()
        return self._blocks

    def _parse_body(self):
        blocks = {}
        cur = []
        # the entry label is implicit: number after params when unnamed
        n = 0
        for p in self.params:
            if p[1].isdigit():
                n = max(n, int(p[1]) + 1)
        first = None
        lab = None
        acc = None
        for ln in self.body_lines:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([-\w.$]+)):(?:\s|$)', ln)
            if m and not ln.startswith(' '):
                lab = m.group(1) or m.group(2)
                cur = []
                blocks[lab] = cur
                if first is None:
                    first = lab
                continue
            if lab is None:
                lab = str(n)
                first = lab
                cur = []
                blocks[lab] = cur
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    cur.append(parse_instr(acc))
                    acc = None
                continue
            if s.startswith('switch ') and s.endswith('['):
                acc = s
                continue
            if s.startswith('#dbg'):
                continue
            cur.append(parse_instr(s))
        self._blocks = blocks
        self.entry = first

    def loops(self):
        """set of back edges (pred,header) via DFS dominators; header -> set of body blocks"""
        if self._loops is not None:
            return self._loops
        B = self.blocks
        succ = {b: successors(B[b]) for b in B}
        preds = {b: [] for b in B}
        # reachable order
        order = []
        seen = set()
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        order.reverse()
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        idx = {b: i for i, b in enumerate(order)}
        dom = {self.entry: {self.entry}}
        allb = set(order)
        for b in order:
            if b != self.entry:
                dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Instr:
    __slots__ = ('op', 'res', 'a', 'text')

    def __init__(self, op, res, a, text):
        self.op = op
        self.res = res
        self.a = a
        self.text = text

    def __repr__(self):
        return self.text[:120]


def successors(ins):
    t = ins[-1]
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[2]] + [x[1] for x in t.a[3]]
    if t.op == 'invoke':
        return [t.a['normal']]
    return []


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc', 'addrspacecast'}


def parse_call(c, res, text, op):
    if op == 'invoke' or op == 'call':
        pass
    # fast-math, cconv, ret attrs
    while c.kind() == 'word' and c.peek() not in ('ptr', 'void', 'float', 'double', 'x86_fp80') and \
            not re.fullmatch(r'i\d+', c.peek()):
        v = c.next()
        if c.peek() == '(':
            skip_paren(c)
        elif v == 'align':
            c.next()
    ty = p_type(c)
    if ty[0] == 'fn':
        rty = ty[1]
    else:
        rty = ty
    asm = None
    if c.peek() == 'asm':
        c.next()
        while c.kind() == 'word':
            c.next()
        a1 = c.next(); c.expect(','); a2 = c.next()
        asm = (a1[1:-1], a2[1:-1])
        callee = ('asm',)
    else:
        callee = p_value(c, ('ptr',))
    c.expect('(')
    args = []
    if not c.eat(')'):
        while True:
            aty = p_type(c)
            if aty[0] == 'metadata':
                # metadata args
                d = 0
                while not (d == 0 and c.peek() in (',', ')')):
                    x = c.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                args.append((aty, ('undef',), {}))
            else:
                at = p_attrs(c)
                args.append((aty, p_value(c, aty), at))
            if c.eat(')'):
                break
            c.expect(',')
    d = {'rty': rty, 'callee': callee, 'args': args, 'asm': asm}
    if op == 'invoke':
        while c.peek() != 'to':
            c.next()
        c.expect('to'); c.expect('label')
        d['normal'] = unq(c.next())
        c.expect('unwind'); c.expect('label')
        d['unwind'] = unq(c.next())
    return Instr(op, res, d, text)


def parse_instr(s):
    # drop trailing metadata
    i = s.find(', !')
    if i >= 0:
        s0 = s[:i]
    else:
        s0 = s
    c = Cur(tokenize(s0))
    res = None
    if c.kind() == 'loc' and c.peek(1) == '=':
        res = unq(c.next())
        c.next()
    op = c.next()
    if op in ('tail', 'musttail', 'notail'):
        op = c.next()
    if op in ('call', 'invoke'):
        return parse_call(c, res, s0, op)
    if op == 'ret':
        if c.peek() == 'void':
            return Instr('ret', None, (('void',), None), s0)
        ty = p_type(c)
        return Instr('ret', None, (ty, p_value(c, ty)), s0)
    if op == 'br':
        if c.peek() == 'label':
            c.next()
            return Instr('br', None, (unq(c.next()),), s0)
        ty = p_type(c)
        v = p_value(c, ty)
        c.expect(','); c.expect('label'); a = unq(c.next())
        c.expect(','); c.expect('label'); b = unq(c.next())
        return Instr('condbr', None, (v, a, b), s0)
    if op == 'switch':
        ty = p_type(c)
        v = p_value(c, ty)
        c.expect(','); c.expect('label'); d = unq(c.next())
        c.expect('[')
        cs = []
        while not c.eat(']'):
            t2 = p_type(c)
            x = p_value(c, t2)
            c.expect(','); c.expect('label')
            cs.append((x[1], unq(c.next())))
        return Instr('switch', None, (ty, v, d, cs), s0)
    if op == 'unreachable':
        return Instr('unreachable', None, (), s0)
    if op == 'load':
        vol = False
        while c.peek() in ('volatile', 'atomic'):
            c.next()
            vol = True
        ty = p_type(c)
        c.expect(',')
        p_type(c)
        return Instr('load', res, (ty, p_value(c, ('ptr',)), vol), s0)
    if op == 'store':
        while c.peek() in ('volatile', 'atomic'):
            c.next()
        ty = p_type(c)
        v = p_value(c, ty)
        c.expect(',')
        p_type(c)
        return Instr('store', None, (ty, v, p_value(c, ('ptr',))), s0)
    if op == 'alloca':
        c.eat('inalloca')
        ty = p_type(c)
        n = None
        if c.eat(',') and c.peek() != 'align':
            nty = p_type(c)
            n = p_value(c, nty)
        return Instr('alloca', res, (ty, n), s0)
    if op == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        ty = p_type(c)
        ops = []
        while c.eat(','):
            oty = p_type(c)
            ops.append((oty, p_value(c, oty)))
        return Instr('gep', res, (ty, ops), s0)
    if op in BINOPS:
        fl = []
        while c.kind() == 'word' and c.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'disjoint',
                                                  'arcp', 'contract', 'afn', 'reassoc'):
            fl.append(c.next())
        ty = p_type(c)
        a = p_value(c, ty)
        c.expect(',')
        b = p_value(c, ty)
        return Instr('bin', res, (op, ty, a, b, fl), s0)
    if op in ('icmp', 'fcmp'):
        pred = c.next()
        while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            pred = c.next() if False else pred
            c.next()
        ty = p_type(c)
        a = p_value(c, ty)
        c.expect(',')
        b = p_value(c, ty)
        return Instr(op, res, (pred, ty, a, b), s0)
    if op in CASTS:
        while c.peek() in ('nneg', 'nuw', 'nsw'):
            c.next()
        ty = p_type(c)
        v = p_value(c, ty)
        c.expect('to')
        return Instr('cast', res, (op, ty, v, p_type(c)), s0)
    if op == 'phi':
        ty = p_type(c)
        inc = []
        while True:
            c.expect('[')
            v = p_value(c, ty)
            c.expect(',')
            inc.append((v, unq(c.next())))
            c.expect(']')
            if not c.eat(','):
                break
        return Instr('phi', res, (ty, inc), s0)
    if op == 'select':
        cty = p_type(c); cv = p_value(c, cty); c.expect(',')
        ty = p_type(c); a = p_value(c, ty); c.expect(',')
        p_type(c); b = p_value(c, ty)
        return Instr('select', res, (cty, cv, ty, a, b), s0)
    if op == 'extractvalue':
        ty = p_type(c); v = p_value(c, ty)
        idx = []
        while c.eat(','):
            idx.append(int(c.next()))
        return Instr('extractvalue', res, (ty, v, idx), s0)
    if op == 'insertvalue':
        ty = p_type(c); v = p_value(c, ty); c.expect(',')
        ety = p_type(c); e = p_value(c, ety)
        idx = []
        while c.eat(','):
            idx.append(int(c.next()))
        return Instr('insertvalue', res, (ty, v, ety, e, idx), s0)
    if op == 'freeze':
        ty = p_type(c)
        return Instr('freeze', res, (ty, p_value(c, ty)), s0)
    if op == 'fneg':
        ty = p_type(c)
        return Instr('fneg', res, (ty, p_value(c, ty)), s0)
    if op == 'atomicrmw':
        c.eat('volatile')
        o = c.next()
        p_type(c); p = p_value(c, ('ptr',)); c.expect(',')
        ty = p_type(c); v = p_value(c, ty)
        return Instr('atomicrmw', res, (o, p, ty, v), s0)
    if op == 'cmpxchg':
        c.eat('weak'); c.eat('volatile')
        p_type(c); p = p_value(c, ('ptr',)); c.expect(',')
        ty = p_type(c); a = p_value(c, ty); c.expect(',')
        p_type(c); b = p_value(c, ty)
        return Instr('cmpxchg', res, (p, ty, a, b), s0)
    if op == 'fence':
        return Instr('nop', None, (), s0)
    if op in ('landingpad', 'resume', 'cleanup', 'catch'):
        return Instr('unreachable', res, (), s0)
    return Instr('unsupported', res, (op,), s0)


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.aliases = {}
        self._gl = {}
        self._layout = {}
        self._parse(path)

    def _parse(self, path):
        f = None
        with open(path, errors='replace') as fh:
            for ln in fh:
                if f is not None:
                    if ln.startswith('}'):
                        f = None
                    else:
                        f.body_lines.append(ln)
                    continue
                if ln.startswith('%'):
                    m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', ln)
                    if m:
                        self.types[unq(m.group(1))] = m.group(2)
                elif ln.startswith('@'):
                    m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', ln)
                    if m:
                        n = unq(m.group(1))
                        if re.match(r'.*?\balias\b', m.group(2)[:80]):
                            am = re.findall(r'@"(?:[^"\\]|\\.)*"|@[-\w.$]+', m.group(2))
                            if am:
                                self.aliases[n] = unq(am[-1])
                        else:
                            self._gl[n] = m.group(2)
                elif ln.startswith('define') or ln.startswith('declare'):
                    f0 = self._sig(ln)
                    self.functions[f0.name] = f0
                    if ln.startswith('define'):
                        f0.body_lines = []
                        f0.decl = False
                        f = f0

    def _sig(self, ln):
        i = ln.find(' !dbg')
        if i >= 0:
            ln = ln[:i]
        c = Cur(tokenize(ln.rstrip().rstrip('{')))
        c.next()
        # linkage etc until type
        while True:
            k, v = c.kind(), c.peek()
            if k == 'word' and (v in ('ptr', 'void', 'float', 'double', 'x86_fp80') or re.fullmatch(r'i\d+', v)):
                break
            if k in ('loc',) or v in ('{', '[', '<'):
                break
            c.next()
            if c.peek() == '(':
                skip_paren(c)
            elif v == 'align':
                c.next()
        fn = Function()
        fn.ret = p_type2(c)
        while c.kind() != 'glo':
            c.next()
        fn.name = unq(c.next())
        c.expect('(')
        fn.params = []
        fn.varargs = False
        n = 0
        if not c.eat(')'):
            while True:
                if c.eat('...'):
                    fn.varargs = True
                else:
                    ty = p_type(c)
                    at = p_attrs(c) if ty[0] != 'metadata' else {}
                    nm = str(n)
                    if c.kind() == 'loc':
                        nm = unq(c.next())
                    fn.params.append((ty, nm, at))
                    n += 1
                if c.eat(')'):
                    break
                c.expect(',')
        return fn

    def struct(self, name):
        v = self.types[name]
        if isinstance(v, str):
            v = p_type(Cur(tokenize(v)))
            self.types[name] = v
        return v

    def gdef(self, name):
        """returns (type, init or None, is_const)"""
        if name in self.globals:
            return self.globals[name]
        name0 = name
        s = self._gl.get(name)
        if s is None:
            return None
        isc = bool(re.search(r'(^|\s)constant\s', s[:120]))
        ext = re.match(r'(external|extern_weak)\b', s) is not None
        m = re.search(r'(?:^|\s)(?:global|constant)\s', s)
        body = s[m.end():]
        c = Cur(tokenize(re.sub(r', !\w.*$', '', body)))
        ty = p_type(c)
        init = None
        if not ext and not c.done() and c.peek() != ',':
            try:
                init = p_value(c, ty)
            except (ParseError, IndexError):
                init = None
        r = (ty, init, isc)
        self.globals[name0] = r
        return r

    # layout -----------------------------------------------------------
    def size_align(self, ty):
        r = self._layout.get(ty)
        if r:
            return r
        k = ty[0]
        if k == 'i':
            n = ty[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            r = (a if n != 128 else 16, min(a, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'double':
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'arr' or k == 'vec':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a if k == 'arr' else s * ty[1])
        elif k == 'named':
            r = self.size_align(self.struct(ty[1]))
        elif k == 'struct':
            off = 0
            al = 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise ParseError("layout %r" % (ty,))
        self._layout[ty] = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.struct(ty[1])
        return ty

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, f in enumerate(ty[1]):
            s, a = self.size_align(f)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise ParseError("field")


def p_type2(c):
    """type not followed by function suffix (function name follows)"""
    return p_type(c)
