"""Reader for textual LLVM 18 IR (the subset clang -O0 + mem2reg emits for C).

Everything the analyses know about /repo comes through this module: functions,
control-flow graphs, resolved types with byte layout, constant initialisers and
the debug-info names of structure members, enumerators and source positions.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i', bits) ('p',) ('v',) ('f', bits) ('a', n, T) ('s', name) ('t', (T..), packed) ('fn',) ('m',)
VOID = ('v',)
PTR = ('p',)


TOK = re.compile(r'''
    \s+ |
    (?P<cstr>c"(?:[^"])*") |
    (?P<str>"(?:[^"])*") |
    (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<mid>![a-zA-Z0-9_.]*) |
    (?P<attr>\#\d+) |
    (?P<num>-?(?:0x[0-9A-Fa-fKLMH]+|\d+\.\d+(?:e[+-]?\d+)?|\d+)) |
    (?P<id>[a-zA-Z_][-a-zA-Z0-9_.$]*) |
    (?P<dots>\.\.\.) |
    (?P<p><\{|\}>|[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        mo = m(s, pos)
        if not mo:
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        pos = mo.end()
        k = mo.lastgroup
        if k:
            out.append((k, mo.group()))
    return out


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def uq(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'loc', 'fn', 'blk', 'idx')

    def __init__(self, op, res, ty, a, loc):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.loc = loc

    def __repr__(self):
        return '<%s %s %r>' % (self.res, self.op, self.a)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.byval = {}          # parameter number -> type of the caller's object it is a copy of
        self.ret = VOID
        self.blocks = {}
        self.decl = True
        self.linkage = ''
        self.hidden = False
        self.vararg = False
        self.dbg = None
        self.entry = None


class Global:
    def __init__(self, name):
        self.name = name
        self.ty = None
        self.init = None
        self.const = False
        self.linkage = ''
        self.hidden = False
        self.dbg = None


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.mod = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def end(self):
        return self.i >= len(self.t)

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v in ('label', 'metadata', 'token'):
                t = ('m',)
            elif v == 'opaque':
                t = ('op',)
            else:
                raise IRError('type? %r' % v)
        elif k == 'lid':
            t = ('s', uq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            t = ('a', n, self.type())
            self.exp(']')
        elif v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            el = []
            while not self.acc(close):
                el.append(self.type())
                self.acc(',')
            t = ('t', tuple(el), v == '<{')
        elif v == '<':
            n = int(self.next()[1])
            self.exp('x')
            t = ('vec', n, self.type())
            self.exp('>')
        else:
            raise IRError('type? %r' % (v,))
        # function type suffix "ret (args)"
        if self.peek()[1] == '(' and self.fnsuffix:
            d = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t

    fnsuffix = False

    ATTR_IDS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly',
                'returned', 'inreg', 'noalias', 'immarg', 'readnone', 'allocptr', 'noreturn', 'nounwind',
                'dead_on_unwind', 'writable', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'fastcc',
                'ccc', 'nobuiltin', 'builtin', 'cold', 'inbounds', 'nsw', 'nuw', 'exact', 'volatile', 'disjoint',
                'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inalloca'}
    ATTR_PAR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'byval', 'sret', 'memory',
                'range', 'elementtype', 'captures'}

    def attrs(self):
        out = []
        while True:
            k, v = self.peek()
            if k == 'id' and v in self.ATTR_IDS:
                out.append(v)
                self.i += 1
            elif k == 'id' and v in self.ATTR_PAR:
                self.i += 1
                out.append(v)
                if v == 'byval' and self.peek()[1] == '(':
                    self.next()
                    self.byval = self.type()
                    self.exp(')')
                elif self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align':
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                return out

    # -- values: ('c', int) ('null',) ('undef',) ('l', name) ('g', name) ('zero',) ('agg', [..]) ('str', bytes)
    #            ('gep', srcty, base, [(ty, val)]) ('cast', op, ty, v, toty) ('flt', text) ('md',)
    def value(self, ty):
        k, v = self.next()
        if k == 'num':
            if ty[0] == 'f' or '.' in v or v.startswith('0x'):
                return ('flt', v)
            return ('c', int(v))
        if k == 'lid':
            return ('l', uq(v))
        if k == 'gid':
            return ('g', uq(v))
        if k == 'cstr':
            return ('str', unescape(v[2:-1]))
        if k == 'mid':
            if v == '!DIExpression' or self.peek()[1] == '(':
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            return ('md', v)
        if k == 'id':
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'getelementptr':
                self.attrs()
                self.exp('(')
                sty = self.type()
                self.exp(',')
                bty = self.type()
                base = self.value(bty)
                idx = []
                while self.acc(','):
                    self.attrs()
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.exp(')')
                return ('gep', sty, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                t = self.type()
                val = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('cast', v, t, val, t2)
            if v in ('sub', 'add'):
                self.attrs()
                self.exp('(')
                t = self.type()
                a = self.value(t)
                self.exp(',')
                t = self.type()
                b = self.value(t)
                self.exp(')')
                return ('cbin', v, t, a, b)
        if v == '[' or v == '{' or v == '<{':
            close = {'[': ']', '{': '}', '<{': '}>'}[v]
            out = []
            while not self.acc(close):
                t = self.type()
                out.append((t, self.value(t)))
                self.acc(',')
            return ('agg', out)
        raise IRError('value? %r %r (type %r)' % (k, v, ty))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


DBG = re.compile(r', !dbg !(\d+)')
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
        'fpext', 'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.md = {}
        self._di = {}
        self._layout = {}
        self.parse(text)
        for f in self.funcs.values():
            self._cfg(f)
        self._members = None

    # ------------------------------------------------------------ parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
                else:
                    m = re.match(r'!([a-zA-Z.]+\S*) = (.*)$', ln)
                    if m:
                        self.md[m.group(1)] = m.group(2)
            elif c == '%':
                p = P(self, tokenize(ln))
                name = uq(p.next()[1])
                p.exp('=')
                p.exp('type')
                self.types[name] = p.type()
            elif c == '@':
                self._global(ln)
            elif ln.startswith('declare'):
                self._header(ln, True)
            elif ln.startswith('define'):
                f = self._header(ln, False)
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._body(f, body)

    LINK = {'private', 'internal', 'external', 'common', 'linkonce_odr', 'weak', 'available_externally',
            'extern_weak', 'linkonce', 'weak_odr', 'appending'}

    def _global(self, ln):
        m = DBG.search(ln)
        dbg = int(m.group(1)) if m else None
        if m:
            ln = ln[:m.start()]
        p = P(self, tokenize(ln))
        g = Global(uq(p.next()[1]))
        g.dbg = dbg
        p.exp('=')
        ext = False
        while True:
            v = p.next()[1]
            if v in self.LINK:
                g.linkage = v
                ext = ext or v in ('external', 'extern_weak')
            elif v in ('hidden', 'protected', 'default'):
                g.hidden = v == 'hidden'
            elif v == 'constant':
                g.const = True
                break
            elif v == 'global':
                break
            elif v == 'alias':
                return
            elif v in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'thread_local'):
                pass
            else:
                raise IRError('global: %r in %s' % (v, ln[:100]))
        g.ty = p.type()
        if not ext:
            g.init = p.value(g.ty)
        self.globals[g.name] = g

    def _header(self, ln, decl):
        m = re.search(r' !dbg !(\d+)', ln)
        dbg = int(m.group(1)) if m else None
        at = ln.index('@')
        pre = ln[:at].split()
        p = P(self, tokenize(ln[at:]))
        name = uq(p.next()[1])
        f = Function(name)
        f.decl = decl
        f.dbg = dbg
        f.hidden = 'hidden' in pre
        f.linkage = 'internal' if 'internal' in pre else 'external'
        rp = P(self, tokenize(' '.join(w for w in pre[1:] if w not in
                                       ('internal', 'hidden', 'dso_local', 'external', 'private', 'fastcc', 'weak', 'protected'))))
        rp.attrs()
        f.ret = rp.type()
        p.exp('(')
        while not p.acc(')'):
            if p.acc('...'):
                f.vararg = True
                continue
            t = p.type()
            p.byval = None
            at_ = p.attrs()
            nm = None
            if p.peek()[0] == 'lid':
                nm = uq(p.next()[1])
            if p.byval is not None:
                f.byval[len(f.params)] = p.byval
            f.params.append((t, nm))
            p.acc(',')
        old = self.funcs.get(name)
        if old is None or old.decl:
            self.funcs[name] = f
        return f

    def _body(self, f, lines):
        blk = None
        i = 0
        n = len(lines)
        # unnamed parameters / entry block numbering is avoided with -fno-discard-value-names
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip():
                continue
            if ln[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise IRError('label? ' + ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                blk = Block(nm)
                f.blocks[nm] = blk
                if f.entry is None:
                    f.entry = nm
                continue
            if ' switch ' in ' ' + ln.strip()[:8] or ln.startswith('  switch'):
                while not ln.rstrip().split(', !dbg')[0].rstrip().endswith(']'):
                    ln += ' ' + lines[i].strip()
                    i += 1
            if 'llvm.dbg.' in ln:
                continue
            if blk is None:
                blk = Block('entry')
                f.blocks['entry'] = blk
                f.entry = 'entry'
            ins = self._instr(ln)
            ins.fn = f
            ins.blk = blk.name
            ins.idx = len(blk.ins)
            blk.ins.append(ins)

    def _instr(self, ln):
        m = DBG.search(ln)
        loc = int(m.group(1)) if m else None
        if m:
            ln = ln[:m.start()]
        else:
            k = ln.find(', !')
            if k > 0 and 'metadata' not in ln:
                ln = ln[:k]
        p = P(self, tokenize(ln))
        res = None
        if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
            res = uq(p.next()[1])
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        I = lambda ty, *a: Instr(op, res, ty, a, loc)
        if op in BIN:
            fl = p.attrs()
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return I(t, a, b, tuple(fl))
        if op in CAST:
            p.attrs()
            t, v = p.tv()
            p.exp('to')
            t2 = p.type()
            return I(t2, t, v)
        if op in ('icmp', 'fcmp'):
            p.attrs()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return I(('i', 1), pred, t, a, b)
        if op == 'load':
            p.attrs()
            t = p.type()
            p.exp(',')
            _, v = p.tv()
            return I(t, v)
        if op == 'store':
            p.attrs()
            t, v = p.tv()
            p.exp(',')
            _, q = p.tv()
            return I(t, v, q)
        if op == 'getelementptr':
            p.attrs()
            sty = p.type()
            p.exp(',')
            _, base = p.tv()
            idx = []
            while p.acc(','):
                p.attrs()
                idx.append(p.tv())
            return I(PTR, sty, base, idx)
        if op == 'br':
            if p.acc('label'):
                return I(VOID, None, uq(p.next()[1]))
            _, c = p.tv()
            p.exp(',')
            p.exp('label')
            a = uq(p.next()[1])
            p.exp(',')
            p.exp('label')
            b = uq(p.next()[1])
            return I(VOID, c, a, b)
        if op == 'switch':
            t, v = p.tv()
            p.exp(',')
            p.exp('label')
            d = uq(p.next()[1])
            p.exp('[')
            cases = []
            while not p.acc(']'):
                ct = p.type()
                cv = p.value(ct)
                p.exp(',')
                p.exp('label')
                cases.append((cv[1], uq(p.next()[1])))
            return I(t, v, d, cases)
        if op == 'ret':
            if p.acc('void'):
                return I(VOID, None)
            t, v = p.tv()
            return I(t, v)
        if op == 'unreachable':
            return I(VOID)
        if op == 'phi':
            p.attrs()
            t = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(t)
                p.exp(',')
                inc.append((v, uq(p.next()[1])))
                p.exp(']')
                if not p.acc(','):
                    break
            return I(t, inc)
        if op == 'select':
            p.attrs()
            _, c = p.tv()
            p.exp(',')
            t, a = p.tv()
            p.exp(',')
            t, b = p.tv()
            return I(t, c, a, b)
        if op == 'alloca':
            p.attrs()
            t = p.type()
            cnt = None
            while p.acc(','):
                if p.acc('align'):
                    p.next()
                else:
                    cnt = p.tv()
            return I(PTR, t, cnt)
        if op == 'call':
            p.attrs()
            p.fnsuffix = True
            rt = p.type()
            p.fnsuffix = False
            if rt[0] == 'fn':
                rt = rt[1]
            k, v = p.next()
            callee = ('g', uq(v)) if k == 'gid' else ('l', uq(v))
            p.exp('(')
            args = []
            while not p.acc(')'):
                t = p.type()
                p.attrs()
                args.append((t, p.value(t)))
                p.acc(',')
            return I(rt, callee, args)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(('x',), t, v, idx)
        if op == 'insertvalue':
            t, v = p.tv()
            p.exp(',')
            t2, v2 = p.tv()
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(t, t, v, t2, v2, idx)
        if op == 'freeze':
            t, v = p.tv()
            return I(t, v)
        if op == 'fneg':
            p.attrs()
            t, v = p.tv()
            return I(t, v)
        if op == 'va_arg':
            t, v = p.tv()
            p.exp(',')
            return I(p.type(), v)
        raise IRError('instruction? ' + ln)

    # ------------------------------------------------------------ cfg
    def _cfg(self, f):
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [c[1] for c in t.a[2]]
            else:
                s = []
            b.succ = list(dict.fromkeys(s))
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].pred.append(b.name)

    # ------------------------------------------------------------ layout
    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """-> (size, align, member offsets)"""
        r = self._layout.get(t)
        if r is None:
            r = self._layout[t] = self._mklayout(t)
        return r

    def _mklayout(self, t):
        k = t[0]
        if k == 'i':
            b = t[1]
            s = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8 if b <= 64 else 16
            return (s, s, None)
        if k == 'p':
            return (8, 8, None)
        if k == 'f':
            s = {32: 4, 64: 8, 80: 16}[t[1]]
            return (s, s, None)
        if k == 'a':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 's':
            return self.layout(self.types[t[1]])
        if k == 't':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, tuple(offs))
        if k == 'op':
            return (0, 1, ())
        raise IRError('layout of %r' % (t,))

    def struct_elems(self, t):
        if t[0] == 's':
            t = self.types[t[1]]
        return t[1]

    # ------------------------------------------------------------ debug info
    def di(self, n):
        r = self._di.get(n)
        if r is None:
            r = self._di[n] = parse_di(self.md.get(n, ''))
        return r

    def loc(self, n):
        """!dbg id -> (file, line)"""
        if n is None:
            return ('?', 0)
        d = self.di(n)
        line = d.get('line', 0)
        sc = d.get('scope')
        f = '?'
        while sc is not None:
            s = self.di(sc)
            if 'file' in s:
                f = self.di(s['file']).get('filename', '?')
                break
            sc = s.get('scope')
        return (f, line)

    def fn_file(self, f):
        if f.dbg is None:
            return '?'
        d = self.di(f.dbg)
        return self.di(d['file']).get('filename', '?') if 'file' in d else '?'

    def _index_members(self):
        self._members = {}
        self._enums = {}
        self._typedefs = {}
        for n, t in self.md.items():
            if 'DICompositeType(' in t:
                d = self.di(n)
                tag = d.get('tag')
                if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in d and 'name' in d:
                    mem = {}
                    self._flatten(d, 0, '', mem)
                    self._members.setdefault(d['name'], mem)
                elif tag == 'DW_TAG_enumeration_type' and 'elements' in d:
                    for e in self.mdlist(d['elements']):
                        ed = self.di(e)
                        if 'name' in ed:
                            self._enums[ed['name']] = ed['value']

    def mdlist(self, n):
        return [int(x) for x in re.findall(r'!(\d+)', self.md[n])]

    def strip_td(self, n):
        """strip typedef/const/volatile"""
        while n is not None:
            d = self.di(n)
            if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                n = d.get('baseType')
            else:
                break
        return n

    def _flatten(self, d, base, pre, out):
        for e in self.mdlist(d['elements']):
            m = self.di(e)
            if m.get('tag') != 'DW_TAG_member':
                continue
            off = m.get('offset', 0)
            size = m.get('size', 0)
            bt = self.strip_td(m.get('baseType'))
            bd = self.di(bt) if bt is not None else {}
            flags = m.get('flags', '')
            nm = m.get('name')
            bf = 'DIFlagBitField' in str(flags)
            if nm:
                out[pre + nm] = {'bit': base * 8 + off, 'off': base + off // 8, 'bits': size, 'size': (size + 7) // 8,
                                 'type': bt, 'bitfield': bf, 'di': bd}
            if bd.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in bd:
                self._flatten(bd, base + off // 8, pre + (nm + '.' if nm else ''), out)

    def members(self, sname):
        if self._members is None:
            self._index_members()
        if sname not in self._members:
            raise IRError('anchor: struct %s not found in debug info' % sname)
        return self._members[sname]

    def member(self, sname, field):
        m = self.members(sname)
        if field not in m:
            raise IRError('anchor: struct %s has no member %s' % (sname, field))
        return m[field]

    def enum(self, name):
        if self._members is None:
            self._index_members()
        if name not in self._enums:
            raise IRError('anchor: enumerator %s not found' % name)
        return self._enums[name]

    def member_at(self, sname, off, size=None):
        """name of the innermost member at byte offset"""
        best = None
        for n, m in self.members(sname).items():
            if m['off'] <= off < m['off'] + max(1, m['size']):
                if best is None or m['size'] < best[1] or (m['size'] == best[1] and len(n) > len(best[0])):
                    best = (n, m['size'])
        return best[0] if best else '+%d' % off


DIKV = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[^,()]+(?:\([^)]*\))?)')


def parse_di(t):
    i = t.find('(')
    out = {}
    if i < 0:
        return out
    out['_kind'] = t[:i].replace('distinct ', '').lstrip('!')
    for m in DIKV.finditer(t, i):
        v = m.group(2)
        if v[0] == '"':
            v = v[1:-1]
        elif v[0] == '!' and v[1:].isdigit():
            v = int(v[1:])
        else:
            v = v.strip()
            if re.fullmatch(r'-?\d+', v):
                v = int(v)
        out[m.group(1)] = v
    return out
