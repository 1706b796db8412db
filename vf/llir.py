"""Parser for the subset of textual LLVM IR (18, opaque pointers) clang emits at -O0."""
import re
import struct
import subprocess

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*") |
  (?P<name>[%@$](?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+) |
  (?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?) |
  (?P<word>[a-zA-Z_.][a-zA-Z0-9_.]*) |
  (?P<attr>\#[0-9]+) |
  (?P<meta>![a-zA-Z0-9_.]*) |
  (?P<dots>\.\.\.) |
  (?P<qs>"[^"]*") |
  (?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise ValueError('cannot tokenize: %r' % s[i:i + 60])
        out.append(m.group().strip())
        i = m.end()
    return out


# types: tuples
class Types(object):
    def __init__(self):
        self.named = {}

    def size(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'float':
            return 4
        if k in ('double', 'ptr'):
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'named':
            return self.size(self.named[t[1]])
        raise ValueError('size of %r' % (t,))

    def align(self, t):
        k = t[0]
        if k == 'i':
            return min(self.size(t), 16)
        if k in ('float',):
            return 4
        if k in ('double', 'ptr'):
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'named':
            return self.align(self.named[t[1]])
        raise ValueError('align of %r' % (t,))

    def layout(self, t):
        """offsets, size of a struct"""
        t = self.resolve(t)
        c = self._lay.get(t) if hasattr(self, '_lay') else None
        if not hasattr(self, '_lay'):
            self._lay = {}
        if c is not None:
            return c
        offs = []
        off = 0
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        self._lay[t] = (offs, off)
        return offs, off

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t


SIMPLE = {'float': ('float',), 'double': ('double',), 'void': ('void',), 'ptr': ('ptr',), 'label': ('label',),
          'metadata': ('metadata',), 'x86_fp80': ('x86_fp80',), 'half': ('half',), 'token': ('token',)}
ITYPE = re.compile(r'^i[0-9]+$')


class P(object):
    """token cursor"""

    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:300]))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def is_type(self):
        x = self.peek()
        return x is not None and (x in SIMPLE or ITYPE.match(x) or x[0] in '%[{<')

    def type(self):
        x = self.next()
        if x in SIMPLE:
            t = SIMPLE[x]
        elif ITYPE.match(x):
            t = ('i', int(x[1:]))
        elif x[0] == '%':
            t = ('named', x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while self.peek() != '}':
                    fs.append(self.type())
                    self.accept(',')
                self.next()
                self.expect('>')
                t = ('struct', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            fs = []
            while self.peek() != '}':
                fs.append(self.type())
                self.accept(',')
            self.next()
            t = ('struct', tuple(fs), False)
        else:
            raise ValueError('type? %r in %r' % (x, ' '.join(self.t)[:200]))
        # function type
        while self.peek() == '(' and t[0] != 'label':
            self.next()
            args = []
            while self.peek() != ')':
                if self.accept('...'):
                    args.append('...')
                else:
                    args.append(self.type())
                self.accept(',')
            self.next()
            t = ('fn', t, tuple(args))
        return t

    def skip_attrs(self):
        """parameter attributes; returns byval type if present"""
        byval = None
        while True:
            x = self.peek()
            if x is None:
                return byval
            if x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                     'captures', 'range', 'nofpclass', 'initializes', 'inalloca', 'preallocated', 'memory', 'allocsize',
                     'alignstack', 'vscale_range', 'allockind'):
                self.next()
                if self.peek() == '(':
                    if x == 'byval':
                        self.next()
                        byval = self.type()
                        self.expect(')')
                    else:
                        d = 0
                        while True:
                            y = self.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                                if d == 0:
                                    break
                elif x == 'align':
                    self.next()
                continue
            if x in ATTRS or x[0] == '#' or x[0] == '"':
                self.next()
                if self.peek() == '=' and x[0] == '"':
                    self.next()
                    self.next()
                continue
            return byval

    # operand: ('reg', name) | ('const', python value by type) | ('global', name) | ('expr', ...)
    def value(self, t):
        x = self.next()
        if x[0] == '%':
            return ('reg', x)
        if x[0] == '@':
            return ('global', x)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero', t)
        if x == 'true':
            return ('c', True)
        if x == 'false':
            return ('c', False)
        if x == 'none':
            return ('c', 0)
        if x in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            return self.constexpr(x)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select'):
            return self.constexpr(x)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return ('global', self.next())
        if x[:2] == 'c"':
            s = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(b))
        if x in ('[', '{') or (x == '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            items = []
            while self.peek() != close:
                tt = self.type()
                items.append((tt, self.value(tt)))
                self.accept(',')
            self.next()
            if packed:
                self.expect('>')
            return ('agg', items)
        if t[0] in ('float', 'double'):
            if x.startswith('0x'):
                v = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
            else:
                v = float(x)
            return ('f', v)
        if t[0] == 'i':
            if t[1] == 1:
                return ('c', bool(int(x)))
            return ('c', int(x))
        if t[0] == 'x86_fp80':
            return ('undef',)
        raise ValueError('value? %r for %r in %r' % (x, t, ' '.join(self.t)[:200]))

    def constexpr(self, op):
        if op == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    while self.next() != ')':
                        pass
            self.expect('(')
            st = self.type()
            self.expect(',')
            args = []
            while True:
                self.accept('inrange')
                tt = self.type()
                args.append((tt, self.value(tt)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', st, args)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            tt = self.type()
            v = self.value(tt)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', op, tt, v, t2)
        while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or (op == 'icmp' and self.peek() != '('):
            self.next()
        self.expect('(')
        args = []
        while True:
            tt = self.type()
            args.append((tt, self.value(tt)))
            if not self.accept(','):
                break
        self.expect(')')
        return ('binexpr', op, args)


ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly writeonly readnone returned immarg nofree
nest swiftself swifterror noinline nounwind dead_on_unwind writable allocalign allocptr dso_local local_unnamed_addr
unnamed_addr weak weak_odr linkonce linkonce_odr internal private external available_externally common appending hidden
protected default comdat noinline fastcc ccc coldcc tail musttail notail alwaysinline cold hot noreturn willreturn
mustprogress norecurse uwtable nosync speculatable nobuiltin builtin strictfp nomerge noduplicate convergent minsize optnone optsize
fast nnan ninf nsz arcp contract afn reassoc nuw nsw exact inbounds disjoint nneg volatile atomic dso_preemptable extern_weak
returns_twice naked safestack thread_local constant global'''.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())


class Instr(object):
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text

    def __repr__(self):
        return self.text


class Func(object):
    def __init__(self, name, ret, params, lines, mod, decl):
        self.name, self.ret, self.params, self.lines, self.mod, self.decl = name, ret, params, lines, mod, decl
        self.blocks = None      # label -> list of Instr
        self.entry = None
        self.pretty = None
        self.code = None

    def parse(self):
        if self.blocks is not None:
            return
        blocks = {}
        cur = None
        n = sum(1 for p in self.params if True)
        # implicit entry label number = count of unnamed params
        unnamed = sum(1 for t, nm, bv in self.params if re.match(r'^%\d+$', nm or ''))
        label = None
        for ln in self.lines:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                label = '%' + m.group(1)
                cur = blocks[label] = []
                if self.entry is None:
                    self.entry = label
                continue
            if cur is None:
                label = '%%%d' % unnamed
                cur = blocks[label] = []
                self.entry = label
            cur.append(parse_instr(ln, self.mod.types))
        self.blocks = blocks


STRIPMETA = re.compile(r',\s*![a-zA-Z.]+ !\d+|,\s*![a-zA-Z.]+ !\{[^}]*\}|\s+#\d+(?=\s|$|,)')


def parse_instr(ln, types):
    text = ln.strip()
    p = P(tokenize(text), types)
    dst = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'ret':
        t = p.type()
        v = None if t == ('void',) else p.value(t)
        return Instr('ret', None, (t, v), text)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('jmp', None, (p.next(),), text)
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Instr('br', None, (v, a, b), text)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while p.peek() != ']':
            tt = p.type()
            c = p.value(tt)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()))
        return Instr('switch', None, (t, v, d, cases), text)
    if op == 'unreachable':
        return Instr('unreachable', None, (), text)
    if op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return Instr('asm', dst, (rt,), text)
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while p.peek() != ')':
            t = p.type()
            bv = p.skip_attrs()
            if t == ('metadata',):
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in '({[':
                        d += 1
                    elif y in ')}]':
                        d -= 1
                args.append((t, ('undef',), None))
            else:
                args.append((t, p.value(t), bv))
            p.accept(',')
        p.next()
        nd = ud = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            nd = p.next()
            p.expect('unwind')
            p.expect('label')
            ud = p.next()
        return Instr(op, dst, (rt, callee, args, nd, ud), text)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = ('c', 1)
        nt = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
        return Instr('alloca', dst, (t, n), text)
    if op == 'load':
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        return Instr('aload' if at else 'load', dst, (t, p.value(pt)), text)
    if op == 'store':
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return Instr('astore' if at else 'store', None, (t, v, p.value(pt)), text)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        p.expect(',')
        args = []
        while True:
            t = p.type()
            args.append((t, p.value(t)))
            if not p.accept(','):
                break
        return Instr('gep', dst, (st, args), text)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF or p.peek() == 'samesign':
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dst, (pred, t, a, b), text)
    if op in BINOPS:
        while p.peek() in FMF or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dst, (t, a, b), text)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        return Instr('fneg', dst, (t, p.value(t)), text)
    if op == 'freeze':
        t = p.type()
        return Instr('freeze', dst, (t, p.value(t)), text)
    if op in CASTS:
        while p.peek() in FMF or p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return Instr(op, dst, (t, v, p.type()), text)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        return Instr('select', dst, (ct, c, t, a, b), text)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((p.next(), v))
            p.expect(']')
            if not p.accept(','):
                break
        return Instr('phi', dst, (t, dict(inc)), text)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', dst, (t, v, idx), text)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', dst, (t, v, t2, v2, idx), text)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        return Instr(op, dst, (t, v, p.value(t2)), text)
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        e = p.value(t2)
        p.expect(',')
        t3 = p.type()
        return Instr(op, dst, (t, v, e, p.value(t3)), text)
    if op == 'shufflevector':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        w = p.value(t2)
        p.expect(',')
        t3 = p.type()
        return Instr(op, dst, (t, v, w, t3, p.value(t3)), text)
    if op == 'landingpad':
        return Instr(op, dst, (), text)
    if op == 'resume':
        return Instr(op, None, (), text)
    if op == 'fence':
        return Instr('nop', None, (), text)
    if op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        pt = p.type()
        q = p.value(pt)
        p.expect(',')
        t = p.type()
        return Instr(op, dst, (k, q, t, p.value(t)), text)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        pt = p.type()
        q = p.value(pt)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.type()
        return Instr(op, dst, (q, t, c, p.value(t)), text)
    raise ValueError('instruction? %s' % text)


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


class Module(object):
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        self.tls = set()
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        names = []
        while i < n:
            ln = lines[i]
            if ln.startswith('define ') or ln.startswith('declare '):
                decl = ln.startswith('declare')
                body = []
                if not decl:
                    i += 1
                    while lines[i] != '}':
                        b = lines[i]
                        if b.strip():
                            k = b.find(' ; preds')
                            if k >= 0 and not b.startswith(' '):
                                b = b[:k]
                            b = STRIPMETA.sub('', b)
                            if b.startswith('   ') or (body and body[-1].count('[') > body[-1].count(']')
                                                       and 'switch' in body[-1]):
                                body[-1] += ' ' + b.strip()
                            elif b.startswith('  ]'):
                                body[-1] += ' ]'
                            else:
                                body.append(b)
                        i += 1
                f = self.parse_header(ln, body, decl)
                names.append(f.name)
                self.funcs[f.name] = f
            elif ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    if m.group(2) == 'opaque':
                        self.types.named[m.group(1)] = ('struct', (), False)
                    else:
                        self.types.named[m.group(1)] = P(tokenize(m.group(2)), self.types).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            i += 1
        if names:
            out = subprocess.run(['c++filt'], input='\n'.join(x[1:].strip('"') for x in names), text=True,
                                 capture_output=True).stdout.split('\n')
            for nm, pr in zip(names, out):
                self.funcs[nm].pretty = pr

    def parse_header(self, ln, body, decl):
        p = P(tokenize(ln), self.types)
        p.next()
        while not p.is_type() or p.peek()[0] == '#':
            x = p.next()
            if x == 'personality':
                break
            if p.peek() == '(' and x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                while p.next() != ')':
                    pass
            elif x == 'align':
                p.next()
        ret = p.type()
        name = p.next()
        p.expect('(')
        params = []
        k = 0
        while p.peek() != ')':
            if p.accept('...'):
                params.append((('vararg',), None, None))
                break
            t = p.type()
            bv = p.skip_attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%%%d' % k
            k += 1
            params.append((t, nm, bv))
            p.accept(',')
        return Func(name, ret, params, body, self, decl)

    def parse_global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
        if not m:
            return
        name, rest = m.groups()
        if re.search(r'\balias\b', rest.split('"')[0]):
            mm = re.search(r'alias .*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
            self.globals[name] = ('alias', mm.group(1))
            return
        self.globals[name] = ('lazy', rest)

    def global_def(self, name):
        g = self.globals[name]
        if g[0] == 'lazy':
            rest = g[1]
            toks = tokenize(STRIPMETA.sub('', rest))
            p = P(toks, self.types)
            const = False
            ext = False
            while p.peek() not in ('global', 'constant'):
                x = p.next()
                if x == 'thread_local':
                    self.tls.add(name)
                if x == 'external':
                    ext = True
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
            const = p.next() == 'constant'
            t = p.type()
            init = None
            if not ext and p.peek() not in (None, ','):
                init = p.value(t)
            g = ('def', t, init, const)
            self.globals[name] = g
        return g
