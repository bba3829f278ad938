"""Parser for the subset of textual LLVM IR (opaque pointers) that clang 18 emits for /repo.

Types are tuples:
  ('i', n) ('f', 32|64) ('p',) ('a', n, T) ('s', (T...), packed) ('v',) ('label',) ('meta',)
Operands are tuples:
  ('l', name)  local      ('c', value) literal      ('g', name) global
  ('undef',)   ('zero',)  ('ce', op, ...) constant expression   ('agg', [...]) ('str', bytes)
"""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"])*")
 |(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<attr>\#\d+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<cm>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-FKLMHR]+|-?\d+)
 |(?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 |(?P<q>"[^"]*")
 |(?P<p>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            if s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


def unq(s):
    # %"a b" -> %a b
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


def fconst(txt, w):
    """float literal -> Fraction or float('inf'/'nan')"""
    if txt.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
    else:
        v = float(txt)
    if v != v or v in (float('inf'), float('-inf')):
        return v
    return Fraction(v)


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %s got %r in %r' % (v, self.peek(), self.t[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('p',)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'void':
                t = ('v',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('s', (), False)
            else:
                raise SyntaxError('type %r' % v)
        elif k == 'id':
            t = ('n', unq(v))
        elif v == '[':
            n = int(self.nxt()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            t = self.fields('}', False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.nxt()
                t = self.fields('}', True)
                self.expect('>')
            else:
                n = int(self.nxt()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise SyntaxError('type %r %r' % (k, v))
        # function type  T (args...)
        if self.peek()[1] == '(' and self.fn_ok:
            d = 0
            while True:
                v = self.nxt()[1]
                if v == '(':
                    d += 1
                elif v == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        while self.peek()[1] == '*':
            self.nxt()
            t = ('p',)
        return t

    fn_ok = False

    def fields(self, end, packed):
        fs = []
        while not self.accept(end):
            fs.append(self.type())
            self.accept(',')
        return ('s', tuple(fs), packed)

    ATTRS = set('noundef nonnull zeroext signext inreg byval sret noalias nocapture readonly writeonly readnone immarg returned '
                'inrange inbounds nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc swiftself nest allocptr noreturn '
                'dereferenceable dereferenceable_or_null align initializes range writable dead_on_unwind captures'.split())

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.ATTRS:
                self.nxt()
                if v == 'align' and self.peek()[0] == 'num':
                    self.nxt()
                elif self.peek()[1] == '(' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'align', 'initializes', 'range', 'captures'):
                    d = 0
                    while True:
                        w = self.nxt()[1]
                        if w == '(':
                            d += 1
                        elif w == ')':
                            d -= 1
                            if d == 0:
                                break
            elif k == 'attr':
                self.nxt()
            else:
                return

    def value(self, ty):
        k, v = self.nxt()
        if k == 'id':
            return ('l', unq(v)) if v[0] == '%' else ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                return ('c', fconst(v, ty[1]))
            return ('c', int(v) & ((1 << ty[1]) - 1))
        if k == 'str':
            s = v[2:-1]
            b = bytearray()
            i = 0
            s = s.encode('utf-8', 'surrogateescape')
            while i < len(s):
                if s[i] == 0x5c and s[i + 1] == 0x5c:
                    b.append(0x5c)
                    i += 2
                elif s[i] == 0x5c:
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(s[i])
                    i += 1
            return ('str', bytes(b))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v in ('getelementptr',):
                self.skip_attrs()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                args = self.tvlist(')')
                return ('ce', 'gep', bt, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, t, x, t2)
            if v in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr'):
                self.skip_attrs()
                self.expect('(')
                args = self.tvlist(')')
                return ('ce', v, args)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
        if v == '{' or (v == '<' and self.peek()[1] == '{'):
            if v == '<':
                self.nxt()
            items = self.tvlist('}')
            if v == '<':
                self.expect('>')
            return ('agg', items)
        if v == '[' or v == '<':
            return ('agg', self.tvlist(']' if v == '[' else '>'))
        raise SyntaxError('value %r %r' % (k, v))

    def tv(self):
        self.skip_attrs()
        self.fn_ok = False
        t = self.type()
        self.skip_attrs()
        if t == ('meta',):
            # skip a metadata operand
            d = 0
            while True:
                k, v = self.peek()
                if d == 0 and v in (',', ')'):
                    break
                if v == '(':
                    d += 1
                if v == ')':
                    d -= 1
                self.nxt()
            return (t, ('undef', t))
        return (t, self.value(t))

    def tvlist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.tv())
            self.accept(',')
        return out


class Function:
    __slots__ = ('name', 'header', 'lines', 'blocks', 'params', 'rett', 'parsed', 'loopinfo', 'entry')

    def __init__(self, name, header, lines):
        self.name, self.header, self.lines = name, header, lines
        self.parsed = False
        self.loopinfo = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}    # name -> (type, init operand or None, const?)
        self.aliases = {}
        self._sz = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = unq('@' + m.group(1))
                self.funcs[name] = Function(name, l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[unq('@' + m.group(1))] = l
            elif l.startswith('%'):
                k = l.index(' = type ')
                self.types[unq(l[:k])] = l[k + 8:]
            elif l.startswith('@'):
                self._global(l)
            i += 1

    def _global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name, rest = unq(m.group(1)), m.group(2)
        m = re.search(r'(?:^| )(alias|ifunc) (.*)$', rest)
        if m and not re.search(r'(?:^| )(global|constant) ', rest):
            toks = tokenize(m.group(2))
            p = Parser(toks, self)
            p.fn_ok = True
            p.type()
            p.expect(',')
            p.fn_ok = False
            t = p.type()
            self.aliases[name] = p.value(t)
            return
        m = re.search(r'(?:^| )(global|constant) (.*)$', rest)
        if not m:
            return
        ext = re.search(r'(^| )(external|extern_weak) ', rest[:m.start() + 1]) is not None
        self.globals[name] = (m.group(2), m.group(1) == 'constant', ext)

    def global_init(self, name):
        txt, const, ext = self.globals[name]
        p = Parser(tokenize(txt), self)
        t = p.type()
        if ext:
            return t, None, const
        return t, p.value(t), const

    # ---- types
    def resolve(self, t):
        while t[0] == 'n':
            body = self.types[t[1]]
            if isinstance(body, str):
                p = Parser(tokenize(body), self)
                self.types[t[1]] = body = p.type()
            t = body
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return (s, min(s, 16))
        if k == 'f':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'p':
            return (8, 8)
        if k in ('a', 'vec'):
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 's':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            return ((off + al - 1) // al * al, al)
        raise SyntaxError('size %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for n, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if not t[2]:
                off = (off + a - 1) // a * a
            if n == i:
                return off, f
            off += s
        raise IndexError

    def sizeof(self, t):
        return self.size_align(t)[0]

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            self._parse(f)
        return f

    def _parse(self, f):
        h = f.header
        # parameters
        i = h.index(f.name[1:]) if f.name[1:] in h else 0
        m = re.search(r'^define (.*?)@("[^"]*"|[-a-zA-Z$._0-9]+)\(', h)
        pre = m.group(1)
        j = m.end()
        d, k = 1, j
        while d:
            if h[k] == '(':
                d += 1
            elif h[k] == ')':
                d -= 1
            elif h[k] == '"':
                k = h.index('"', k + 1)
            k += 1
        p = Parser(tokenize(h[j:k - 1]), self)
        f.params = []
        n = 0
        while p.i < len(p.t):
            if p.accept('...'):
                break
            p.skip_attrs()
            t = p.type()
            p.skip_attrs()
            kk, v = p.peek()
            if kk == 'id':
                p.nxt()
                f.params.append((t, unq(v)))
            else:
                f.params.append((t, '%' + str(n)))
            n += 1
            p.accept(',')
        # blocks
        blocks = {}
        cur = None
        order = []
        lines = f.lines
        # entry label: number after params, or given
        first = True
        joined = []
        buf = None
        for l in lines:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if buf is not None:
                if re.match(r'^(catch |cleanup|filter )', s) or buf_kind == 'switch':
                    buf += ' ' + s
                    if buf_kind == 'switch' and s.startswith(']'):
                        joined.append(buf)
                        buf = None
                    continue
                if buf_kind == 'call' :
                    buf += ' ' + s
                    joined.append(buf)
                    buf = None
                    continue
                joined.append(buf)
                buf = None
            if ' = landingpad ' in s:
                buf, buf_kind = s, 'lp'
            elif s.startswith('switch ') and not s.rstrip().endswith(']'):
                buf, buf_kind = s, 'switch'
            elif re.match(r'^(%\S+ = )?invoke ', s):
                buf, buf_kind = s, 'call'
            else:
                joined.append(s)
        if buf is not None:
            joined.append(buf)
        label = None
        ins = []
        for s in joined:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                lab = '%' + m.group(1).strip('"')
                if label is not None:
                    blocks[label] = ins
                elif ins:
                    blocks['%<entry>'] = ins
                    order.append('%<entry>')
                label = lab
                order.append(lab)
                ins = []
                continue
            ins.append(s)
        if label is None:
            label = '%<entry>'
            order.append(label)
        blocks[label] = ins
        if order[0] == '%<entry>':     # implicit number of the entry block: after the unnamed parameters
            num = '%' + str(sum(1 for t, n in f.params if n[1:].isdigit()))
            order[0] = num
            blocks[num] = blocks.pop('%<entry>')
        f.entry = order[0]
        f.blocks = {b: [self._ins(s) for s in blocks[b]] for b in order}
        f.parsed = True

    def _ins(self, s):
        # strip trailing metadata
        s = re.sub(r'(, ![-a-zA-Z._0-9]+ ![0-9]+)+$', '', s)
        s = re.sub(r'(, ![a-z.]+ !\d+)+', '', s)
        toks = tokenize(s)
        p = Parser(toks, self)
        dst = None
        if len(toks) > 1 and toks[1][1] == '=':
            dst = unq(toks[0][1])
            p.i = 2
        op = p.nxt()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.nxt()[1]
        if op == 'load':
            p.accept('volatile'); p.accept('atomic')
            t = p.type(); p.expect(',')
            return ('load', dst, t, p.tv()[1])
        if op == 'store':
            p.accept('volatile'); p.accept('atomic')
            t, v = p.tv(); p.expect(',')
            return ('store', dst, t, v, p.tv()[1])
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('c', 1)
            if p.accept(',') and p.peek()[1] != 'align':
                n = p.tv()[1]
            return ('alloca', dst, t, n)
        if op == 'getelementptr':
            p.skip_attrs()
            bt = p.type(); p.expect(',')
            args = []
            while True:
                args.append(p.tv())
                if not p.accept(','):
                    break
            return ('gep', dst, bt, args)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.skip_attrs(); p.accept('disjoint')
            t = p.type()
            a = p.value(t); p.expect(','); b = p.value(t)
            return ('bin', dst, op, t, a, b)
        if op == 'fneg':
            p.skip_attrs(); t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in ('icmp', 'fcmp'):
            p.skip_attrs()
            pred = p.nxt()[1]
            t = p.type()
            a = p.value(t); p.expect(','); b = p.value(t)
            return (op, dst, pred, t, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            p.skip_attrs(); p.accept('nneg')
            t = p.type()
            a = p.value(t)
            t2 = t
            if p.accept('to'):
                t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'select':
            p.skip_attrs()
            c = p.tv(); p.expect(',')
            a = p.tv(); p.expect(',')
            b = p.tv()
            return ('select', dst, c[1], a[0], a[1], b[1])
        if op == 'phi':
            p.skip_attrs()
            t = p.type()
            inc = []
            while p.accept('['):
                v = p.value(t); p.expect(',')
                lab = unq(p.nxt()[1]); p.expect(']')
                inc.append((v, lab))
                p.accept(',')
            return ('phi', dst, t, inc)
        if op == 'br':
            if p.accept('label'):
                return ('br', dst, unq(p.nxt()[1]))
            c = p.tv()[1]; p.expect(','); p.expect('label')
            a = unq(p.nxt()[1]); p.expect(','); p.expect('label')
            return ('cbr', dst, c, a, unq(p.nxt()[1]))
        if op == 'switch':
            t, v = p.tv(); p.expect(','); p.expect('label')
            dflt = unq(p.nxt()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                tt, vv = p.tv(); p.expect(','); p.expect('label')
                cases.append((vv[1], unq(p.nxt()[1])))
            return ('switch', dst, t, v, dflt, cases)
        if op == 'ret':
            t = p.type()
            return ('ret', dst, t, None if t == ('v',) else p.value(t))
        if op == 'unreachable':
            return ('unreachable', dst)
        if op == 'resume':
            return ('resume', dst, p.tv()[1])
        if op == 'landingpad':
            p.type()
            cl = []
            cleanup = False
            while p.i < len(toks):
                w = p.nxt()[1]
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    cl.append(p.tv()[1])
                elif w == 'filter':
                    p.tv(); cl.append(('filter',))
            return ('landingpad', dst, cleanup, cl)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.nxt()[1]))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t, v = p.tv(); p.expect(',')
            t2, v2 = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.nxt()[1]))
            return ('insertvalue', dst, t, v, t2, v2, idx)
        if op in ('call', 'invoke'):
            # calling conv / attrs / return type
            while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
                p.nxt()
            p.skip_attrs()
            p.fn_ok = True
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            p.fn_ok = False
            callee = p.value(('p',))
            p.expect('(')
            args = p.tvlist(')')
            dests = None
            if op == 'invoke':
                while not p.accept('to'):
                    p.nxt()
                p.expect('label')
                a = unq(p.nxt()[1]); p.expect('unwind'); p.expect('label')
                dests = (a, unq(p.nxt()[1]))
            return ('call', dst, t, callee, args, dests)
        if op == 'extractelement':
            t, v = p.tv(); p.expect(',')
            it, i = p.tv()
            return ('extractelement', dst, t, v, it, i)
        if op == 'insertelement':
            t, v = p.tv(); p.expect(',')
            t2, v2 = p.tv(); p.expect(',')
            it, i = p.tv()
            return ('insertelement', dst, t, v, t2, v2, it, i)
        if op == 'fence':
            return ('nop', dst)
        if op in ('atomicrmw',):
            p.accept('volatile')
            kind = p.nxt()[1]
            pt = p.tv()[1]; p.expect(',')
            t, v = p.tv()
            return ('atomicrmw', dst, kind, pt, t, v)
        raise SyntaxError('instruction %r' % s)
