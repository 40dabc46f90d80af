"""Reads the LLVM IR text that clang writes (the subset that C compiled with -O0 and mem2reg uses)."""
import re
import struct


class IRError(Exception):
    pass


# types: ('i', bits) 'float' 'double' 'ptr' 'void' ('arr', n, t) ('struct', (types), packed)
class Types:
    def __init__(self):
        self.named = {}

    def size_align(self, t):
        if isinstance(t, str):
            if t == 'ptr' or t == 'double':
                return 8, 8
            if t == 'float':
                return 4, 4
            raise IRError('size of %r' % (t,))
        if t[0] == 'i':
            s = max(1, (t[1] + 7) // 8)
            p = 1
            while p < s:
                p *= 2
            return p, min(p, 16)
        if t[0] == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if t[0] == 'named':
            return self.size_align(self.named[t[1]])
        if t[0] == 'struct':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %r' % (t,))

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.named[t[1]]
        return t

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for k, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += s
        raise IRError('field')


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"])*")|([%@]"[^"]*")|([%@$!][-\w.$]+)|(-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|(.))''')


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            break
        pos = m.end()
        t = m.group(m.lastindex)
        if t.strip():
            out.append(t)
    return out


class Reg(str):
    pass


class Glob(str):
    pass


class C:
    """constant operand"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'C(%r)' % (self.v,)


NULL = ('null',)
UNDEFC = ('undef',)
ZEROINIT = ('zeroinit',)

ATTRS = set('''noundef signext zeroext nonnull nocapture readonly readnone writeonly noalias returned inreg immarg nofree nounwind
 dso_local internal private unnamed_addr local_unnamed_addr constant global external weak linkonce_odr common hidden dead_on_unwind writable mustprogress noinline tail musttail
 notail fast nnan ninf nsz arcp contract reassoc afn inbounds nuw nsw exact volatile disjoint nneg willreturn'''.split())


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if x != y:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t)[:300]))

    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t in ('float', 'double', 'ptr', 'void'):
            r = t
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('struct', tuple(self.types('}')), False)
        elif t == '<':
            if self.accept('{'):
                r = ('struct', tuple(self.types('}')), True)
                self.expect('>')
            else:
                raise IRError('vector types')
        elif t.startswith('%'):
            r = ('named', t[1:].strip('"'))
        elif t == 'x86_fp80':
            raise IRError('long double')
        else:
            raise IRError('type %r in %s' % (t, ' '.join(self.t)[:300]))
        # function type
        if self.peek() == '(':
            depth = 0
            while True:
                x = self.next()
                depth += x == '('
                depth -= x == ')'
                if depth == 0:
                    break
            r = ('fn', r)
        return r

    def types(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            out.append(self.type())
            if self.accept(close):
                return out
            self.expect(',')

    def attrs(self):
        """skips parameter attributes; returns byval type"""
        byval = None
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'memory', 'captures'):
                self.i += 1
                if self.accept('('):
                    while self.next() != ')':
                        pass
                else:
                    self.i += 1
            elif p in ('byval', 'sret', 'elementtype'):
                self.i += 1
                self.expect('(')
                t = self.type()
                self.expect(')')
                if p == 'byval':
                    byval = t
            else:
                return byval

    def value(self, ty):
        """operand: Reg, Glob or C"""
        t = self.next()
        rt = self.mod.types.resolve(ty)
        if t[0] == '%':
            return Reg(t[1:].strip('"'))
        if t[0] == '@':
            return Glob(t[1:].strip('"'))
        if t == 'true':
            return C(1)
        if t == 'false':
            return C(0)
        if t == 'null':
            return C(NULL)
        if t in ('undef', 'poison'):
            return C(UNDEFC)
        if t == 'zeroinitializer':
            return C(ZEROINIT)
        if rt in ('float', 'double'):
            if t.startswith('0x'):
                return C(struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return C(float(t))
        if isinstance(rt, tuple) and rt[0] == 'i' and re.fullmatch(r'-?\d+', t):
            return C(sign(int(t), rt[1]))
        if t == '[':
            return C(('agg', self.elements(']')))
        if t == '{':
            return C(('agg', self.elements('}')))
        if t == '<' and self.accept('{'):
            v = C(('agg', self.elements('}')))
            self.expect('>')
            return v
        if t.startswith('c"'):
            return C(('bytes', cstring(t[2:-1])))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                ty2 = self.type()
                ops.append((ty2, self.value(ty2)))
                if self.accept(')'):
                    break
                self.expect(',')
            return C(('gep', bt, ops))
        raise IRError('value %r of type %r in %s' % (t, ty, ' '.join(self.t)[:200]))

    def elements(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            ty = self.type()
            out.append((ty, self.value(ty)))
            if self.accept(close):
                return out
            self.expect(',')


def cstring(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def sign(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1):
        v -= 1 << bits
    return v


class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params        # [(type, regname, byval)]
        self.blocks = {}            # label -> list of instructions
        self.entry = None


class Module:
    def __init__(self, text):
        self.text = text
        self.types = Types()
        self.functions = {}
        self.globals = {}           # name -> (type, C or None, is_const)
        self.declared = set()
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        pend = []
        for l in lines:
            m = re.match(r'^%("[^"]+"|[\w.$ ]+) = type (.*)$', l)
            if m and 'opaque' not in m.group(2):
                pend.append((m.group(1).strip('"'), m.group(2)))
        for n, t in pend:
            self.types.named[n] = P(tokenize(t), self).type()
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self._global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._function(lines[i:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                self.declared.add(m.group(1).strip('"'))
            i += 1

    def _global(self, l):
        l = re.sub(r', (align|section|comdat|!).*$', '', l) if not l.rstrip().endswith('"') or ', align' in l else l
        toks = tokenize(l)
        p = P(toks, self)
        name = p.next()[1:].strip('"')
        p.expect('=')
        const = False
        external = False
        while p.peek() in ATTRS:
            x = p.next()
            if x == 'constant':
                const = True
            if x == 'external':
                external = True
        ty = p.type()
        v = None if external or p.peek() is None else p.value(ty)
        self.globals[name] = (ty, v, const)

    def _function(self, lines):
        head = lines[0]
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
        name = m.group(1).strip('"')
        before = tokenize(head[len('define'):m.start()])
        # the return type is the last thing before the name
        k = 0
        while before[k] in ATTRS or before[k] in ('align',) or before[k].isdigit():
            k += 1
        pp = P(before[k:], self)
        pp.attrs()
        ret = pp.type()
        p = P(tokenize(head[m.end():]), self)
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                ty = p.type()
                byval = p.attrs()
                params.append((ty, p.next()[1:], byval))
                if p.accept(')'):
                    break
                p.expect(',')
        f = Function(name, ret, params)
        cur = None
        nparams = sum(1 for x in params)
        # the entry block has an implicit number
        buf = None
        for l in lines[1:]:
            if not l.strip():
                continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = str(nparams)
                f.blocks[cur] = []
                f.entry = cur
            s = l.strip()
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    s, buf = buf, None
                else:
                    continue
            elif s.startswith('switch') and not s.endswith(']'):
                buf = s
                continue
            f.blocks[cur].append(self._inst(s))
        self.functions[name] = f

    def _inst(self, s):
        s = re.sub(r'(, ![\w.]+ ![\w.]+|, ![\w.]+)+\s*$', '', s)
        s = re.sub(r' #\d+$', '', s)
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == '%' and p.t[1] == '=':
            dst = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        while op in ('tail', 'notail', 'musttail'):
            op = p.next()
        flags = set()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ATTRS:
                flags.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            return (op, dst, ty, a, p.value(ty), 'nsw' in flags, 'nuw' in flags)
        if op == 'fneg':
            p.attrs()
            ty = p.type()
            return (op, dst, ty, p.value(ty))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ATTRS:
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            return (op, dst, pred, ty, a, p.value(ty))
        if op == 'br':
            if p.accept('label'):
                return ('jmp', None, p.next()[1:].strip('"'))
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            return ('br', None, c, a, p.next()[1:].strip('"'))
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ty2 = p.type()
                c = p.value(ty2)
                p.expect(',')
                p.expect('label')
                cases.append((c.v, p.next()[1:].strip('"')))
            return ('switch', None, ty, v, d, cases)
        if op == 'ret':
            if p.accept('void'):
                return ('ret', None, None, None)
            ty = p.type()
            return ('ret', None, ty, p.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'alloca':
            ty = p.type()
            n = C(1)
            nty = None
            if p.accept(','):
                if p.peek() != 'align':
                    nty = p.type()
                    n = p.value(nty)
            return ('alloca', dst, ty, n)
        if op == 'load':
            p.accept('volatile')
            ty = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, ty, p.value('ptr'))
        if op == 'store':
            p.accept('volatile')
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            return ('store', None, ty, v, p.value('ptr'))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value('ptr')
            idx = []
            while p.accept(','):
                ty = p.type()
                idx.append((ty, p.value(ty)))
            return ('gep', dst, bt, base, idx)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ATTRS:
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            return (op, dst, ty, v, p.type())
        if op == 'select':
            while p.peek() in ATTRS:
                p.next()
            cty = p.type()
            c = p.value(cty)
            p.expect(',')
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            p.type()
            return ('select', dst, ty, c, a, p.value(ty))
        if op == 'phi':
            while p.peek() in ATTRS:
                p.next()
            ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc[p.next()[1:].strip('"')] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, ty, inc)
        if op == 'call':
            while p.peek() in ATTRS:
                p.next()
            p.attrs()
            rt = p.type()
            if isinstance(rt, tuple) and rt[0] == 'fn':
                rt = rt[1]
            callee = p.value('ptr')
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    ty = p.type()
                    byval = p.attrs()
                    args.append((ty, p.value(ty), byval))
                    if p.accept(')'):
                        break
                    p.expect(',')
            return ('call', dst, rt, callee, args)
        if op == 'freeze':
            ty = p.type()
            return ('freeze', dst, ty, p.value(ty))
        if op in ('extractvalue',):
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return (op, dst, ty, v, idx)
        if op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            ety = p.type()
            e = p.value(ety)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return (op, dst, ty, v, ety, e, idx)
        raise IRError('instruction %s' % s)
