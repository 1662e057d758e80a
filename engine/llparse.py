"""Textual LLVM IR (opaque pointers) -> light-weight parse trees.

Only the functions that are actually reached are parsed (lazily)."""
import re

NAME = re.compile(r'[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
WORD = re.compile(r'[a-zA-Z_][a-zA-Z0-9_.]*')
NUM = re.compile(r'-?[0-9]+')
WS = re.compile(r'[ \t]+')


class ParseError(Exception):
    pass


def tsize(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t[1] * tsize(t[2])
    if k == 'st':
        off = 0
        for e in t[1]:
            if not t[2]:
                a = talign(e)
                off = (off + a - 1) // a * a
            off += tsize(e)
        if not t[2]:
            a = talign(t)
            off = (off + a - 1) // a * a
        return off
    if k == 'vec':
        return t[1] * tsize(t[2])
    if k == 'f':
        return t[1] // 8
    raise ParseError('size of %r' % (t,))


def talign(t):
    k = t[0]
    if k == 'arr':
        return talign(t[2])
    if k == 'st':
        if t[2]:
            return 1
        return max([talign(e) for e in t[1]] or [1])
    return tsize(t)


def st_offsets(t):
    off = 0
    out = []
    for e in t[1]:
        if not t[2]:
            a = talign(e)
            off = (off + a - 1) // a * a
        out.append(off)
        off += tsize(e)
    return out


class Cur:
    __slots__ = ('s', 'i', 'mod')

    def __init__(self, s, mod, i=0):
        self.s = s
        self.i = i
        self.mod = mod

    def ws(self):
        m = WS.match(self.s, self.i)
        if m:
            self.i = m.end()

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def eat(self, lit):
        self.ws()
        if self.s.startswith(lit, self.i):
            self.i += len(lit)
            return True
        return False

    def need(self, lit):
        if not self.eat(lit):
            raise ParseError('expected %r at %r' % (lit, self.s[self.i:self.i + 80]))

    def word(self):
        self.ws()
        m = WORD.match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group()

    def peekword(self):
        self.ws()
        m = WORD.match(self.s, self.i)
        return m.group() if m else None

    def name(self):
        self.ws()
        m = NAME.match(self.s, self.i)
        if not m:
            raise ParseError('name expected at %r' % self.s[self.i:self.i + 80])
        self.i = m.end()
        return unq(m.group())

    def num(self):
        self.ws()
        m = NUM.match(self.s, self.i)
        if not m:
            raise ParseError('num expected at %r' % self.s[self.i:self.i + 80])
        self.i = m.end()
        return int(m.group())

    def skip_parens(self):
        """at '(' : skip the balanced group"""
        d = 0
        s = self.s
        i = self.i
        while True:
            c = s[i]
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    self.i = i + 1
                    return
            elif c == '"':
                i = s.index('"', i + 1)
            i += 1

    # ---- types
    def type(self):
        self.ws()
        s = self.s
        c = s[self.i]
        if c == 'i' and s[self.i + 1].isdigit():
            self.i += 1
            t = ('i', self.num())
        elif s.startswith('ptr', self.i):
            self.i += 3
            if self.eat('addrspace'):
                self.skip_parens()
            t = ('ptr',)
        elif s.startswith('void', self.i):
            self.i += 4
            t = ('void',)
        elif s.startswith('float', self.i):
            self.i += 5
            t = ('f', 32)
        elif s.startswith('double', self.i):
            self.i += 6
            t = ('f', 64)
        elif s.startswith('metadata', self.i):
            self.i += 8
            t = ('metadata',)
        elif s.startswith('label', self.i):
            self.i += 5
            t = ('label',)
        elif s.startswith('token', self.i):
            self.i += 5
            t = ('token',)
        elif c == '[':
            self.i += 1
            n = self.num()
            self.need('x')
            e = self.type()
            self.need(']')
            t = ('arr', n, e)
        elif c == '<':
            self.i += 1
            if self.peek('{'):
                t = self.struct(True)
                self.need('>')
            else:
                n = self.num()
                self.need('x')
                e = self.type()
                self.need('>')
                t = ('vec', n, e)
        elif c == '{':
            t = self.struct(False)
        elif c == '%':
            n = self.name()
            t = self.mod.named_type(n)
        else:
            raise ParseError('type at %r' % s[self.i:self.i + 80])
        # function type: ret (args)
        return t

    def struct(self, packed):
        self.need('{')
        el = []
        if not self.eat('}'):
            while True:
                el.append(self.type())
                if self.eat('}'):
                    break
                self.need(',')
        return ('st', tuple(el), packed)

    VALWORDS = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'getelementptr',
                'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add', 'xor', 'and', 'or', 'shl', 'lshr', 'mul',
                'none', 'asm', 'splat', 'addrspacecast', 'icmp', 'select', 'c'}

    def attrs(self):
        """skip parameter attributes"""
        while True:
            self.ws()
            c = self.s[self.i]
            if c.isalpha():
                w = self.peekword()
                if w in self.VALWORDS or (w == 'c' and self.s[self.i + 1] == '"'):
                    return
                self.i += len(w)
                if w == 'align' and not self.peek('('):
                    self.num()
                elif self.i < len(self.s) and self.s[self.i] == '(':
                    self.skip_parens()
                elif self.peek('='):
                    self.need('=')
                    self.name() if self.peek('%') else self.num()
            elif c == '"':
                j = self.s.index('"', self.i + 1)
                self.i = j + 1
                if self.eat('='):
                    j = self.s.index('"', self.i + 1)
                    self.i = j + 1
            elif c == '#':
                self.i += 1
                self.num()
            else:
                return

    # ---- values: ('reg',name) ('int',v) ('undef',) ('zero',) ('null',) ('g',name)
    #      ('agg',[(t,v)..]) ('str',bytes) ('ce',op,...)
    def value(self, t):
        self.ws()
        s = self.s
        c = s[self.i]
        if c == '%':
            return ('reg', self.name())
        if c == '@':
            return ('g', self.name())
        if c.isdigit() or c == '-':
            if t[0] == 'f':
                m = re.compile(r'[-+0-9.eExXA-Fa-fKLMHR]+').match(s, self.i)
                self.i = m.end()
                return ('undef',)
            return ('int', self.num())
        if c == '{' or c == '[':
            close = '}' if c == '{' else ']'
            self.i += 1
            el = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.need(',')
            return ('agg', el)
        if c == '<':
            self.i += 1
            if self.peek('{'):
                self.need('{')
                el = []
                if not self.eat('}'):
                    while True:
                        et = self.type()
                        el.append((et, self.value(et)))
                        if self.eat('}'):
                            break
                        self.need(',')
                self.need('>')
                return ('agg', el)
            el = []
            while True:
                et = self.type()
                el.append((et, self.value(et)))
                if self.eat('>'):
                    break
                self.need(',')
            return ('agg', el)
        if c == 'c' and s[self.i + 1] == '"':
            i = self.i + 2
            out = bytearray()
            while s[i] != '"':
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.extend(s[i].encode('utf-8'))
                    i += 1
            self.i = i + 1
            return ('str', bytes(out))
        if c == '!':
            # metadata operand
            j = self.i
            while j < len(s) and s[j] not in ',)':
                j += 1
            self.i = j
            return ('undef',)
        w = self.word()
        if w == 'null':
            return ('int', 0)
        if w == 'true':
            return ('int', 1)
        if w == 'false':
            return ('int', 0)
        if w in ('undef', 'poison', 'none'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'getelementptr':
            while self.peekword() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.word()
                if self.peek('('):
                    if s[self.i - 1] != ' ' and False:
                        pass
                    # inrange(...) has its own parens; plain flags are followed by ' ('
                    if s[self.i - 7:self.i] == 'inrange':
                        self.skip_parens()
            self.need('(')
            bt = self.type()
            ops = []
            while self.eat(','):
                ot = self.type()
                self.attrs()
                ops.append((ot, self.value(ot)))
            self.need(')')
            return ('gep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.need('(')
            ot = self.type()
            v = self.value(ot)
            self.need('to')
            dt = self.type()
            self.need(')')
            return ('cast', w, ot, v, dt)
        if w in ('sub', 'add', 'xor', 'and', 'or', 'shl', 'lshr', 'mul'):
            while self.peekword() in ('nuw', 'nsw', 'exact'):
                self.word()
            self.need('(')
            t1 = self.type()
            v1 = self.value(t1)
            self.need(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.need(')')
            return ('bin', w, t1, v1, v2)
        if w == 'splat':
            self.need('(')
            et = self.type()
            v = self.value(et)
            self.need(')')
            return ('agg', [(et, v)] * t[1])
        raise ParseError('value %r at %r' % (w, s[max(0, self.i - 40):self.i + 80]))

    def tval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unq(n):
    if n[1] == '"':
        return n[0] + n[2:-1]
    return n


DEFRE = re.compile(r'^define ')
DEFNAME = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
GLOBRE = re.compile(r'^(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ')


class Module:
    """index of a .ll file: function name -> line range, globals -> definition text"""

    def __init__(self, path):
        self.path = path
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self.lines = f.read().split('\n')
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.types = {}
        self.aliases = {}
        lines = self.lines
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                name = DEFNAME.search(l).group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = (i, j)
                i = j
            elif l.startswith('@'):
                m = GLOBRE.match(l)
                nm = unq(m.group(1))[1:]
                rest = l[m.end():]
                if re.match(r'(?:[a-z_]+ )*alias ', rest):
                    tgt = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                    self.aliases[nm] = tgt[-1].strip('"')
                else:
                    self.globals[nm] = rest
            elif l.startswith('declare '):
                m = DEFNAME.search(l)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%'):
                m = re.match(r'(%\S+) = type (.*)$', l)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            i += 1

    def named_type(self, n):
        txt = self.types[n]
        if txt.startswith('opaque'):
            return ('st', (), False)
        return Cur(txt, self).type()

    def func_text(self, name):
        a, b = self.funcs[name]
        return self.lines[a], self.lines[a + 1:b]
