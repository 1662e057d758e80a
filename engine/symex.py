"""Symbolic executor for (a subset of) LLVM IR produced by rustc.

Concrete values are Python ints, symbolic ones z3 terms (i1: z3 Bool), UNDEF marks
uninitialised / poison data.  Paths fork on branches whose both outcomes the solver finds
satisfiable and on symbolic addresses (every solver-feasible address)."""
import os
import re
import sys
import time
import z3
from llparse import Module, Cur, tsize, talign, st_offsets, ParseError, NAME, unq

sys.setrecursionlimit(10000)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
OBJ_SHIFT = 20
OFFMASK = (1 << OBJ_SHIFT) - 1
FUNC_ID = 0x100
GLOB_ID = 0x1000
HEAP_ID = 0x100000


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Fork(Exception):
    """alternatives: list of (constraint, key, value)"""

    def __init__(self, alts):
        self.alts = alts


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ symbolic helpers
def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    return v


def as_bool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    return v


_undef_n = [0]


def fresh_undef(w):
    _undef_n[0] += 1
    return z3.BitVec('undef!%d' % _undef_n[0], w)


def has_undef(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('undef!'):
                return True
        st.extend(x.children())
    return False


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sym_bin(op, x, y, w):
    if x is UNDEF or y is UNDEF:
        if op == 'and' and ((type(x) is int and x == 0) or (type(y) is int and y == 0)):
            return 0
        if op == 'or' and ((type(x) is int and x == (1 << w) - 1) or (type(y) is int and y == (1 << w) - 1)):
            return (1 << w) - 1
        if w == 1 and op in ('and', 'or'):
            # the other operand may decide the result
            o = y if x is UNDEF else x
            if o is UNDEF or type(o) is int:
                return UNDEF
            u = fresh_undef(1) == 1
            return z3.And(u, as_bool(o)) if op == 'and' else z3.Or(u, as_bool(o))
        return UNDEF
    if w == 1:
        a, b = as_bool(x), as_bool(y)
        if op == 'and' or op == 'mul':
            return simp(z3.And(a, b))
        if op == 'or':
            return simp(z3.Or(a, b))
        if op in ('xor', 'add', 'sub'):
            return simp(z3.Xor(a, b))
        raise Unsupported('i1 ' + op)
    a, b = bv(x, w), bv(y, w)
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        r = a << b
    elif op == 'lshr':
        r = z3.LShR(a, b)
    elif op == 'ashr':
        r = a >> b
    elif op == 'udiv':
        r = z3.UDiv(a, b)
    elif op == 'urem':
        r = z3.URem(a, b)
    elif op == 'sdiv':
        r = a / b
    elif op == 'srem':
        r = z3.SRem(a, b)
    else:
        raise Unsupported(op)
    return simp(r)


def con_bin(op, x, y, w):
    M = (1 << w) - 1
    if op == 'add':
        return (x + y) & M
    if op == 'sub':
        return (x - y) & M
    if op == 'mul':
        return (x * y) & M
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'shl':
        return (x << y) & M if y < w else UNDEF
    if op == 'lshr':
        return x >> y if y < w else UNDEF
    if op == 'ashr':
        return (sx(x, w) >> y) & M if y < w else UNDEF
    if op == 'udiv':
        if y == 0:
            raise Violation('ub', 'division by zero')
        return x // y
    if op == 'urem':
        if y == 0:
            raise Violation('ub', 'division by zero')
        return x % y
    if op in ('sdiv', 'srem'):
        if y == 0:
            raise Violation('ub', 'division by zero')
        a, b = sx(x, w), sx(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q & M) if op == 'sdiv' else ((a - q * b) & M)
    raise Unsupported(op)


def icmp_con(p, x, y, w):
    if p == 'eq':
        return x == y
    if p == 'ne':
        return x != y
    if p == 'ult':
        return x < y
    if p == 'ule':
        return x <= y
    if p == 'ugt':
        return x > y
    if p == 'uge':
        return x >= y
    a, b = sx(x, w), sx(y, w)
    return {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p]


def icmp_sym(p, x, y, w):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if w == 1:
        a, b = as_bool(x), as_bool(y)
        if p == 'eq':
            return simp(a == b)
        if p == 'ne':
            return simp(z3.Xor(a, b))
        a, b = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    else:
        a, b = bv(x, w), bv(y, w)
    f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
         'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
         'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]
    return simp(f())


def v_byte(v, size, i):
    if type(v) is int:
        return (v >> (8 * i)) & 255
    if v is UNDEF:
        return UNDEF
    if z3.is_bool(v):
        v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return v
    w = v.size()
    if 8 * i >= w:
        return 0
    hi = min(8 * i + 7, w - 1)
    e = z3.Extract(hi, 8 * i, v)
    if hi - 8 * i + 1 < 8:
        e = z3.ZeroExt(8 - (hi - 8 * i + 1), e)
    return simp(e)


def v_join(bs):
    """little-endian list of byte values -> value"""
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if all(b is UNDEF for b in bs):
        return UNDEF
    parts = [fresh_undef(8) if b is UNDEF else bv(b, 8) for b in bs]
    if len(parts) == 1:
        return parts[0]
    return simp(z3.Concat(*reversed(parts)))


def same_val(a, b):
    if type(a) is int or type(b) is int or a is UNDEF or b is UNDEF:
        return a is b or (type(a) is int and type(b) is int and a == b)
    if type(a) is tuple or type(b) is tuple:
        return type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return a.eq(b)


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('id', 'size', 'cells', 'epoch', 'live', 'kind', 'ro', 'depth')

    def __init__(self, id, size, kind, epoch, depth=0, ro=False):
        self.id = id
        self.size = size
        self.kind = kind
        self.cells = {}
        self.epoch = epoch
        self.live = True
        self.ro = ro
        self.depth = depth

    def copy(self, epoch):
        o = Obj(self.id, self.size, self.kind, epoch, self.depth, self.ro)
        o.cells = dict(self.cells)
        o.live = self.live
        return o

    def read(self, off, size):
        c = self.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return v_join([self.byte(off + i) for i in range(size)])

    def byte(self, off):
        cells = self.cells
        for d in range(0, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return v_byte(c[1], c[0], d)
                # a cell that ends before off: an earlier cell cannot reach past it
                return UNDEF
        return UNDEF

    def clear(self, off, size):
        """make [off,off+size) empty, splitting straddling cells"""
        cells = self.cells
        end = off + size
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    del cells[off - d]
                    for i in range(c[0]):
                        p = off - d + i
                        if p < off or p >= end:
                            cells[p] = (1, v_byte(c[1], c[0], i))
                break
        if size <= 64:
            rng = [o for o in range(off, end) if o in cells]
        else:
            rng = [o for o in cells if off <= o < end]
        for o in rng:
            c = cells.pop(o)
            if o + c[0] > end:
                for i in range(c[0]):
                    if o + i >= end:
                        cells[o + i] = (1, v_byte(c[1], c[0], i))

    def write(self, off, size, v):
        cells = self.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear(off, size)
        if v is not UNDEF:
            cells[off] = (size, v)

    def chunks(self, off, size):
        """list of (reloff, size, val) covering the initialised part of [off,off+size)"""
        out = []
        end = off + size
        cells = self.cells
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    for i in range(d, min(c[0], end - off + d)):
                        out.append((i - d, 1, v_byte(c[1], c[0], i)))
                break
        if size <= 256:
            rng = [o for o in range(off, end) if o in cells]
        else:
            rng = sorted(o for o in cells if off <= o < end)
        for o in rng:
            c = cells[o]
            if o + c[0] <= end:
                out.append((o - off, c[0], c[1]))
            else:
                for i in range(end - o):
                    out.append((o - off + i, 1, v_byte(c[1], c[0], i)))
        return out


# ------------------------------------------------------------------ program image
class Image:
    def __init__(self, path):
        self.mod = Module(path)
        self.fn_addr = {}
        self.addr_fn = {}
        self.gl_id = {}
        self.id_gl = {}
        self.cache = {}
        self.gobjs = {}
        self.executed = set()

    def resolve(self, n):
        while n in self.mod.aliases:
            n = self.mod.aliases[n]
        return n

    def is_func(self, n):
        return n in self.mod.funcs or n in self.mod.decls

    def addr_of(self, n):
        n = self.resolve(n)
        if self.is_func(n):
            a = self.fn_addr.get(n)
            if a is None:
                a = (FUNC_ID << OBJ_SHIFT) + 16 * (len(self.fn_addr) + 1)
                self.fn_addr[n] = a
                self.addr_fn[a] = n
            return a
        g = self.gl_id.get(n)
        if g is None:
            if n not in self.mod.globals:
                raise Unsupported('unknown symbol ' + n)
            g = GLOB_ID + len(self.gl_id)
            self.gl_id[n] = g
            self.id_gl[g] = n
        return g << OBJ_SHIFT

    def cval(self, t, v):
        k = v[0]
        if k == 'int':
            w = t[1] if t[0] == 'i' else 64
            return v[1] & ((1 << w) - 1)
        if k == 'undef':
            if t[0] in ('st', 'arr', 'vec'):
                n = len(t[1]) if t[0] == 'st' else t[1]
                ts = t[1] if t[0] == 'st' else [t[2]] * n
                return tuple(self.cval(e, v) for e in ts)
            return UNDEF
        if k == 'zero':
            if t[0] == 'st':
                return tuple(self.cval(e, v) for e in t[1])
            if t[0] in ('arr', 'vec'):
                return tuple(self.cval(t[2], v) for _ in range(t[1]))
            return 0
        if k == 'g':
            return self.addr_of(v[1][1:])
        if k == 'agg':
            return tuple(self.cval(et, ev) for et, ev in v[1])
        if k == 'gep':
            base = self.cval(v[2][0][0], v[2][0][1])
            return (base + self.gep_off(v[1], [(ot, self.cval(ot, ov)) for ot, ov in v[2][1:]])) & (2 ** 64 - 1)
        if k == 'cast':
            x = self.cval(v[2], v[3])
            if v[1] == 'trunc':
                x &= (1 << v[4][1]) - 1
            return x
        if k == 'bin':
            w = v[2][1] if v[2][0] == 'i' else 64
            return con_bin(v[1], self.cval(v[2], v[3]), self.cval(v[2], v[4]), w)
        raise Unsupported('const ' + k)

    def gep_off(self, bt, idx):
        off = 0
        t = bt
        for n, (ot, i) in enumerate(idx):
            w = ot[1] if ot[0] == 'i' else 64
            i = sx(i, w)
            if n == 0:
                off += i * tsize(t)
            elif t[0] == 'st':
                off += st_offsets(t)[i]
                t = t[1][i]
            else:
                off += i * tsize(t[2])
                t = t[2]
        return off

    def store_const(self, o, off, t, v):
        if v[0] == 'str':
            b = v[1]
            i = 0
            while i + 8 <= len(b):
                o.cells[off + i] = (8, int.from_bytes(b[i:i + 8], 'little'))
                i += 8
            while i < len(b):
                o.cells[off + i] = (1, b[i])
                i += 1
            return
        if v[0] == 'agg':
            if t[0] == 'st':
                for f, (et, ev) in zip(st_offsets(t), v[1]):
                    self.store_const(o, off + f, et, ev)
            else:
                s = tsize(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.store_const(o, off + i * s, et, ev)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'zero':
            n = tsize(t)
            i = 0
            while i + 8 <= n:
                o.cells[off + i] = (8, 0)
                i += 8
            while i < n:
                o.cells[off + i] = (1, 0)
                i += 1
            return
        o.cells[off] = (tsize(t), self.cval(t, v))

    def global_obj(self, gid):
        o = self.gobjs.get(gid)
        if o is None:
            n = self.id_gl.get(gid)
            if n is None:
                return None
            txt = self.mod.globals[n]
            m = re.search(r'\b(global|constant) ', txt)
            if not m or re.match(r'[^"]*\bexternal\b', txt[:m.start() + 1]):
                raise Unsupported('external global ' + n)
            c = Cur(txt, self.mod, m.end())
            t = c.type()
            v = c.value(t)
            o = Obj(gid, tsize(t), 'global', -1, 0, ro=(m.group(1) == 'constant'))
            self.store_const(o, 0, t, v)
            self.gobjs[gid] = o
        return o

    def func(self, n):
        f = self.cache.get(n)
        if f is None:
            f = Function(self, n)
            self.cache[n] = f
        return f


class Function:
    def __init__(self, img, name):
        self.img = img
        self.name = name
        self.code = []
        self.template = []
        self.src = []      # per pc: (line number in .ll)
        self.decode()

    # --- slots
    def slot(self, n):
        s = self.slots.get(n)
        if s is None:
            s = len(self.template)
            self.slots[n] = s
            self.template.append(None)
        return s

    def cslot(self, val):
        key = ('c', val) if type(val) in (int, tuple) else ('u',)
        s = self.slots.get(key)
        if s is None:
            s = len(self.template)
            self.slots[key] = s
            self.template.append(val)
        return s

    def opnd(self, t, v):
        if v[0] == 'reg':
            return self.slot(v[1])
        return self.cslot(self.img.cval(t, v))

    def decode(self):
        img = self.img
        head, body = img.mod.func_text(self.name)
        l0 = img.mod.funcs[self.name][0] + 2
        self.slots = {}
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        c = Cur(head, img.mod, m.end())
        self.args = []
        if not c.eat(')'):
            while True:
                if c.eat('...'):
                    c.need(')')
                    break
                c.type()
                c.attrs()
                if c.peek('%'):
                    self.args.append(self.slot(c.name()))
                else:
                    self.args.append(self.slot('%' + str(len(self.args))))
                if c.eat(')'):
                    break
                c.need(',')
        # blocks
        blocks = []          # (label, [ (lineno, text) ])
        first = None
        nargs = len(self.args)
        cur = None
        for k, line in enumerate(body):
            s = line.strip()
            if not s or s[0] == ';':
                continue
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', line)
            if mm:
                cur = []
                blocks.append(('%' + mm.group(1).strip('"'), cur))
                continue
            if cur is None:
                cur = []
                blocks.append(('%' + str(nargs), cur))
            if cur and (cur[-1][1].startswith('switch') or ' = switch' in cur[-1][1]) and not cur[-1][1].rstrip().endswith(']') \
                    and not re.search(r'\](, !.*)?$', cur[-1][1]):
                cur[-1] = (cur[-1][0], cur[-1][1] + ' ' + s)
                continue
            if s.startswith('to label') or s.startswith('cleanup') or s.startswith('filter') or s.startswith('catch'):
                cur[-1] = (cur[-1][0], cur[-1][1] + ' ' + s)
                continue
            cur.append((l0 + k, s))
        # phis
        self.phis = {}
        succ = {}
        for lab, ins in blocks:
            ph = []
            for ln, s in ins:
                pm = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = phi ', s)
                if not pm:
                    break
                c = Cur(s, img.mod, pm.end())
                while c.peekword() in ('nnan', 'ninf', 'nsz', 'fast'):
                    c.word()
                t = c.type()
                d = self.slot(unq(pm.group(1)))
                inc = {}
                while True:
                    c.need('[')
                    v = c.value(t)
                    c.need(',')
                    b = c.name()
                    c.need(']')
                    inc[b] = self.opnd(t, v)
                    if not c.eat(','):
                        break
                    if c.peek('!'):
                        break
                ph.append((d, inc))
            self.phis[lab] = ph
        # terminator successors (textual) for back-edge detection
        for lab, ins in blocks:
            tx = ins[-1][1]
            succ[lab] = [unq(x) for x in re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', tx)]
        self.headers = self.find_headers(blocks[0][0], succ)
        self.hphis = ()
        # loop-carried registers of all loops: an inner loop which is entered anew by an outer one is no repetition
        self.hphis = sorted({d for h in self.headers for d, _ in self.phis[h]})
        # layout
        self.blockpc = {}
        pcn = 0
        for lab, ins in blocks:
            self.blockpc[lab] = pcn
            pcn += len(ins) - len(self.phis[lab])
        for lab, ins in blocks:
            self.curblock = lab
            for ln, s in ins[len(self.phis[lab]):]:
                try:
                    op = self.instr(s)
                except (ParseError, Unsupported, IndexError, ValueError, KeyError) as e:
                    op = self.unsupported(s, e)
                self.code.append(op)
                self.src.append(ln)
        del self.curblock

    def unsupported(self, s, e):
        nm = self.name

        def f(S, R):
            raise Unsupported('%s: %s (%r)' % (nm[:60], s[:160], e))
        return f

    def find_headers(self, entry, succ):
        color = {}
        heads = set()
        st = [(entry, iter(succ.get(entry, [])))]
        color[entry] = 1
        while st:
            b, it = st[-1]
            for n in it:
                cn = color.get(n, 0)
                if cn == 0:
                    color[n] = 1
                    st.append((n, iter(succ.get(n, []))))
                    break
                if cn == 1:
                    heads.add(n)
            else:
                color[b] = 2
                st.pop()
        return heads

    def edge(self, dst):
        """-> function go(S,R) -> pc performing the phi moves for the edge curblock->dst"""
        src = self.curblock
        moves = [(d, inc[src]) for d, inc in self.phis[dst]]
        pc = self.blockpc[dst]
        if dst in self.headers:
            phid = tuple(self.hphis)

            def go(S, R):
                vals = [R[s] for _, s in moves]
                for (d, _), v in zip(moves, vals):
                    R[d] = v
                S.at_header(pc, [R[d] for d in phid])
                return pc
            return go
        if not moves:
            return lambda S, R: pc
        if len(moves) == 1:
            d0, s0 = moves[0]

            def go1(S, R):
                R[d0] = R[s0]
                return pc
            return go1

        def gon(S, R):
            vals = [R[s] for _, s in moves]
            for (d, _), v in zip(moves, vals):
                R[d] = v
            return pc
        return gon

    # --- instruction decode
    def instr(self, s):
        img = self.img
        d = None
        m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
        c = Cur(s, img.mod)
        if m:
            d = self.slot(unq(m.group(1)))
            c.i = m.end()
        w = c.word()
        if w in ('tail', 'musttail', 'notail'):
            w = c.word()
        fn = getattr(self, 'i_' + w, None)
        if fn is None:
            if w in BINOPS:
                return self.binop(c, d, w)
            raise Unsupported('instr ' + w)
        return fn(c, d)

    def binop(self, c, d, op):
        while c.peekword() in ('nuw', 'nsw', 'exact', 'disjoint'):
            c.word()
        t = c.type()
        a = self.opnd(t, c.value(t))
        c.need(',')
        b = self.opnd(t, c.value(t))
        if t[0] != 'i':
            raise Unsupported('binop on ' + str(t))
        w = t[1]
        M = (1 << w) - 1
        if op == 'add':
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = (x + y) & M
                else:
                    R[d] = sym_bin(op, x, y, w)
        elif op == 'sub':
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = (x - y) & M
                else:
                    R[d] = sym_bin(op, x, y, w)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = con_bin(op, x, y, w)
                else:
                    if y is UNDEF:
                        raise Violation('uninit', 'division by uninitialised value')
                    if type(y) is not int and S.decide(simp(y == 0)):
                        raise Violation('ub', 'division by zero')
                    if type(y) is int and y == 0:
                        raise Violation('ub', 'division by zero')
                    R[d] = sym_bin(op, x, y, w)
        else:
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = con_bin(op, x, y, w)
                else:
                    R[d] = sym_bin(op, x, y, w)
        return f

    def i_icmp(self, c, d):
        p = c.word()
        if p == 'samesign':
            p = c.word()
        t = c.type()
        a = self.opnd(t, c.value(t))
        c.need(',')
        b = self.opnd(t, c.value(t))
        w = t[1] if t[0] == 'i' else 64
        if t[0] == 'vec':
            raise Unsupported('vec icmp')

        def f(S, R):
            x = R[a]
            y = R[b]
            if type(x) is int and type(y) is int:
                R[d] = 1 if icmp_con(p, x, y, w) else 0
            else:
                R[d] = icmp_sym(p, x, y, w)
        if p == 'eq':
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = 1 if x == y else 0
                else:
                    R[d] = icmp_sym(p, x, y, w)
        elif p == 'ult':
            def f(S, R):
                x = R[a]
                y = R[b]
                if type(x) is int and type(y) is int:
                    R[d] = 1 if x < y else 0
                else:
                    R[d] = icmp_sym(p, x, y, w)
        return f

    def cast(self, c, d, op):
        while c.peekword() in ('nuw', 'nsw', 'nneg'):
            c.word()
        t = c.type()
        a = self.opnd(t, c.value(t))
        c.need('to')
        t2 = c.type()
        if t[0] == 'vec':
            raise Unsupported('vec cast')
        w1 = t[1] if t[0] == 'i' else 64
        w2 = t2[1] if t2[0] == 'i' else 64
        M = (1 << w2) - 1

        def f(S, R):
            x = R[a]
            if type(x) is int:
                if op == 'sext':
                    R[d] = sx(x, w1) & M
                else:
                    R[d] = x & M
                return
            if x is UNDEF:
                R[d] = UNDEF
                return
            R[d] = sym_cast(op, x, w1, w2)
        return f

    def i_zext(self, c, d):
        return self.cast(c, d, 'zext')

    def i_sext(self, c, d):
        return self.cast(c, d, 'sext')

    def i_trunc(self, c, d):
        return self.cast(c, d, 'trunc')

    def i_ptrtoint(self, c, d):
        return self.cast(c, d, 'zext')

    def i_inttoptr(self, c, d):
        return self.cast(c, d, 'zext')

    def i_bitcast(self, c, d):
        return self.cast(c, d, 'zext')

    def i_freeze(self, c, d):
        t = c.type()
        a = self.opnd(t, c.value(t))
        w = t[1] if t[0] == 'i' else 64

        def f(S, R):
            x = R[a]
            if x is UNDEF:
                x = fresh_undef(w)
                if w == 1:
                    x = x == 1
            R[d] = x
        return f

    def i_select(self, c, d):
        ct, cv = c.tval()
        cs = self.opnd(ct, cv)
        c.need(',')
        t, av = c.tval()
        a = self.opnd(t, av)
        c.need(',')
        t2, bv_ = c.tval()
        b = self.opnd(t2, bv_)
        w = t[1] if t[0] == 'i' else 64
        isptr = t[0] != 'i'

        def f(S, R):
            x = R[cs]
            if type(x) is int:
                R[d] = R[a] if x else R[b]
                return
            p, q = R[a], R[b]
            if x is UNDEF:
                if same_val(p, q):
                    R[d] = p
                else:
                    R[d] = UNDEF
                return
            if isptr or p is UNDEF or q is UNDEF:
                if _undef_n[0] and has_undef(x) and S.eng.both(S, x) == (True, True):
                    R[d] = p if same_val(p, q) else UNDEF
                else:
                    R[d] = p if S.decide(x) else q
                return
            if w == 1:
                R[d] = simp(z3.If(x, as_bool(p), as_bool(q)))
            else:
                R[d] = simp(z3.If(x, bv(p, w), bv(q, w)))
        return f

    def i_alloca(self, c, d):
        c.eat('inalloca')
        t = c.type()
        n = tsize(t)
        if c.eat(','):
            if not c.peek('align'):
                raise Unsupported('alloca count')

        def f(S, R):
            R[d] = S.alloca(n)
        return f

    def i_load(self, c, d):
        atomic = c.eat('atomic')
        c.eat('volatile')
        t = c.type()
        c.need(',')
        pt, pv = c.tval()
        p = self.opnd(pt, pv)
        order = None
        if atomic:
            c.ws()
            if c.eat('syncscope'):
                c.skip_parens()
            order = c.word()
        al = None
        if c.eat(','):
            if c.eat('align'):
                al = c.num()
        n = tsize(t)
        isb = t == ('i', 1)
        if t[0] in ('vec', 'arr', 'st', 'f'):
            return self.agg_load(d, p, t, al)
        w = t[1] if t[0] == 'i' else 64
        part = w < 8 * n and not isb
        M = (1 << w) - 1

        def f(S, R):
            a = R[p]
            if type(a) is not int:
                a = S.concretize(a)
            v = S.load(a, n, order, al)
            if type(v) is int:
                R[d] = v & M
                return
            if v is UNDEF:
                R[d] = UNDEF
                return
            if isb:
                if not z3.is_bool(v):
                    v = simp(z3.Extract(0, 0, v) == 1)
            elif z3.is_bool(v):
                v = simp(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
            elif part:
                v = simp(z3.Extract(w - 1, 0, v))
            R[d] = v
        return f

    def agg_load(self, d, p, t, al):
        if t[0] == 'f':
            n = tsize(t)

            def g(S, R):
                a = S.concretize(R[p])
                R[d] = S.load(a, n, None, al)
            return g
        if t[0] == 'st':
            offs = list(zip(st_offsets(t), t[1]))
        else:
            s = tsize(t[2])
            offs = [(i * s, t[2]) for i in range(t[1])]

        def f(S, R):
            a = S.concretize(R[p])
            R[d] = tuple(S.load(a + o, tsize(e), None, 1) for o, e in offs)
        return f

    def i_store(self, c, d):
        atomic = c.eat('atomic')
        c.eat('volatile')
        t, vv = c.tval()
        v = self.opnd(t, vv)
        c.need(',')
        pt, pv = c.tval()
        p = self.opnd(pt, pv)
        order = None
        if atomic:
            c.ws()
            if c.eat('syncscope'):
                c.skip_parens()
            order = c.word()
        al = None
        if c.eat(','):
            if c.eat('align'):
                al = c.num()
        n = tsize(t)
        if t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st':
                offs = list(zip(st_offsets(t), t[1]))
            else:
                s = tsize(t[2])
                offs = [(i * s, t[2]) for i in range(t[1])]

            def g(S, R):
                a = S.concretize(R[p])
                x = R[v]
                for (o, e), y in zip(offs, x):
                    S.store(a + o, tsize(e), y, None, 1)
            return g

        def f(S, R):
            a = R[p]
            if type(a) is not int:
                a = S.concretize(a)
            S.store(a, n, R[v], order, al)
        return f

    def i_fence(self, c, d):
        if c.eat('syncscope'):
            c.skip_parens()
        o = c.word()

        def f(S, R):
            S.fence(o)
        return f

    def i_cmpxchg(self, c, d):
        c.eat('weak')
        c.eat('volatile')
        pt, pv = c.tval()
        p = self.opnd(pt, pv)
        c.need(',')
        t, ev = c.tval()
        e = self.opnd(t, ev)
        c.need(',')
        t2, nv = c.tval()
        nw = self.opnd(t2, nv)
        if c.eat('syncscope'):
            c.skip_parens()
        o1 = c.word()
        o2 = c.word()
        n = tsize(t)
        w = t[1] if t[0] == 'i' else 64

        def f(S, R):
            a = S.concretize(R[p])
            old, ok = S.cas(a, n, R[e], R[nw], o1, o2, w)
            R[d] = (old, ok)
        return f

    def i_atomicrmw(self, c, d):
        c.eat('volatile')
        op = c.word()
        pt, pv = c.tval()
        p = self.opnd(pt, pv)
        c.need(',')
        t, vv = c.tval()
        v = self.opnd(t, vv)
        if c.eat('syncscope'):
            c.skip_parens()
        o = c.word()
        n = tsize(t)
        w = t[1] if t[0] == 'i' else 64

        def f(S, R):
            a = S.concretize(R[p])
            R[d] = S.rmw(a, n, op, R[v], o, w)
        if d is None:
            def f(S, R):
                a = S.concretize(R[p])
                S.rmw(a, n, op, R[v], o, w)
        return f

    def i_getelementptr(self, c, d):
        while c.peekword() in ('inbounds', 'nuw', 'nusw'):
            c.word()
        bt = c.type()
        c.need(',')
        pt, pv = c.tval()
        p = self.opnd(pt, pv)
        terms = []
        const = 0
        t = bt
        first = True
        while c.eat(','):
            if c.peek('!'):
                break
            ot, ov = c.tval()
            if first:
                scale = tsize(t)
                first = False
            elif t[0] == 'st':
                i = ov[1]
                const += st_offsets(t)[i]
                t = t[1][i]
                continue
            else:
                scale = tsize(t[2])
                t = t[2]
            w = ot[1]
            if ov[0] == 'reg':
                terms.append((self.slot(ov[1]), scale, w))
            else:
                const += sx(self.img.cval(ot, ov), w) * scale
        M = 2 ** 64 - 1
        if not terms:
            def f(S, R):
                x = R[p]
                if type(x) is int:
                    R[d] = (x + const) & M
                elif x is UNDEF:
                    R[d] = UNDEF
                else:
                    R[d] = simp(x + const)
            return f
        if len(terms) == 1 and terms[0][2] == 64:
            s0, sc, _ = terms[0]

            def f1(S, R):
                x = R[p]
                y = R[s0]
                if type(x) is int and type(y) is int:
                    R[d] = (x + y * sc + const) & M
                elif x is UNDEF or y is UNDEF:
                    R[d] = UNDEF
                else:
                    R[d] = simp(bv(x, 64) + bv(y, 64) * sc + const)
            return f1

        def fn(S, R):
            x = R[p]
            for s0, sc, w in terms:
                y = R[s0]
                if x is UNDEF or y is UNDEF:
                    R[d] = UNDEF
                    return
                if type(y) is int:
                    y = sx(y, w) * sc
                elif w < 64:
                    y = z3.SignExt(64 - w, y) * sc
                else:
                    y = y * sc
                x = x + y
            x = x + const
            R[d] = x & M if type(x) is int else simp(x)
        return fn

    def i_extractvalue(self, c, d):
        t, v = c.tval()
        a = self.opnd(t, v)
        idx = []
        while c.eat(','):
            if c.peek('!'):
                break
            idx.append(c.num())

        def f(S, R):
            x = R[a]
            for i in idx:
                if x is UNDEF:
                    break
                x = x[i]
            R[d] = x
        return f

    def i_insertvalue(self, c, d):
        t, v = c.tval()
        a = self.opnd(t, v)
        c.need(',')
        et, ev = c.tval()
        e = self.opnd(et, ev)
        idx = []
        while c.eat(','):
            if c.peek('!'):
                break
            idx.append(c.num())

        def ins(x, ix, y):
            l = list(x)
            l[ix[0]] = y if len(ix) == 1 else ins(l[ix[0]], ix[1:], y)
            return tuple(l)

        def f(S, R):
            R[d] = ins(R[a], idx, R[e])
        return f

    def i_br(self, c, d):
        t = c.type()
        if t[0] == 'label':
            return self.edge(c.name())
        v = c.value(t)
        a = self.opnd(t, v)
        c.need(',')
        c.need('label')
        l1 = c.name()
        c.need(',')
        c.need('label')
        l2 = c.name()
        g1 = self.edge(l1)
        g2 = self.edge(l2)

        def f(S, R):
            x = R[a]
            if type(x) is not int:
                x = S.decide(x)
            return g1(S, R) if x else g2(S, R)
        return f

    def i_switch(self, c, d):
        t, v = c.tval()
        a = self.opnd(t, v)
        c.need(',')
        c.need('label')
        dl = self.edge(c.name())
        c.need('[')
        cases = {}
        while not c.eat(']'):
            ct = c.type()
            cv = self.img.cval(ct, c.value(ct))
            c.need(',')
            c.need('label')
            cases[cv] = self.edge(c.name())
        w = t[1]

        def f(S, R):
            x = R[a]
            if type(x) is not int:
                if x is UNDEF:
                    raise Violation('uninit', 'switch on uninitialised value')
                for cv, g in cases.items():
                    if w == 1:
                        cond = x if cv else simp(z3.Not(x))
                    else:
                        cond = simp(x == cv)
                    if type(cond) is int:
                        if cond:
                            return g(S, R)
                        continue
                    if S.decide(cond):
                        return g(S, R)
                return dl(S, R)
            return cases.get(x, dl)(S, R)
        return f

    def i_unreachable(self, c, d):
        def f(S, R):
            raise Violation('ub', 'unreachable code reached')
        return f

    def i_ret(self, c, d):
        t = c.type()
        if t[0] == 'void':
            def f0(S, R):
                return S.do_ret(None)
            return f0
        a = self.opnd(t, c.value(t))

        def f(S, R):
            return S.do_ret(R[a])
        return f

    def i_landingpad(self, c, d):
        def f(S, R):
            R[d] = (S.exc or 0xE0, 1)
        return f

    def i_resume(self, c, d):
        def f(S, R):
            return S.unwind()
        return f

    def i_call(self, c, d):
        return self.call(c, d, False)

    def i_invoke(self, c, d):
        return self.call(c, d, True)

    CALLW = {'fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'preserve_mostcc', 'preserve_allcc'}

    def call(self, c, d, invoke):
        while c.peekword() in self.CALLW or c.peekword() == 'cc':
            w = c.word()
            if w == 'cc':
                c.num()
        c.attrs_ret()
        t = c.type()
        if c.peek('('):      # function type given
            c.skip_parens()
        c.ws()
        if c.s[c.i] == '@':
            target = c.name()[1:]
            ts = None
        elif c.s[c.i] == '%':
            target = None
            ts = self.slot(c.name())
        elif c.peek('asm'):
            # inline asm: accept empty-template barriers (black_box etc.)
            m = re.match(r'asm (?:sideeffect |alignstack |inteldialect |unwind )*"([^"]*)"', c.s[c.i:])
            if m and m.group(1) == '':
                return lambda S, R: None
            raise Unsupported('inline asm')
        else:
            tv = c.value(('ptr',))
            target = None
            ts = self.opnd(('ptr',), tv)
        c.need('(')
        args = []
        if not c.eat(')'):
            while True:
                at = c.type()
                if at[0] == 'metadata':
                    c.value(at)
                    args.append(self.cslot(0))
                else:
                    c.attrs()
                    args.append(self.opnd(at, c.value(at)))
                if c.eat(')'):
                    break
                c.need(',')
        norm = unw = None
        if invoke:
            # skip function attributes up to 'to label'
            k = c.s.index(' to label ', c.i) if ' to label ' in c.s[c.i - 1:] else c.s.index('to label', c.i)
            c.i = k
            c.need('to')
            c.need('label')
            norm = self.edge(c.name())
            c.need('unwind')
            c.need('label')
            unw = self.edge(c.name())
        pcnext = len(self.code) + 1
        if target is not None:
            target = self.img.resolve(target)
            if target.startswith('llvm.'):
                f = self.llvm(target, d, args, t)
                if invoke:
                    def fi(S, R):
                        f(S, R)
                        return norm(S, R)
                    return fi
                return f
        img = self.img

        if target is not None and target not in img.mod.funcs or (target is not None and is_special(target)):
            h = special_handler(target, t)
            if h is None:
                nm = target

                def fu(S, R):
                    raise Unsupported('external function ' + nm)
                return fu

            def fs(S, R):
                F = S.F
                F.retdst = d
                F.norm = norm
                F.unw = unw
                r = h(S, [R[a] for a in args])
                if r is FRAME:
                    return -1
                if d is not None:
                    R[d] = r
                if norm is not None:
                    return norm(S, R)
            return fs

        def fc(S, R):
            if ts is not None:
                a = R[ts]
                if type(a) is not int:
                    a = S.concretize(a)
                tgt = img.addr_fn.get(a)
                if tgt is None:
                    raise Violation('memory', 'call through invalid function pointer %#x' % a)
                if tgt not in img.mod.funcs or is_special(tgt):
                    h = special_handler(tgt, t)
                    if h is None:
                        raise Unsupported('external function ' + tgt)
                    F = S.F
                    F.retdst = d
                    F.norm = norm
                    F.unw = unw
                    r = h(S, [R[x] for x in args])
                    if r is FRAME:
                        return -1
                    if d is not None:
                        R[d] = r
                    if norm is not None:
                        return norm(S, R)
                    return None
            else:
                tgt = target
            F = S.F
            F.retdst = d
            F.norm = norm
            F.unw = unw
            S.push_frame(img.func(tgt), [R[x] for x in args])
            return -1
        return fc

    # --- LLVM intrinsics
    def llvm(self, n, d, args, t):
        base = n[5:]
        if base.startswith(('lifetime', 'experimental.noalias', 'dbg.', 'invariant', 'prefetch', 'x86.sse2.pause', 'donothing', 'sideeffect', 'var.annotation', 'pseudoprobe')):
            if base.startswith('invariant.start'):
                return lambda S, R: R.__setitem__(d, 0) if d is not None else None
            return lambda S, R: None
        if base.startswith('assume'):
            a0 = args[0]

            def f(S, R):
                x = R[a0]
                if type(x) is int and x == 0:
                    raise Violation('ub', 'llvm.assume(false)')
            return f
        if base.startswith('trap') or base.startswith('ubsantrap'):
            def f(S, R):
                raise Violation('abort', 'trap')
            return f
        if base.startswith('expect') or base.startswith('launder') or base.startswith('strip') or base.startswith('ssa.copy'):
            a0 = args[0]
            return lambda S, R: R.__setitem__(d, R[a0])
        if base.startswith('is.constant'):
            return lambda S, R: R.__setitem__(d, 0)
        if base.startswith('objectsize'):
            return lambda S, R: R.__setitem__(d, (1 << 64) - 1)
        if base.startswith(('memcpy', 'memmove')):
            a, b, l = args[:3]

            def f(S, R):
                n_ = R[l]
                if type(n_) is not int:
                    n_ = S.concretize(n_)
                if n_ == 0:
                    return
                S.memcpy(S.concretize(R[a]), S.concretize(R[b]), n_)
            return f
        if base.startswith('memset'):
            a, b, l = args[:3]

            def f(S, R):
                n_ = S.concretize(R[l])
                if n_ == 0:
                    return
                S.memset(S.concretize(R[a]), R[b], n_)
            return f
        m = re.match(r'(ctlz|cttz|ctpop|bswap|fshl|fshr|umin|umax|smin|smax|usub\.sat|uadd\.sat|ssub\.sat|sadd\.sat|'
                     r'uadd\.with\.overflow|usub\.with\.overflow|umul\.with\.overflow|sadd\.with\.overflow|'
                     r'ssub\.with\.overflow|smul\.with\.overflow|abs|ucmp|scmp|bitreverse)\.(.*)$', base)
        if m:
            op = m.group(1)
            if op in ('ucmp', 'scmp'):
                w = int(m.group(2).split('.')[1][1:])
                rw = int(m.group(2).split('.')[0][1:])
            else:
                w = int(m.group(2)[1:])
                rw = w

            def f(S, R):
                R[d] = llvm_int(S, op, [R[a] for a in args], w, rw)
            return f
        raise Unsupported('intrinsic ' + n)


def attrs_ret(self):
    """skip return attributes before the return type"""
    while True:
        self.ws()
        c = self.s[self.i]
        if c.isalpha():
            w = self.peekword()
            if re.match(r'^(i[0-9]+|ptr|void|float|double|metadata|token|label)$', w):
                return
            self.i += len(w)
            if w == 'align' and not self.peek('('):
                self.num()
            elif self.i < len(self.s) and self.s[self.i] == '(':
                self.skip_parens()
        elif c == '"':
            j = self.s.index('"', self.i + 1)
            self.i = j + 1
        else:
            return


Cur.attrs_ret = attrs_ret

BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def sym_cast(op, x, w1, w2):
    if w1 == 1:
        if w2 == 1:
            return x
        hi = (1 << w2) - 1 if op == 'sext' else 1
        return simp(z3.If(x, z3.BitVecVal(hi, w2), z3.BitVecVal(0, w2)))
    if w2 == 1:
        return simp(z3.Extract(0, 0, x) == 1)
    if w2 == w1:
        return x
    if w2 < w1:
        return simp(z3.Extract(w2 - 1, 0, x))
    if op == 'sext':
        return simp(z3.SignExt(w2 - w1, x))
    return simp(z3.ZeroExt(w2 - w1, x))


def llvm_int(S, op, a, w, rw):
    M = (1 << w) - 1
    ov = op.endswith('overflow')
    if any(x is UNDEF for x in a):
        return (UNDEF, UNDEF) if ov else UNDEF
    if all(type(x) is int for x in a):
        x = a[0]
        y = a[1] if len(a) > 1 else 0
        if op == 'ctlz':
            return w - x.bit_length()
        if op == 'cttz':
            return w if x == 0 else (x & -x).bit_length() - 1
        if op == 'ctpop':
            return bin(x).count('1')
        if op == 'bswap':
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        if op == 'bitreverse':
            return int(bin(x)[2:].zfill(w)[::-1], 2)
        if op in ('fshl', 'fshr'):
            s = a[2] % w
            cc = (x << w) | y
            return ((cc << s) >> w) & M if op == 'fshl' else (cc >> s) & M
        if op == 'umin':
            return min(x, y)
        if op == 'umax':
            return max(x, y)
        if op == 'smin':
            return x if sx(x, w) <= sx(y, w) else y
        if op == 'smax':
            return x if sx(x, w) >= sx(y, w) else y
        if op == 'usub.sat':
            return max(0, x - y)
        if op == 'uadd.sat':
            return min(M, x + y)
        if op == 'abs':
            return abs(sx(x, w)) & M
        if op == 'ucmp':
            return ((x > y) - (x < y)) & ((1 << rw) - 1)
        if op == 'scmp':
            x, y = sx(x, w), sx(y, w)
            return ((x > y) - (x < y)) & ((1 << rw) - 1)
        if op == 'uadd.with.overflow':
            return ((x + y) & M, int(x + y > M))
        if op == 'usub.with.overflow':
            return ((x - y) & M, int(x < y))
        if op == 'umul.with.overflow':
            return ((x * y) & M, int(x * y > M))
        if op.startswith('s') and ov:
            x, y = sx(x, w), sx(y, w)
            r = x + y if op[1:4] == 'add' else x - y if op[1:4] == 'sub' else x * y
            return (r & M, int(not -(1 << (w - 1)) <= r < (1 << (w - 1))))
        raise Unsupported(op)
    x = bv(a[0], w)
    y = bv(a[1], w) if len(a) > 1 and op not in ('ctlz', 'cttz', 'abs') else None
    if op == 'ctlz':
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return simp(r)
    if op == 'cttz':
        r = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        return simp(r)
    if op == 'ctpop':
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return simp(r)
    if op == 'umin':
        return simp(z3.If(z3.ULT(x, y), x, y))
    if op == 'umax':
        return simp(z3.If(z3.ULT(x, y), y, x))
    if op == 'smin':
        return simp(z3.If(x < y, x, y))
    if op == 'smax':
        return simp(z3.If(x < y, y, x))
    if op == 'usub.sat':
        return simp(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
    if op == 'uadd.sat':
        return simp(z3.If(z3.ULT(x + y, x), z3.BitVecVal(M, w), x + y))
    if op in ('ucmp', 'scmp'):
        lt = z3.ULT(x, y) if op == 'ucmp' else x < y
        return simp(z3.If(lt, z3.BitVecVal(-1, rw), z3.If(x == y, z3.BitVecVal(0, rw), z3.BitVecVal(1, rw))))
    if op == 'uadd.with.overflow':
        return (simp(x + y), simp(z3.ULT(x + y, x)))
    if op == 'usub.with.overflow':
        return (simp(x - y), simp(z3.ULT(x, y)))
    if op == 'umul.with.overflow':
        return (simp(x * y), simp(z3.Not(z3.BVMulNoOverflow(x, y, False))))
    if op in ('fshl', 'fshr') and type(a[2]) is int:
        s = a[2] % w
        cc = z3.Concat(x, y)
        if op == 'fshl':
            return simp(z3.Extract(2 * w - 1 - s, w - s, cc))
        return simp(z3.Extract(w - 1 + s, s, cc))
    raise Unsupported('symbolic ' + op)


# ------------------------------------------------------------------ special functions
FRAME = object()

PANIC_RE = re.compile(r'(4core9panicking|6option13expect_failed|6option13unwrap_failed|6result13unwrap_failed|'
                      r'5slice5index\d+slice_|5slice5index24slice_|7raw_vec12handle_error|17capacity_overflow|'
                      r'3std9panicking|3std7process5abort|18handle_alloc_error|4cell\d+panic_already|'
                      r'8slice\w*copy_from_slice\w*len_mismatch|4core3str16slice_error_fail|'
                      r'19panic_cannot_unwind|5alloc7raw_vec|vec\w*swap_remove\w*assert_failed)')
NOUNWIND_RE = re.compile(r'(panic_nounwind|panic_cannot_unwind|panic_in_cleanup|process5abort|panic_null|panic_misaligned|panic_invalid_enum)')

ALLOC_RE = re.compile(r'_{2,3}rust_(alloc|dealloc|realloc|alloc_zeroed)$')


def is_special(n):
    h = _special_cache.get(n)
    if h is None:
        h = _is_special(n)
        _special_cache[n] = h
    return h


_special_cache = {}


def _is_special(n):
    if n.startswith('vp_'):
        return True
    if ALLOC_RE.search(n) or 'no_alloc_shim_is_unstable' in n:
        return True
    if n in ('malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'memcpy', 'memmove', 'memset', 'bcmp', 'memcmp', 'abort', 'strlen'):
        return True
    m = PANIC_RE.search(n)
    if m:
        if '5alloc7raw_vec' in n and 'handle_error' not in n and 'capacity_overflow' not in n:
            return False
        if 'drop_glue' in n:
            return False
        return True
    return False


def special_handler(n, t):
    if n.startswith('vp_'):
        f = VP.get(n)
        return f
    m = ALLOC_RE.search(n)
    if m:
        k = m.group(1)
        if k == 'alloc':
            return lambda S, a: S.malloc(S.concretize(a[0]), S.concretize(a[1]))
        if k == 'alloc_zeroed':
            def z(S, a):
                n_ = S.concretize(a[0])
                p = S.malloc(n_, S.concretize(a[1]))
                S.memset(p, 0, n_)
                return p
            return z
        if k == 'dealloc':
            return lambda S, a: S.mfree(S.concretize(a[0]), S.concretize(a[1]))

        def re_(S, a):
            p, old, al, new = [S.concretize(x) for x in a]
            return S.mrealloc(p, old, new, al)
        return re_
    if 'no_alloc_shim' in n:
        return lambda S, a: 0
    if n == 'malloc':
        return lambda S, a: S.malloc(S.concretize(a[0]), 16)
    if n == 'free':
        return lambda S, a: S.mfree(S.concretize(a[0]), None)
    if n in ('memcpy', 'memmove'):
        def mc(S, a):
            k = S.concretize(a[2])
            if k:
                S.memcpy(S.concretize(a[0]), S.concretize(a[1]), k)
            return a[0]
        return mc
    if n == 'memset':
        def ms(S, a):
            k = S.concretize(a[2])
            if k:
                S.memset(S.concretize(a[0]), a[1], k)
            return a[0]
        return ms
    if n in ('bcmp', 'memcmp'):
        def bc(S, a):
            p, q, k = [S.concretize(x) for x in a]
            acc = None
            for i in range(k):
                x = S.load(p + i, 1, None, 1)
                y = S.load(q + i, 1, None, 1)
                if x is UNDEF or y is UNDEF:
                    raise Violation('uninit', 'memcmp of uninitialised memory')
                if type(x) is int and type(y) is int:
                    if x != y:
                        return 1 if x > y else 0xFFFFFFFF
                    continue
                e = simp(bv(x, 8) == bv(y, 8))
                if not S.truth(e):
                    if n == 'bcmp':
                        return 1
                    return 1 if S.truth(simp(z3.UGT(bv(x, 8), bv(y, 8)))) else 0xFFFFFFFF
            return 0
        return bc
    if n == 'abort':
        def ab(S, a):
            raise Violation('abort', 'abort()')
        return ab
    if PANIC_RE.search(n):
        if NOUNWIND_RE.search(n):
            def pn(S, a):
                raise Violation('abort', 'non-unwinding panic: ' + short(n) + ' ' + S.panic_msg(n, a))
            return pn

        def pu(S, a):
            S.last_panic = short(n) + ' ' + S.panic_msg(n, a)
            return S.start_unwind()
        return pu
    return None


def short(n):
    m = re.findall(r'\d+([a-z_][a-z0-9_]*)', n)
    return '::'.join(m[-3:]) if m else n[:60]


def vp_any(S, a):
    return S.fresh_input(a[0])


def vp_assume(S, a):
    c = a[0]
    if type(c) is int:
        if not c & 1:
            raise PathEnd('assume')
        return 0
    S.assume(c)
    return 0


def vp_assert(S, a):
    c = a[0]
    if type(c) is int:
        if not c & 1:
            raise Violation('assert', 'assertion #%s' % (a[1],))
        S.nassert += 1
        return 0
    if c is UNDEF:
        raise Violation('uninit', 'assertion #%s on uninitialised value' % (a[1],))
    S.nassert += 1
    if not S.decide(c if z3.is_bool(c) else simp(z3.Extract(0, 0, c) == 1)):
        raise Violation('assert', 'assertion #%s' % (a[1],))
    return 0


def vp_reach(S, a):
    S.on_reach(S.concretize(a[0]))
    return 0


def vp_panic(S, a):
    S.last_panic = 'vp_panic'
    return S.start_unwind()


def vp_try(S, a):
    f = S.concretize(a[0])
    tgt = S.img.addr_fn.get(f)
    S.push_try(S.img.func(tgt), [a[1]])
    return FRAME


def vp_out(S, a):
    S.out[S.concretize(a[0])] = a[1]
    return 0


def vp_get(S, a):
    return S.get_out(S.concretize(a[0]))


def vp_concrete(S, a):
    return S.concretize(a[0])


def vp_heap_live(S, a):
    return S.heap_live


VP = {'vp_any': vp_any, 'vp_assume': vp_assume, 'vp_assert': vp_assert, 'vp_reach': vp_reach, 'vp_panic': vp_panic,
      'vp_try': vp_try, 'vp_out': vp_out, 'vp_get': vp_get, 'vp_concrete': vp_concrete, 'vp_heap_live': vp_heap_live}


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ('fn', 'R', 'pc', 'retdst', 'norm', 'unw', 'allocas', 'kind', 'loops', 'iid')

    def __init__(self, fn, R, kind, iid):
        self.fn = fn
        self.R = R
        self.pc = 0
        self.retdst = None
        self.norm = None
        self.unw = None
        self.allocas = []
        self.kind = kind
        self.loops = {}
        self.iid = iid

    def clone(self):
        f = Frame(self.fn, list(self.R), self.kind, self.iid)
        f.pc = self.pc
        f.retdst = self.retdst
        f.norm = self.norm
        f.unw = self.unw
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f


_epoch = [0]


def new_epoch():
    _epoch[0] += 1
    return _epoch[0]


class State:
    """one symbolic path"""
    thread = 'main'

    def __init__(self, eng):
        self.eng = eng
        self.img = eng.img
        self.frames = []
        self.F = None
        self.objs = {}
        self.epoch = new_epoch()
        self.pc = []
        self.known = {}
        self.nobj = 0
        self.niid = 0
        self.nin = 0
        self.inputs = []
        self.out = {}
        self.exc = None
        self.steps = 0
        self.wv = [0] * 256
        self.heap_live = 0
        self.nassert = 0
        self.last_panic = ''
        self.result = None
        self.reached = set()
        self.id_base = HEAP_ID
        self.decided_undef = False

    def clone(self):
        s = object.__new__(type(self))
        s.__dict__.update(self.__dict__)
        s.frames = [f.clone() for f in self.frames]
        s.F = s.frames[-1] if s.frames else None
        s.objs = dict(self.objs)
        s.epoch = new_epoch()
        self.epoch = new_epoch()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.inputs = list(self.inputs)
        s.out = dict(self.out)
        s.wv = list(self.wv)
        s.reached = set(self.reached)
        return s

    # ---- decisions
    def add(self, c):
        self.pc.append(c)

    def truth(self, v):
        return v if type(v) is int else self.decide(v)

    def decide(self, c):
        if c is UNDEF:
            raise Violation('uninit', 'branch on uninitialised value')
        if type(c) is int:
            return c
        if not z3.is_bool(c):
            c = simp(c == 1)
            if type(c) is int:
                return c
        k = c.get_id()
        r = self.known.get(k)
        if r is not None:
            return r[0]
        t, f = self.eng.both(self, c)
        if t and f:
            if _undef_n[0] and has_undef(c):
                raise Violation('uninit', 'branch depends on uninitialised value')
            raise Fork([(c, k, 1, c), (z3.Not(c), k, 0, c)])
        if not t and not f:
            raise PathEnd('infeasible')
        self.known[k] = (1 if t else 0, c)
        return 1 if t else 0

    def concretize(self, e):
        if type(e) is int:
            return e
        if e is UNDEF:
            raise Violation('uninit', 'uninitialised value used as address or size')
        k = e.get_id()
        r = self.known.get(k)
        if r is not None:
            return r[0]
        if _undef_n[0] and has_undef(e):
            raise Violation('uninit', 'uninitialised value used as address or size')
        vals = self.eng.values(self, e)
        if len(vals) == 1:
            self.known[k] = (vals[0], e)
            return vals[0]
        if not vals:
            raise PathEnd('infeasible')
        raise Fork([(e == v, k, v, e) for v in vals])

    def assume(self, c):
        if c is UNDEF:
            raise Violation('uninit', 'assume on uninitialised value')
        if not z3.is_bool(c):
            c = simp(z3.Extract(0, 0, c) == 1)
            if type(c) is int:
                if not c:
                    raise PathEnd('assume')
                return
        k = c.get_id()
        if k in self.known:
            if not self.known[k][0]:
                raise PathEnd('assume')
            return
        if not self.eng.feasible(self, c):
            raise PathEnd('assume')
        self.known[k] = (1, c)
        self.add(c)

    def fresh_input(self, tag):
        n = 'in_%s_%d' % (self.thread, self.nin)
        self.nin += 1
        v = z3.BitVec(n, 64)
        self.inputs.append((n, v))
        return v

    def on_reach(self, i):
        self.reached.add(i)

    def get_out(self, i):
        return self.out.get(i, UNDEF)

    # ---- frames
    def push_frame(self, fn, args, kind='call'):
        if len(self.frames) > 200:
            raise Inconclusive('call depth')
        R = list(fn.template)
        for s, v in zip(fn.args, args):
            R[s] = v
        self.niid += 1
        F = Frame(fn, R, kind, self.niid)
        self.img.executed.add(fn.name)
        self.frames.append(F)
        self.F = F
        self.wv[len(self.frames)] = 0
        return F

    def push_try(self, fn, args):
        self.push_frame(fn, args, 'try')

    def pop_frame(self):
        F = self.frames.pop()
        for a in F.allocas:
            self.objs.pop(a, None)
        self.F = self.frames[-1] if self.frames else None
        return F

    def do_ret(self, v):
        F = self.pop_frame()
        if self.F is None:
            self.result = v
            raise PathEnd('done')
        C = self.F
        if F.kind == 'try':
            v = 0
        if C.retdst is not None:
            C.R[C.retdst] = v
        if C.norm is not None:
            C.pc = C.norm(self, C.R)
        else:
            C.pc += 1
        return -1

    def start_unwind(self):
        self.exc = 0xE0
        while True:
            C = self.F
            if C.unw is not None:
                C.pc = C.unw(self, C.R)
                return FRAME
            F = self.pop_frame()
            if self.F is None:
                raise PathEnd('panic')
            if F.kind == 'try':
                C = self.F
                if C.retdst is not None:
                    C.R[C.retdst] = 1
                if C.norm is not None:
                    C.pc = C.norm(self, C.R)
                else:
                    C.pc += 1
                return FRAME

    def unwind(self):
        """resume: leave the current frame"""
        F = self.pop_frame()
        if self.F is None:
            raise PathEnd('panic')
        if F.kind == 'try':
            C = self.F
            if C.retdst is not None:
                C.R[C.retdst] = 1
            if C.norm is not None:
                C.pc = C.norm(self, C.R)
            else:
                C.pc += 1
            return -1
        self.start_unwind()
        return -1

    def panic_msg(self, n, a):
        """best effort: the first static string of the message"""
        try:
            for x, y in zip(a, a[1:]):
                if type(x) is int and type(y) is int and 0 < y < 200 and (x >> OBJ_SHIFT) >= GLOB_ID:
                    o = self.img.global_obj(x >> OBJ_SHIFT)
                    if o and y <= o.size:
                        bs = [o.byte((x & OFFMASK) + i) for i in range(y)]
                        if all(type(b) is int and 31 < b < 127 for b in bs):
                            return '"' + bytes(bs).decode('latin1') + '"'
        except Exception:
            pass
        return ''

    # ---- loops
    def at_header(self, pc, phis):
        F = self.F
        depth = len(self.frames)
        ver = sum(self.wv[:depth + 1])
        last = F.loops.get(pc)
        if last is not None and last[0] == ver and last[2] == self.nobj and all(a is b or (a is not None and b is not None and same_val(a, b)) for a, b in zip(last[1], phis)):
            self.on_stutter(last)
        F.loops[pc] = (ver, phis, self.nobj, self.loop_mark())

    def loop_mark(self):
        return 0

    def on_stutter(self, last):
        raise Violation('hang', 'a loop repeats without any change of state: the call never returns')

    # ---- memory
    def alloca(self, n):
        self.nobj += 0
        i = self.eng.stack_id(self, len(self.frames), len(self.F.allocas), self.F.iid)
        o = Obj(i, n, 'stack', self.epoch, len(self.frames))
        self.objs[i] = o
        self.F.allocas.append(i)
        return i << OBJ_SHIFT

    def getobj(self, a):
        i = a >> OBJ_SHIFT
        o = self.objs.get(i)
        if o is None:
            if GLOB_ID <= i < HEAP_ID:
                o = self.img.global_obj(i)
                if o is not None:
                    self.objs[i] = o
        return o

    def access(self, a, n, what):
        o = self.getobj(a)
        if o is None:
            raise Violation('memory', '%s of %d bytes at invalid address %#x' % (what, n, a))
        if not o.live:
            raise Violation('memory', '%s of %d bytes in freed memory' % (what, n))
        if (a & OFFMASK) + n > o.size:
            raise Violation('memory', '%s of %d bytes at offset %d of a %s object of %d bytes' % (what, n, a & OFFMASK, o.kind, o.size))
        return o

    def wobj(self, o):
        if o.epoch != self.epoch:
            o = o.copy(self.epoch)
            self.objs[o.id] = o
        return o

    def load(self, a, n, order, al):
        if al and al > 1 and a % al:
            raise Violation('memory', 'misaligned load')
        o = self.objs.get(a >> OBJ_SHIFT)
        off = a & OFFMASK
        if o is None or not o.live or off + n > o.size:
            o = self.access(a, n, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return o.read(off, n)

    def store(self, a, n, v, order, al):
        if al and al > 1 and a % al:
            raise Violation('memory', 'misaligned store')
        o = self.objs.get(a >> OBJ_SHIFT)
        off = a & OFFMASK
        if o is None or not o.live or off + n > o.size:
            o = self.access(a, n, 'store')
        if o.ro:
            raise Violation('memory', 'store to constant memory')
        c = o.cells.get(off)
        if c is not None and c[0] == n and same_val(c[1], v):
            return
        if o.epoch != self.epoch:
            o = self.wobj(o)
        self.wv[o.depth] += 1
        o.write(off, n, v)

    def fence(self, order):
        pass

    def cas(self, a, n, exp, new, o1, o2, w):
        old = self.load(a, n, o1, n)
        if old is UNDEF or exp is UNDEF:
            raise Violation('uninit', 'compare-exchange on uninitialised memory')
        eq = icmp_con('eq', old, exp, w) if type(old) is int and type(exp) is int else icmp_sym('eq', old, exp, w)
        ok = int(eq) if isinstance(eq, (int, bool)) else self.decide(eq)
        if ok:
            self.store(a, n, new, o1, n)
        return old, ok

    def rmw_val(self, op, old, v, w):
        if op == 'xchg':
            return v
        if old is UNDEF or v is UNDEF:
            raise Violation('uninit', 'atomic read-modify-write on uninitialised memory')
        if op in ('add', 'sub', 'and', 'or', 'xor'):
            if type(old) is int and type(v) is int:
                return con_bin(op, old, v, w)
            return sym_bin(op, old, v, w)
        if op in ('umax', 'umin', 'max', 'min'):
            o2 = {'max': 'smax', 'min': 'smin'}.get(op, op)
            return llvm_int(self, o2, [old, v], w, w)
        raise Unsupported('atomicrmw ' + op)

    def rmw(self, a, n, op, v, order, w):
        old = self.load(a, n, order, n)
        self.store(a, n, self.rmw_val(op, old, v, w), order, n)
        return old

    def memcpy(self, d, s, n):
        so = self.access(s, n, 'memcpy read')
        do = self.access(d, n, 'memcpy write')
        if do.ro:
            raise Violation('memory', 'memcpy to constant memory')
        ch = so.chunks(s & OFFMASK, n)
        do = self.wobj(do)
        doff = d & OFFMASK
        self.wv[do.depth] += 1
        do.clear(doff, n)
        cells = do.cells
        for o, k, v in ch:
            cells[doff + o] = (k, v)

    def memset(self, d, v, n):
        do = self.access(d, n, 'memset')
        do = self.wobj(do)
        off = d & OFFMASK
        self.wv[do.depth] += 1
        do.clear(off, n)
        if v is UNDEF:
            return
        if type(v) is int:
            i = 0
            v8 = v * 0x0101010101010101
            while i + 8 <= n and (off + i) % 8 == 0:
                do.cells[off + i] = (8, v8)
                i += 8
            while i < n:
                do.cells[off + i] = (1, v)
                i += 1
        else:
            for i in range(n):
                do.cells[off + i] = (1, v)

    def malloc(self, n, al):
        if n >= 1 << 19:
            raise Inconclusive('allocation of %d bytes is outside the modelled address space' % n)
        i = self.eng.heap_id(self, n)
        self.nobj += 1
        self.heap_live += 1
        o = Obj(i, n, 'heap', self.epoch)
        self.objs[i] = o
        return i << OBJ_SHIFT

    def mfree(self, p, n):
        o = self.getobj(p)
        if o is None or o.kind != 'heap' or (p & OFFMASK):
            raise Violation('memory', 'free of an invalid pointer %#x' % p)
        if not o.live:
            raise Violation('memory', 'double free')
        if n is not None and n != o.size:
            raise Violation('memory', 'free with size %d of an object of size %d' % (n, o.size))
        o = self.wobj(o)
        o.live = False
        o.cells = {}
        self.wv[0] += 1
        self.heap_live -= 1
        return 0

    def mrealloc(self, p, old, new, al):
        q = self.malloc(new, al)
        k = min(old, new)
        if k:
            self.memcpy(q, p, k)
        self.mfree(p, old)
        return q

    # ---- run until something happens
    def run(self):
        lim = self.eng.max_steps
        while True:
            F = self.F
            R = F.R
            code = F.fn.code
            pc = F.pc
            st = self.steps
            try:
                while True:
                    F.pc = pc
                    st += 1
                    r = code[pc](self, R)
                    if r is None:
                        pc += 1
                    elif r >= 0:
                        pc = r
                    else:
                        break
                    if st > lim:
                        raise Violation('hang', 'no end after %d instructions' % lim)
            finally:
                self.steps = st


class Engine:
    max_steps = 2_000_000

    def __init__(self, img):
        self.img = img
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.stack = []
        self.queries = 0
        self.solver_time = 0.0
        self.sid = {}
        self.nsteps = 0

    # object ids
    def heap_id(self, S, n):
        return S.id_base + 0x1000 + S.nobj

    def stack_id(self, S, depth, k, iid):
        # unique per frame instance
        key = (S.id_base, iid, k)
        return S.id_base + 0x80000 + iid * 64 + k

    # solver
    def sync(self, S):
        pc = S.pc
        st = self.stack
        k = 0
        m = min(len(st), len(pc))
        while k < m and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, S, *cs):
        self.sync(S)
        self.queries += 1
        t0 = time.time()
        r = self.solver.check(*cs)
        self.solver_time += time.time() - t0
        if r == z3.unknown:
            raise Inconclusive('solver: unknown (%s)' % self.solver.reason_unknown())
        return r == z3.sat

    def feasible(self, S, c):
        return self.check(S, c)

    def both(self, S, c):
        t = self.check(S, c)
        if not t:
            return False, True      # pc itself is satisfiable
        f = self.check(S, z3.Not(c))
        return t, f

    def values(self, S, e, limit=200):
        out = []
        extra = []
        while self.check(S, *extra):
            v = self.solver.model().eval(e, model_completion=True).as_long()
            out.append(v)
            extra.append(e != v)
            if len(out) > limit:
                raise Inconclusive('more than %d feasible values for an address or size' % limit)
        return out

    def model(self, S):
        assert self.check(S)
        return self.solver.model()


class SeqResult:
    pass


MAX_PATHS = 500000 if os.environ.get('VERIF_TIER') == 'thorough' else 20000


def explore(eng, fname, max_paths=None, deadline=None, on_path=None, init=None):
    """run harness `fname` on all feasible paths.  Returns list of violations and stats."""
    img = eng.img
    max_paths = max_paths or MAX_PATHS
    S = init or State(eng)
    S.push_frame(img.func(fname), [])
    work = [S]
    res = SeqResult()
    res.paths = 0
    res.violations = []
    res.reached = set()
    res.asserts = 0
    res.pruned = 0
    res.steps = 0
    res.done = []
    res.incomplete = None
    stride = 1
    ndone = 0
    while work:
        S = work.pop()
        if deadline and time.time() > deadline:
            res.incomplete = 'time budget exhausted after %d paths' % res.paths
            break
        st0 = S.steps
        try:
            S.run()
        except Fork as f:
            res.steps += S.steps - st0
            S.steps -= 1
            for c, k, v, e in reversed(f.alts):
                T = S.clone()
                T.add(c)
                T.known[k] = (v, e)
                work.append(T)
            continue
        except PathEnd as e:
            why = e.why
            if why in ('assume', 'infeasible'):
                res.pruned += 1
                res.steps += S.steps - st0
                continue
            if why == 'panic':
                res.violations.append((S, Violation('panic', 'unexpected panic: ' + S.last_panic)))
            else:
                res.reached |= S.reached
            # a spread sample of the completed paths
            ndone += 1
            if ndone % stride == 0:
                res.done.append(S)
                if len(res.done) >= 64:
                    res.done = res.done[1::2]
                    stride *= 2
        except Violation as v:
            res.violations.append((S, v))
        except (Inconclusive, Unsupported) as e:
            res.incomplete = res.incomplete or '%s: %s' % (type(e).__name__, e)
            if res.violations:
                break
            continue
        res.steps += S.steps - st0
        res.paths += 1
        res.asserts += S.nassert
        if on_path:
            on_path(S)
        if res.paths > max_paths:
            res.incomplete = 'path bound %d reached' % max_paths
            break
        if len(res.violations) >= 3:
            break
    return res


if __name__ == '__main__':
    img = Image(sys.argv[1])
    for h in sys.argv[2:]:
        t0 = time.time()
        eng = Engine(img)
        r = explore(eng, h)
        print(h, 'paths', r.paths, 'pruned', r.pruned, 'steps', r.steps, 'asserts', r.asserts, 'queries', eng.queries,
              'solver %.1fs' % eng.solver_time, 'total %.1fs' % (time.time() - t0), 'reached', r.reached)
        for S, v in r.violations:
            print('   VIOLATION', v.kind, v.msg)
