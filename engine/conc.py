"""Concurrency: every thread of a harness is executed symbolically on its own, from the memory
the setup left behind, into a tree of shared-memory events (reads of shared locations return
symbolic values).  One SMT problem then decides over all interleavings / reads-from choices:
assertion violations, data races (happens-before), use after free, deadlocks."""
import time
import z3
from symex import *
from symex import _undef_n


class _Poison:
    def __repr__(self):
        return 'FREED'


POISON = _Poison()
ANY = object()

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}
THREAD_ID = 0x400000


class Ev:
    __slots__ = ('n', 't', 'd', 'kind', 'atom', 'rval', 'wval', 'order', 'seg', 'site', 'tok', 'rdom', 'wdom', 'slot')

    def __repr__(self):
        return 'T%d#%d %s %x+%d %s r=%s w=%s' % (self.t, self.d, self.kind, self.atom[0], self.atom[1], self.order,
                                                self.tok if self.tok is not None else self.rval, self.wval)


class Slot:
    pass


class Seg:
    __slots__ = ('t', 'parent', 'cond', 'events', 'children', 'leaf', 'assumes', 'guard', 'n', 'lit')

    def __init__(self, t, parent, cond):
        self.t = t
        self.parent = parent
        self.cond = cond
        self.events = []
        self.children = []
        self.leaf = None
        self.assumes = []
        self.guard = None


class Leaf:
    __slots__ = ('kind', 'msg', 'events', 'out', 'reached', 'violation', 'steps', 'state')


class Restart(Exception):
    pass


class CState(State):
    def init_thread(self, cx, t, seg):
        self.cx = cx
        self.t = t
        self.thread = 't%d' % t
        self.seg = seg
        self.depth = 0
        self.pend = []
        self.lastw = {}
        self.vardom = {}
        self.shared = cx.shared
        self.touched = cx.touched[t]
        self.freed = set()
        self.evpath = ()       # linked list (ev, prev)
        self.id_base = THREAD_ID * (t + 1)
        self.nobj = 0
        self.nacc = 0
        self.visits = {}

    def clone(self):
        s = State.clone(self)
        s.visits = dict(self.visits)
        s.pend = list(self.pend)
        s.lastw = dict(self.lastw)
        s.vardom = dict(self.vardom)
        s.freed = set(self.freed)
        return s

    # ------------------------------------------------ events
    def overlap(self, i, off, n):
        sh = self.shared.get(i)
        if sh is None:
            return None
        res = []
        end = off + n
        for (o, k) in sh:
            if o < end and o + k > off:
                if o < off or o + k > end:
                    raise Restart()     # partition must be refined (access already recorded)
                res.append((o, k))
            elif o >= end:
                break
        return res or None

    def emit(self, kind, atom, order, rval=None, wval=None, tok=None, rmwop=None):
        e = Ev()
        cx = self.cx
        e.n = cx.nev
        cx.nev += 1
        e.t = self.t
        e.d = self.depth
        self.depth += 1
        if self.depth > cx.max_events:
            raise PathEnd('truncated')
        e.kind = kind
        e.atom = atom
        e.order = order or 'na'
        e.rval = rval
        e.wval = wval
        e.tok = tok
        e.seg = self.seg
        F = self.F
        e.site = (F.fn.name, F.fn.src[F.pc] if F is not None else 0)
        if cx.revisit:
            vk = (F.fn.name, F.pc, atom)
            vn = self.visits[vk] = self.visits.get(vk, 0) + 1
            if vn > cx.revisit:
                raise PathEnd('truncated')
        e.wdom = e.rdom = e.slot = None
        if type(rval) is int:
            e.rdom = (rval,)
        elif rval is not None and rval is not UNDEF and rval is not POISON:
            vd = self.vardom.get(rval.get_id())
            if vd is not None and vd[4] is not None and all(type(y) is int for y in vd[4]):
                e.rdom = tuple(vd[4])
        self.seg.events.append(e)
        self.evpath = (e, self.evpath)
        if kind in ('W', 'U'):
            self.lastw[atom] = e
            self.wv[0] += 1
            cx.add_write(self, e)
        return e

    def initval(self, atom):
        """value the location has before the threads start"""
        a, n = atom
        o = self.cx.base.objs.get(a >> OBJ_SHIFT)
        if o is None:
            i = a >> OBJ_SHIFT
            if GLOB_ID <= i < HEAP_ID:
                o = self.img.global_obj(i)
            if o is None:
                return UNDEF
        if not o.live:
            return POISON
        return o.read(a & OFFMASK, n)

    def candidates(self, atom):
        """-> (list of values (int/expr), any?, undef?, poison?)"""
        own = self.lastw.get(atom)
        self.cx.readset[self.t].add(atom)
        vals = {}
        anyv = und = poi = False

        def put(v):
            nonlocal anyv, und, poi
            if v is UNDEF:
                und = True
            elif v is POISON:
                poi = True
            elif v is ANY:
                anyv = True
            elif type(v) is int:
                vals[v] = v
            else:
                vals[('e', v.get_id())] = v
        if own is not None:
            put(own.wval)
        else:
            put(self.initval(atom))
        for wt, ents in self.cx.dom.get(atom, {}).items():
            if wt == self.t:
                continue
            for key, (v, tag) in ents.items():
                if any(g.get(self.t, -1) < self.depth for g in tag):
                    put(v)
        return list(vals.values()), anyv, und, poi

    def rd(self, atom):
        """choose a read value for the shared atom: returns (value, tok). No event yet."""
        k = self.pk
        self.pk += 1
        if k < len(self.pend):
            p = self.pend[k]
        else:
            vals, anyv, und, poi = self.candidates(atom)
            nreg = 1 if (vals or anyv) else 0
            cx = self.cx
            cx.nvar += 1
            name = 'r%d_%d_%x_%d' % (self.t, self.depth + k, atom[0], atom[1])
            if not anyv and len(vals) == 1 and type(vals[0]) is int:
                var = vals[0]
            elif not nreg:
                var = None
            else:
                var = z3.BitVec(name, 8 * atom[1])
                if not anyv:
                    self.add(z3.Or([var == bv(v, 8 * atom[1]) for v in vals]))
                self.vardom[var.get_id()] = (var, atom, self.t, self.depth, None if anyv else vals, self.lastw.get(atom))
            alts = []
            if nreg:
                alts.append(('v', var))
            if und:
                alts.append(('u', UNDEF))
            if poi:
                alts.append(('p', POISON))
            p = [alts, name]
            self.pend.append(p)
        alts, name = p
        if len(alts) == 1:
            c, v = alts[0]
        else:
            c = None
            conds = {'v': None, 'u': z3.Bool(name + 'u'), 'p': z3.Bool(name + 'p')}
            neg = [z3.Not(conds[a]) for a, _ in alts if a != 'v']
            fk = ('rd', name)
            r = self.known.get(fk)
            if r is None:
                fa = []
                for a, v in alts:
                    if a == 'v':
                        cond = z3.And(neg) if len(neg) > 1 else neg[0]
                    else:
                        others = [z3.Not(conds[b]) for b, _ in alts if b not in ('v', a)]
                        cond = z3.And([conds[a]] + others)
                    fa.append((cond, fk, a, None))
                if not nreg:
                    # undef or poison only
                    pass
                raise Fork(fa)
            c = r[0]
            v = dict(alts)[c]
        if c == 'p':
            return POISON, POISON
        if c == 'u':
            return UNDEF, UNDEF
        return v, None

    def touch(self, i, off, n, w):
        self.touched.add((i, off, n, w))

    def is_local(self, i):
        o = self.objs.get(i)
        return o is not None and o.kind == 'stack'

    def foreign(self, a, n, what):
        """object not in this path's memory: another thread's allocation?"""
        i = a >> OBJ_SHIFT
        sz = self.cx.foreign.get(i)
        if sz is None:
            return False
        if (a & OFFMASK) + n > sz:
            raise Violation('memory', '%s beyond the end of an object of %d bytes' % (what, sz))
        if i in self.freed:
            raise Violation('memory', what + ' of freed memory')
        return True

    def uaf(self, what):
        raise Violation('memory', what + ' of memory freed by another thread')

    def load(self, a, n, order, al):
        i = a >> OBJ_SHIFT
        o = self.objs.get(i)
        if o is not None and o.kind == 'stack':
            return State.load(self, a, n, order, al)
        off = a & OFFMASK
        self.touch(i, off, n, 0)
        atoms = self.overlap(i, off, n)
        if atoms is None:
            if o is None and self.foreign(a, n, 'load'):
                raise PathEnd('foreign')
            return State.load(self, a, n, order, al)
        if o is None:
            if not self.foreign(a, n, 'load'):
                self.access(a, n, 'load')
        else:
            self.access(a, n, 'load')
        if al and al > 1 and a % al:
            raise Violation('memory', 'misaligned load')
        self.pk = 0
        got = []
        for (o_, k) in atoms:
            v, tok = self.rd(((i << OBJ_SHIFT) + o_, k))
            got.append((o_, k, v, tok))
        self.pend = []
        for (o_, k, v, tok) in got:
            self.emit('R', ((i << OBJ_SHIFT) + o_, k), order, rval=v, tok=tok)
        for (o_, k, v, tok) in got:
            if tok is POISON:
                self.uaf('read')
        if len(got) == 1 and got[0][0] == off and got[0][1] == n:
            return got[0][2]
        bs = []
        gi = {}
        for (o_, k, v, tok) in got:
            for j in range(k):
                gi[o_ + j] = v_byte(v, k, j)
        po = self.objs.get(i)
        for j in range(off, off + n):
            if j in gi:
                bs.append(gi[j])
            elif po is not None:
                bs.append(po.byte(j))
            else:
                raise PathEnd('foreign')
        return v_join(bs)

    def store(self, a, n, v, order, al):
        i = a >> OBJ_SHIFT
        o = self.objs.get(i)
        if o is not None and o.kind == 'stack':
            return State.store(self, a, n, v, order, al)
        off = a & OFFMASK
        self.touch(i, off, n, 1)
        atoms = self.overlap(i, off, n)
        if o is None and self.foreign(a, n, 'store'):
            if atoms is None:
                raise PathEnd('foreign')
        elif atoms is None or o is not None:
            if atoms is None:
                return State.store(self, a, n, v, order, al)
            ob = self.access(a, n, 'store')
            if len(atoms) > 1 or atoms[0] != (off, n):
                State.store(self, a, n, v, order, al)
        else:
            self.access(a, n, 'store')
        for (o_, k) in atoms:
            if o_ == off and k == n:
                x = v
                if type(x) is not int and x is not UNDEF and z3.is_bool(x):
                    x = simp(z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            else:
                x = v_join([v_byte(v, n, o_ - off + j) for j in range(k)])
            if type(x) is not int and x is not UNDEF and x.size() < 8 * k:
                x = simp(z3.ZeroExt(8 * k - x.size(), x))
            self.emit('W', ((i << OBJ_SHIFT) + o_, k), order, wval=x)

    def shared_atom(self, a, n, what):
        i = a >> OBJ_SHIFT
        off = a & OFFMASK
        self.touch(i, off, n, 1)
        atoms = self.overlap(i, off, n)
        if atoms is None:
            if self.objs.get(i) is None and self.foreign(a, n, what):
                raise PathEnd('foreign')
            return None
        if atoms != [(off, n)]:
            raise Inconclusive('mixed-size atomic access')
        if self.objs.get(i) is None:
            if not self.foreign(a, n, what):
                self.access(a, n, what)
        else:
            self.access(a, n, what)
        return (a, n)

    def cas(self, a, n, exp, new, o1, o2, w):
        if self.is_local(a >> OBJ_SHIFT):
            return State.cas(self, a, n, exp, new, o1, o2, w)
        atom = self.shared_atom(a, n, 'compare-exchange')
        if atom is None:
            o = self.access(a, n, 'compare-exchange')
            old = State.load(self, a, n, o1, n)
            if old is UNDEF:
                raise Violation('uninit', 'compare-exchange on uninitialised memory')
            eq = icmp_con('eq', old, exp, w) if type(old) is int and type(exp) is int else icmp_sym('eq', old, exp, w)
            ok = int(eq) if isinstance(eq, (int, bool)) else self.decide(eq)
            if ok:
                State.store(self, a, n, new, o1, n)
            return old, ok
        self.pk = 0
        old, tok = self.rd(atom)
        if tok is not None:
            self.pend = []
            self.emit('R', atom, o1, rval=None, tok=tok)
            if tok is POISON:
                self.uaf('compare-exchange')
            raise Violation('uninit', 'compare-exchange on uninitialised memory')
        eq = icmp_con('eq', old, exp, w) if type(old) is int and type(exp) is int else icmp_sym('eq', old, exp, w)
        ok = int(eq) if isinstance(eq, (int, bool)) else self.decide(eq)
        self.pend = []
        if ok:
            self.emit('U', atom, o1, rval=old, wval=new)
        else:
            self.emit('R', atom, o2, rval=old)
        return old, ok

    def rmw(self, a, n, op, v, order, w):
        if self.is_local(a >> OBJ_SHIFT):
            return State.rmw(self, a, n, op, v, order, w)
        atom = self.shared_atom(a, n, 'atomic read-modify-write')
        if atom is None:
            old = State.load(self, a, n, order, n)
            State.store(self, a, n, self.rmw_val(op, old, v, w), order, n)
            return old
        self.pk = 0
        old, tok = self.rd(atom)
        self.pend = []
        if tok is not None:
            self.emit('R', atom, order, rval=None, tok=tok)
            if tok is POISON:
                self.uaf('read-modify-write')
            raise Violation('uninit', 'atomic read-modify-write on uninitialised memory')
        self.emit('U', atom, order, rval=old, wval=self.rmw_val(op, old, v, w), rmwop=op)
        return old

    def memcpy(self, d, s, n):
        si, di = s >> OBJ_SHIFT, d >> OBJ_SHIFT
        sl, dl = self.is_local(si), self.is_local(di)
        if not sl:
            self.touch(si, s & OFFMASK, n, 0)
        if not dl:
            self.touch(di, d & OFFMASK, n, 1)
        sa = None if sl else self.overlap(si, s & OFFMASK, n)
        da = None if dl else self.overlap(di, d & OFFMASK, n)
        if sa is None and self.objs.get(si) is None and self.foreign(s, n, 'memcpy read'):
            raise PathEnd('foreign')
        if da is None and self.objs.get(di) is None and self.foreign(d, n, 'memcpy write'):
            raise PathEnd('foreign')
        if sa is None and da is None:
            return State.memcpy(self, d, s, n)
        # byte/word-wise copy through load/store
        soff, doff = s & OFFMASK, d & OFFMASK
        cuts = {0, n}
        for base, ats in ((soff, sa), (doff, da)):
            for (o, k) in ats or ():
                cuts.add(o - base)
                cuts.add(o - base + k)
        if sa is None:
            so = self.access(s, n, 'memcpy read')
            for (o, k, v) in so.chunks(soff, n):
                cuts.add(o)
                cuts.add(o + k)
        cs = sorted(c for c in cuts if 0 <= c <= n)
        pieces = []
        for x, y in zip(cs, cs[1:]):
            while y - x > 8:
                pieces.append((x, 8))
                x += 8
            pieces.append((x, y - x))
        # reads first (pending-aware), then writes
        self.pk = 0
        plan = []
        for (x, k) in pieces:
            at = None if sa is None else self.overlap(si, soff + x, k)
            if at is None:
                o = self.objs.get(si)
                if o is None:
                    raise PathEnd('foreign')
                plan.append((x, k, o.read(soff + x, k), None, None))
            else:
                v, tok = self.rd(((si << OBJ_SHIFT) + at[0][0], at[0][1]))
                plan.append((x, k, v, tok, ((si << OBJ_SHIFT) + at[0][0], at[0][1])))
        self.pend = []
        for (x, k, v, tok, atom) in plan:
            if atom is not None:
                self.emit('R', atom, None, rval=v, tok=tok)
        for (x, k, v, tok, atom) in plan:
            if tok is POISON:
                self.uaf('read')
        for (x, k, v, tok, atom) in plan:
            self.store(d + x, k, v, None, 1)

    def memset(self, d, v, n):
        di = d >> OBJ_SHIFT
        if self.is_local(di):
            return State.memset(self, d, v, n)
        self.touch(di, d & OFFMASK, n, 1)
        da = self.overlap(di, d & OFFMASK, n)
        if da is None:
            if self.objs.get(di) is None and self.foreign(d, n, 'memset'):
                raise PathEnd('foreign')
            return State.memset(self, d, v, n)
        for j in range(n):
            self.store(d + j, 1, v, None, 1)

    def malloc(self, n, al):
        p = State.malloc(self, n, al)
        i = p >> OBJ_SHIFT
        self.cx.foreign[i] = n
        self.cx.alloc_by[i] = self.t
        return p

    def mfree(self, p, n):
        i = p >> OBJ_SHIFT
        o = self.objs.get(i)
        size = o.size if o is not None else self.cx.foreign.get(i)
        if size is None or p & OFFMASK:
            raise Violation('memory', 'free of an invalid pointer %#x' % p)
        if i in self.freed or (o is not None and not o.live):
            raise Violation('memory', 'double free')
        if n is not None and n != size:
            raise Violation('memory', 'free with size %d of an object of size %d' % (n, size))
        self.touch(i, 0, size, 2)
        atoms = self.overlap(i, 0, size)
        if atoms:
            self.pk = 0
            got = []
            atom0 = ((i << OBJ_SHIFT) + atoms[0][0], atoms[0][1])
            v, tok = self.rd(atom0)
            self.pend = []
            self.emit('R', atom0, None, rval=v, tok=tok)
            if tok is POISON:
                raise Violation('memory', 'double free (memory already freed by another thread)')
            for (o_, k) in atoms:
                self.emit('W', ((i << OBJ_SHIFT) + o_, k), None, wval=POISON)
        self.freed.add(i)
        self.wv[0] += 1
        self.heap_live -= 1
        if o is not None:
            o = self.wobj(o)
            o.live = False
            o.cells = {}
        return 0

    def fence(self, order):
        raise Unsupported('memory fence in a thread')

    def get_out(self, i):
        if self.t != self.cx.nt:
            return State.get_out(self, i)
        return self.cx.out_var(self, i)

    def fresh_input(self, tag):
        n = 'in_%s_%d' % (self.thread, self.nin)
        self.nin += 1
        v = z3.BitVec(n, 64)
        self.inputs.append((n, v))
        self.cx.allinputs[n] = v
        return v

    def assume(self, c):
        n = len(self.pc)
        State.assume(self, c)
        if len(self.pc) > n:
            self.seg.assumes.append(self.pc[-1])

    def loop_mark(self):
        return self.depth

    def on_stutter(self, last):
        n = self.depth - last[3]
        if n == 0:
            raise Violation('hang', 'a loop repeats without any change of state: the call never returns')
        self.blocked_n = n
        raise PathEnd('blocked')

    def last_events(self, n):
        out = []
        p = self.evpath
        while n and p:
            out.append(p[0])
            p = p[1]
            n -= 1
        return out


class CEngine(Engine):
    def heap_id(self, S, n):
        if isinstance(S, CState):
            cx = S.cx
            key = (S.t, S.nobj, n)
            i = cx.hid.get(key)
            if i is None:
                i = THREAD_ID * (S.t + 1) + 1 + len(cx.hid)
                cx.hid[key] = i
            return i
        return Engine.heap_id(self, S, n)

    def stack_id(self, S, depth, k, iid):
        if isinstance(S, CState):
            return THREAD_ID * (S.t + 1) + 0x200000 + iid * 64 + k
        return Engine.stack_id(self, S, depth, k, iid)


class SetupFailure(Exception):
    def __init__(self, v, inputs):
        self.v = v
        self.inputs = inputs


def weakest(tags, limit=8):
    """a value's tags: alternative sets of events (per thread the least depth) which must come before the write.  Only
    the weakest alternatives matter; beyond the limit they are merged into what they have in common."""
    out = []
    for g in sorted(tags, key=lambda g: (len(g), sorted(g.items()))):
        if not any(all(k in g and q <= g[k] for k, q in h.items()) for h in out):
            out.append(g)
    if len(out) > limit:
        m = out[0]
        for g in out[1:]:
            m = {k: min(m[k], g[k]) for k in m if k in g}
        return [m]
    return out


class Conc:
    """one harness: setup / t1..tn / final"""
    max_events = 120
    revisit = None          # bound on how often a path performs the same operation at the same location
    max_segs = 6000
    max_final = 3000

    def __init__(self, img, name, nt, may_panic=False, deadline=None):
        self.img = img
        self.name = name
        self.nt = nt
        self.eng = CEngine(img)
        self.eng.max_steps = 400000
        self.may_panic = may_panic
        self.deadline = deadline
        self.stats = {}
        self.steps = 0

    def setup(self):
        img = self.img
        S = State(self.eng)
        S.push_frame(img.func(self.name + '_setup'), [])
        work = [S]
        outs = []
        while work:
            S = work.pop()
            try:
                S.run()
            except Fork as f:
                S.steps -= 1
                for c, k, v, e in reversed(f.alts):
                    T = S.clone()
                    T.add(c)
                    T.known[k] = (v, e)
                    work.append(T)
            except PathEnd as e:
                if e.why == 'done':
                    outs.append(S)
                elif e.why == 'panic':
                    self.setup_fails(S, Violation('panic', S.last_panic))
            except Violation as v:
                self.setup_fails(S, v)
        return outs

    def setup_fails(self, S, v):
        m = self.eng.model(S)
        raise SetupFailure(v, [m.eval(x, model_completion=True).as_long() for _, x in S.inputs])

    # ---------------------------------------------------------------- trees
    def build(self, base):
        self.base = base
        self.shared = {}
        self.dom = {}
        self.foreign = {}
        self.alloc_by = {}
        self.hid = {}
        self.cuts = set()
        self.allinputs = dict(base.inputs)
        nthr = self.nthr = self.nt
        rounds = 0
        alltouched = [set() for _ in range(nthr)]
        self.touched = [set() for _ in range(nthr)]
        self.readset = [set() for _ in range(nthr)]
        self.foreign_leaf = [False] * nthr
        self.roots = [None] * nthr
        self.outvars = {}
        self.out_vals = {}
        self.nev = 0
        self.nvar = 0
        fresh = [False] * nthr
        while True:
            rounds += 1
            if rounds > 400:
                raise Inconclusive('no fixpoint of shared locations / value domains')
            self.newdom = {}
            restart = False
            for t in range(nthr):
                if fresh[t]:
                    continue
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive('time budget exhausted while building the event trees')
                self.touched[t] = set()
                self.readset[t] = set()
                self.foreign_leaf[t] = False
                try:
                    self.roots[t] = self.run_thread(t)
                    fresh[t] = True
                except Restart:
                    restart = True
            ch = False
            for t in range(nthr):
                if not self.touched[t] <= alltouched[t]:
                    alltouched[t] |= self.touched[t]
                    ch = True
            sh = self.partition(alltouched)
            if sh != self.shared:
                # values found so far stay candidates (a superset only adds paths which the solver rules out)
                self.merge_dom()
                self.shared = sh
                ok = {((i << OBJ_SHIFT) + o, k) for i, ats in sh.items() for o, k in ats}
                self.dom = {a: d for a, d in self.dom.items() if a in ok}
                fresh = [False] * nthr
                continue
            if restart:
                raise Inconclusive('partition restart without change')
            news = self.merge_dom()
            if news:
                for t in range(nthr):
                    if any(w != t and a in self.readset[t] for a, w in news):
                        fresh[t] = False
                if not all(fresh):
                    continue
            if ch:
                # touched grew but partition did not: trees are complete nevertheless
                pass
            break
        self.stats['rounds'] = rounds
        if any(self.foreign_leaf):
            raise Inconclusive('access to another thread\'s private memory')

    def partition(self, touched):
        nt = self.nt
        byobj = {}
        for t, s in enumerate(touched):
            for (i, off, n, w) in s:
                byobj.setdefault(i, []).append((t, off, n, w))
        res = {}
        for i, acc in byobj.items():
            ts = {a[0] for a in acc}
            if i in self.alloc_by:
                ts.add(self.alloc_by[i])
            if len(ts) < 2:
                continue
            size = max(a[1] + a[2] for a in acc)
            wr = [set() for _ in range(size)]
            ac = [set() for _ in range(size)]
            cut = set()
            for (t, off, n, w) in acc:
                for b in range(off, off + n):
                    ac[b].add(t)
                    if w and t < nt:
                        wr[b].add(t)
                if w != 2:
                    cut.add(off)
                    cut.add(off + n)
            if i in self.alloc_by:
                for b in range(size):
                    if ac[b]:
                        ac[b].add(self.alloc_by[i])
                        wr[b].add(self.alloc_by[i])
            atoms = []
            b = 0
            while b < size:
                if wr[b] and len(ac[b]) > 1:
                    e = b + 1
                    while e < size and wr[e] and len(ac[e]) > 1 and e not in cut and e % 8:
                        e += 1
                    atoms.append((b, e - b))
                    b = e
                else:
                    b += 1
            if atoms:
                res[i] = atoms
        return res

    def out_var(self, S, slot):
        v = self.outvars.get(slot)
        if v is None:
            if slot not in self.out_vals and slot in self.base.out:
                return self.base.out[slot]
            v = z3.BitVec('out%d' % slot, 64)
            self.outvars[slot] = v
        vals = self.out_vals.get(slot)
        if vals is not None and ('dom', slot) not in S.known:
            S.known[('dom', slot)] = (1, None)
            if all(type(x) is int for x in vals):
                S.add(z3.Or([v == x for x in vals]))
        return v

    def add_write(self, S, e):
        """record the value(s) e can write for the next round's domains"""
        d = self.newdom.setdefault(e.atom, {}).setdefault(e.t, {})
        if e.t >= self.nt:
            return
        tag0 = {e.t: e.d}
        v = e.wval
        if v is UNDEF or v is POISON:
            self.put_dom(d, ('s', v is UNDEF), v, tag0)
            return
        if type(v) is int:
            self.put_dom(d, v, v, tag0)
            e.wdom = (v,)
            return
        rv, hasin = self.read_vars(v, S.vardom)
        if not rv:
            self.put_dom(d, ('e', str(v)), v, tag0)
            return
        # data dependency on reads
        if hasin or any(x[4] is None for x in rv):
            tag = dict(tag0)
            self.put_dom(d, 'any', ANY, tag)
            return
        try:
            vals = self.eng.values(S, v, 24)
        except Inconclusive:
            self.put_dom(d, 'any', ANY, tag0)
            return
        e.wdom = tuple(vals)
        for x in vals:
            tags = [tag0]
            for (var, atom, t, depth, dv, own) in rv:
                best = []
                for y in dv:
                    if len(vals) * len(dv) > 1 and not self.eng.check(S, v == x, var == y):
                        continue
                    best += self.tag_of(atom, t, depth, y, own) if type(y) is int else [{}]
                best = weakest(best or [{}])
                tags = weakest([{k: max(g.get(k, -1), h.get(k, -1)) for k in (*g, *h)} for g in tags for h in best])
            self.put_dom(d, x, x, *tags)

    def tag_of(self, atom, t, depth, val, own):
        """weakest tags under which thread t can read val at atom"""
        if own is not None and same_val(own.wval, val):
            return [{}]
        # initial value
        o = self.base.objs.get(atom[0] >> OBJ_SHIFT)
        if own is None and o is not None and o.live and same_val(o.read(atom[0] & OFFMASK, atom[1]), val):
            return [{}]
        ents = self.dom.get(atom, {})
        best = []
        for wt, es in ents.items():
            if wt != t and val in es:
                best += [g for g in es[val][1] if g.get(t, -1) < depth]
        return best or [{}]

    @staticmethod
    def put_dom(d, key, v, *tags):
        o = d.get(key)
        d[key] = (v, weakest(list(tags) if o is None else o[1] + list(tags)))

    def read_vars(self, e, vardom):
        out = []
        hasin = False
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if i in vardom:
                    vd = vardom[i]
                    out.append(vd)
                    st.extend(y for y in vd[4] or () if type(y) is not int)
                else:
                    hasin = True
            st.extend(x.children())
        return out, hasin

    def merge_dom(self):
        ch = set()
        for atom, bt in self.newdom.items():
            cur = self.dom.setdefault(atom, {})
            for t, es in bt.items():
                c = cur.setdefault(t, {})
                for k, (v, tag) in es.items():
                    o = c.get(k)
                    if o is None:
                        c[k] = (v, tag)
                        ch.add((atom, t))
                    else:
                        nt = weakest(o[1] + tag)
                        if nt != o[1]:
                            c[k] = (v, nt)
                            ch.add((atom, t))
        return ch

    def run_thread(self, t):
        img = self.img
        fname = self.name + ('_t%d' % (t + 1) if t < self.nt else '_final')
        S = CState(self.eng)
        b = self.base
        S.objs = dict(b.objs)
        b.epoch = new_epoch()
        S.epoch = new_epoch()
        S.pc = list(b.pc)
        S.known = dict(b.known)
        S.inputs = []
        S.out = dict(b.out)
        root = Seg(t, None, None)
        S.init_thread(self, t, root)
        S.push_frame(img.func(fname), [b.result])
        work = [S]
        nseg = 1
        while work:
            S = work.pop()
            st0 = S.steps
            lf = None
            viol = None
            try:
                S.run()
            except Fork as f:
                S.steps -= 1
                self.steps += S.steps - st0
                for c, k, v, e in reversed(f.alts):
                    T = S.clone()
                    T.add(c)
                    T.known[k] = (v, e)
                    sg = Seg(t, S.seg, c)
                    S.seg.children.append(sg)
                    T.seg = sg
                    work.append(T)
                    nseg += 1
                if nseg > self.max_segs:
                    raise Inconclusive('more than %d path segments in a thread' % self.max_segs)
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive('time budget exhausted while building the event trees')
                continue
            except PathEnd as e:
                lf = e.why
            except Violation as v:
                viol = v
                lf = 'violation'
            self.steps += S.steps - st0
            L = Leaf()
            L.kind = lf
            L.violation = viol
            L.msg = ''
            L.events = ()
            L.out = S.out
            L.reached = S.reached
            L.state = S if lf in ('done', 'panic') else None
            if lf == 'foreign':
                self.foreign_leaf[t] = True
            if lf == 'panic':
                L.msg = S.last_panic
            if lf == 'blocked':
                L.events = S.last_events(S.blocked_n)
            S.seg.leaf = L
            if t < self.nt and lf == 'done':
                for k, v in S.out.items():
                    self.out_vals.setdefault(k, [])
                    if not any(same_val(v, x) for x in self.out_vals[k]):
                        self.out_vals[k].append(v)
        return root

    # ---------------------------------------------------------------- encoding
    def collect(self):
        self.segs = []
        for r in self.roots:
            st = [r]
            while st:
                s = st.pop()
                s.n = len(self.segs)
                self.segs.append(s)
                st.extend(s.children)
        self.events = [e for s in self.segs for e in s.events]
        self.D = [0] * self.nthr
        for e in self.events:
            self.D[e.t] = max(self.D[e.t], e.d + 1)

    def encode(self, weak):
        self.collect()
        if len(self.events) > 9000:
            raise Inconclusive('%d events' % len(self.events))
        nt, nthr = self.nt, self.nthr
        s = z3.SolverFor('QF_BV')
        T, F = 1, -1
        cl = []
        nv = [1]
        self.bvars = bvars = {}

        def new():
            nv[0] += 1
            return nv[0]

        def zb(l):
            """z3 term of a literal"""
            if l == T:
                return z3.BoolVal(True)
            if l == F:
                return z3.BoolVal(False)
            x = bvars.get(abs(l))
            if x is None:
                x = bvars[abs(l)] = z3.Bool('b%d' % abs(l))
            return x if l > 0 else z3.Not(x)
        self.zb = zb
        names = {}

        def clause(*ls):
            out = []
            for l in ls:
                if l == T:
                    return
                if l != F:
                    out.append(('b%d' % l) if l > 0 else '(not b%d)' % -l)
            if len(out) == 1:
                cl.append('(assert %s)' % out[0])
            elif out:
                cl.append('(assert (or %s))' % ' '.join(out))
            else:
                cl.append('(assert false)')
        cons = []
        add = cons.append
        for c in self.base.pc:
            add(c)
        # guards
        final_root = None
        for sg in self.segs:
            sg.lit = new()
            sg.guard = zb(sg.lit)
        leaves = {t: [] for t in range(nthr)}
        for sg in self.segs:
            if sg.parent is None:
                if sg.t < nt:
                    clause(sg.lit)
                else:
                    final_root = sg
            else:
                add(sg.guard == z3.And(sg.parent.guard, sg.cond))
            for a in sg.assumes:
                add(z3.Implies(sg.guard, a))
            if sg.children:
                clause(-sg.lit, *[c.lit for c in sg.children])
            if sg.leaf is not None:
                leaves[sg.t].append(sg)
        ok_kinds = ('done', 'panic') if self.may_panic else ('done',)
        self.thread_done = []
        for t in range(nt):
            d = new()
            ls = [l.lit for l in leaves[t] if l.leaf.kind in ok_kinds]
            clause(-d, *ls)
            for l in ls:
                clause(d, -l)
            self.thread_done.append(d)
        if final_root is not None:
            for d in self.thread_done:
                clause(-final_root.lit, d)
            clause(final_root.lit, *[-d for d in self.thread_done])
        # assumption-pruned leaves do not count as executions
        for t in range(nthr):
            for l in leaves[t]:
                if l.leaf.kind in ('assume', 'infeasible'):
                    clause(-l.lit)
        # outs
        for slot, v in self.outvars.items():
            for t in range(nt):
                for l in leaves[t]:
                    if l.leaf.kind in ok_kinds and slot in l.leaf.out and not (slot in self.base.out and same_val(l.leaf.out[slot], self.base.out[slot])):
                        add(z3.Implies(l.guard, v == bv(l.leaf.out[slot], 64)))
        self.leaves = leaves
        # order matrix
        D = self.D
        LT = {}
        for a in range(nt):
            for b in range(a + 1, nt):
                M = [[new() for j in range(D[b])] for i in range(D[a])]
                LT[a, b] = M
                for i in range(D[a]):
                    for j in range(D[b]):
                        if i + 1 < D[a]:
                            clause(-M[i + 1][j], M[i][j])
                        if j + 1 < D[b]:
                            clause(-M[i][j], M[i][j + 1])

        def ltd(a, i, b, j):
            """thread a's i-th event before thread b's j-th"""
            if a == b:
                return T if i < j else F
            if b >= nt:
                return T
            if a >= nt:
                return F
            if a < b:
                return LT[a, b][i][j]
            return -LT[b, a][j][i]
        for a in range(nt):
            for b in range(a + 1, nt):
                for c in range(b + 1, nt):
                    for i in range(D[a]):
                        for j in range(D[b]):
                            x = LT[a, b][i][j]
                            for k in range(D[c]):
                                y = LT[b, c][j][k]
                                z = LT[a, c][i][k]
                                clause(-x, -y, z)
                                clause(x, y, -z)
        self.ltd = ltd

        def lt(e, f):
            return ltd(e.t, e.d, f.t, f.d)
        self.lt = lt

        # merge the events at one position of a thread (they lie on mutually exclusive paths)
        def kind_of(v):
            return 'u' if v is UNDEF else 'p' if v is POISON else 'v'
        slots = {}
        for e in self.events:
            rk = kind_of(e.tok) if e.tok is not None else 'v'
            wk = kind_of(e.wval) if e.kind != 'R' else '-'
            k = (e.t, e.d, e.kind, e.atom, e.order, rk, wk)
            sl = slots.get(k)
            if sl is None:
                sl = slots[k] = Slot()
                sl.t, sl.d, sl.kind, sl.atom, sl.order, sl.rk, sl.wk = k
                sl.members = []
            sl.members.append(e)
            e.slot = sl
        self.slots = list(slots.values())
        for n, sl in enumerate(self.slots):
            sl.n = n
            segs = {e.seg.n: e.seg for e in sl.members}
            if len(segs) == 1:
                sl.lit = sl.members[0].seg.lit
            else:
                sl.lit = new()
                clause(-sl.lit, *[x.lit for x in segs.values()])
                for x in segs.values():
                    clause(sl.lit, -x.lit)

            def merged(get, dom, pre):
                vs = {}
                ds = set()
                for e in sl.members:
                    v = get(e)
                    vs[v if type(v) is int else ('e', v.get_id())] = v
                    q = dom(e)
                    ds = None if ds is None or q is None else ds | set(q)
                if len(vs) == 1:
                    return get(sl.members[0]), ds
                x = z3.BitVec('%s%d' % (pre, n), 8 * sl.atom[1])
                for e in sl.members:
                    add(z3.Implies(e.seg.guard, x == bv(get(e), 8 * sl.atom[1])))
                return x, ds
            sl.rval = sl.wval = sl.rdom = sl.wdom = None
            if sl.kind in ('R', 'U') and sl.rk == 'v':
                sl.rval, sl.rdom = merged(lambda e: e.rval, lambda e: e.rdom, 'R')
            if sl.kind in ('W', 'U') and sl.wk == 'v':
                sl.wval, sl.wdom = merged(lambda e: e.wval, lambda e: e.wdom, 'W')
        reads = [e for e in self.slots if e.kind in ('R', 'U')]
        writes = {}
        for e in self.slots:
            if e.kind in ('W', 'U'):
                writes.setdefault(e.atom, []).append(e)
        self.writes = writes
        rf = {}
        self.rf = rf
        self.initv = {}
        base_state = CState(self.eng)
        base_state.cx = self

        def iv(atom):
            if atom not in self.initv:
                self.initv[atom] = CState.initval(base_state, atom)
            return self.initv[atom]
        for r in reads:
            cands = []
            v = iv(r.atom)
            if kind_of(v) == r.rk:
                cands.append((None, v, (v,) if type(v) is int else None))
            for w in writes.get(r.atom, ()):
                if w.t == r.t and w.d >= r.d or w.t >= nt and r.t < nt:
                    continue
                if w.wk == r.rk:
                    cands.append((w, w.wval, w.wdom))
            rf[r.n] = {}
            alts = []
            for w, v, dm in cands:
                if r.rk == 'v' and dm is not None and r.rdom is not None and not set(dm) & set(r.rdom):
                    continue
                x = new()
                rf[r.n][None if w is None else w.n] = (x, w)
                alts.append(x)
                if w is not None:
                    clause(-x, w.lit)
                    clause(-x, lt(w, r))
                clause(-x, r.lit)
                if r.rk == 'v' and not (type(v) is int and type(r.rval) is int):
                    add(z3.Implies(zb(x), bv(r.rval, 8 * r.atom[1]) == bv(v, 8 * r.atom[1])))
            clause(-r.lit, *alts)
        # happens-before.  H is only ever used negatively by the rest of the problem, so it is enough
        # to force it true where a synchronises-with chain exists.
        H = {}
        for t in range(nt):
            for u in range(nt):
                if t != u:
                    H[t, u] = [[new() for i in range(D[u])] for d in range(D[t])]
        self.H = H
        relv = {}

        def rel(w, u, i):
            """thread u's event i happens-before whatever synchronises with w"""
            key = (w.n, u, i)
            if key in relv:
                return relv[key]
            if w.kind == 'W':
                if w.order not in REL:
                    x = F
                elif u == w.t:
                    x = T if i <= w.d else F
                else:
                    x = H[w.t, u][w.d][i]
                relv[key] = x
                return x
            if u == w.t and w.order in REL and i <= w.d:
                relv[key] = T
                return T
            x = new()
            relv[key] = x
            if w.order in REL and u != w.t:
                clause(x, -H[w.t, u][w.d][i])
            for k, (b, w2) in rf[w.n].items():
                if w2 is not None and w2.order != 'na':
                    y = rel(w2, u, i)
                    if y != F:
                        clause(x, -b, -y)
            return x
        acq = {}
        for r in reads:
            if r.order in ACQ and r.t < nt:
                acq.setdefault((r.t, r.d), []).append(r)
        for (t, u), M in H.items():
            for d in range(D[t]):
                srcs = acq.get((t, d), [])
                for i in range(D[u]):
                    m = M[d][i]
                    if d:
                        clause(m, -M[d - 1][i])
                    for r in srcs:
                        for k, (b, w) in rf[r.n].items():
                            # (a thread's own read-modify-write continues the release sequence it read from)
                            if w is None or w.t == t and w.kind == 'W':
                                continue
                            y = rel(w, u, i)
                            if y != F:
                                clause(m, -b, -y)

        def hb(e, f):
            if e.t == f.t:
                return T if e.d < f.d else F
            if f.t >= nt:
                return T
            if e.t >= nt:
                return F
            return H[f.t, e.t][f.d][e.d]
        self.hb = hb
        # coherence
        for r in reads:
            wk = weak and r.kind == 'R' and r.order != 'na' and r.t < nt
            for k, (x, w) in rf[r.n].items():
                for w2 in writes.get(r.atom, ()):
                    if w2 is w or w2 is r or w2.t >= nt and r.t < nt:
                        continue
                    if w2.t == r.t:
                        if w2.d >= r.d:
                            continue
                        before = T
                    elif wk and not (r.order == 'seq_cst' and w2.order == 'seq_cst'):
                        before = hb(w2, r)
                    else:
                        before = lt(w2, r)
                    if w is None:
                        clause(-x, -w2.lit, -before)
                    elif w.t == w2.t:
                        if w2.d > w.d:
                            clause(-x, -w2.lit, -before)
                    else:
                        clause(-x, -w2.lit, -before, lt(w2, w))
        if weak:
            # read-read coherence
            byatom = {}
            for r in reads:
                if r.t < nt:
                    byatom.setdefault(r.atom, []).append(r)
            for atom, rs in byatom.items():
                # Fv: some read at or before r2 in happens-before read from w1
                for r2 in rs:
                    cand = [(k, x, w) for k, (x, w) in rf[r2.n].items()]
                    bywrite = {}
                    for r1 in rs:
                        if r1 is r2:
                            continue
                        if r1.t == r2.t and r1.d >= r2.d:
                            continue
                        h = hb(r1, r2)
                        for k1, (x1, w1) in rf[r1.n].items():
                            if w1 is None:
                                continue
                            if len(cand) == 1 and cand[0][2] is w1:
                                continue
                            bywrite.setdefault(k1, (w1, []))[1].append((x1, h))
                    for k1, (w1, ps) in bywrite.items():
                        Fv = new()
                        for x1, h in ps:
                            clause(-x1, -h, Fv)
                        for k2, x2, w2 in cand:
                            if w2 is w1:
                                continue
                            if w2 is None:
                                clause(-x2, -Fv)
                            else:
                                clause(-x2, -Fv, lt(w1, w2))
        self.nclauses = len(cl) + len(cons)
        s.from_string(''.join('(declare-const b%d Bool)' % i for i in range(2, nv[0] + 1)) + '\n'.join(cl))
        s.add(cons)
        self.solver = s
        self.weak = weak
        self.nv = nv

    # ---------------------------------------------------------------- queries
    def query(self, extra, what):
        t0 = time.time()
        s = self.solver
        if self.deadline:
            s.set('timeout', max(1000, int((self.deadline - t0) * 1000)))
        s.push()
        s.add(extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        dt = time.time() - t0
        self.stats.setdefault('queries', []).append((what, str(r), round(dt, 3)))
        if r == z3.unknown:
            raise Inconclusive('solver gave no answer for %s' % what)
        return m

    def q_violation(self):
        v = [l for t in range(self.nthr) for l in self.leaves[t]
             if l.leaf.kind == 'violation' or (l.leaf.kind == 'panic' and not (self.may_panic and t < self.nt)) or
             (l.leaf.kind == 'blocked' and t >= self.nt)]
        if not v:
            return None
        m = self.query(z3.Or([l.guard for l in v]), 'violation')
        if m is None:
            return None
        for l in v:
            if z3.is_true(m.eval(l.guard, model_completion=True)):
                L = l.leaf
                if L.kind == 'violation':
                    return m, L.violation.kind, 'thread %d: %s' % (l.t + 1, L.violation.msg)
                if L.kind == 'panic':
                    return m, 'panic', 'thread %d panics: %s' % (l.t + 1, L.msg)
                return m, 'hang', 'final phase waits forever'
        raise Inconclusive('violation model without violating leaf')

    def q_race(self):
        pairs = []
        byatom = {}
        for e in self.slots:
            if e.t < self.nt:
                byatom.setdefault(e.atom, []).append(e)
        for atom, es in byatom.items():
            for i, a in enumerate(es):
                for b in es[:i]:
                    if a.t == b.t or (a.kind == 'R' and b.kind == 'R'):
                        continue
                    if a.order != 'na' and b.order != 'na':
                        continue
                    pairs.append((a, b))
        self.stats['race_pairs'] = len(pairs)
        if not pairs:
            return None
        zb = self.zb
        terms = []
        for a, b in pairs:
            x = z3.Bool('race%d_%d' % (a.n, b.n))
            terms.append((x, a, b))
        cs = [z3.Implies(x, z3.And(zb(a.lit), zb(b.lit), zb(-self.hb(a, b)), zb(-self.hb(b, a)))) for x, a, b in terms]
        m = self.query(z3.And(z3.Or([x for x, _, _ in terms]), z3.And(cs)), 'race')
        if m is None:
            return None
        for x, a, b in terms:
            if z3.is_true(m.eval(x)):
                return m, 'race', 'data race between thread %d (%s, %s) and thread %d (%s, %s)' % (
                    a.t + 1, {'R': 'read', 'W': 'write', 'U': 'rmw'}[a.kind], a.order, b.t + 1,
                    {'R': 'read', 'W': 'write', 'U': 'rmw'}[b.kind], b.order), (a, b)

    def q_deadlock(self):
        nt = self.nt
        zb = self.zb
        bl = [l for t in range(nt) for l in self.leaves[t] if l.leaf.kind == 'blocked']
        self.stats['blocked_leaves'] = len(bl)
        if not bl:
            return None
        stop = []
        for t in range(nt):
            stop.append(z3.Or([l.guard for l in self.leaves[t] if l.leaf.kind in ('done', 'panic', 'blocked')] or [z3.BoolVal(False)]))
        cs = [z3.Or([l.guard for l in bl]), z3.And(stop)]
        seen = set()
        for l in bl:
            for r in [e.slot for e in l.leaf.events if e.kind != 'W']:
                for k, (x, w) in self.rf[r.n].items():
                    for w2 in self.writes.get(r.atom, ()):
                        if w2 is w or w2.t >= nt:
                            continue
                        q = [zb(-l.lit), zb(-x), zb(-w2.lit)]
                        if w is not None:
                            q.append(zb(self.lt(w2, w)))
                        cs.append(z3.Or(q))
        m = self.query(z3.And(cs), 'deadlock')
        if m is None:
            return None
        who = [str(l.t + 1) for l in bl if z3.is_true(m.eval(l.guard, model_completion=True))]
        return m, 'deadlock', 'thread(s) %s wait forever' % ', '.join(who)

    def q_truncated(self):
        tr = [l for t in range(self.nthr) for l in self.leaves[t] if l.leaf.kind == 'truncated']
        self.stats['truncated_leaves'] = len(tr)
        if not tr:
            return None
        return self.query(z3.Or([l.guard for l in tr]), 'unwinding assertion')

    def q_witness(self):
        """all threads complete and the final phase completes; returns reach ids"""
        t = self.nthr - 1
        fin = [l for l in self.leaves[t] if l.leaf.kind == 'done'] if self.nthr > self.nt else None
        g = [self.zb(d) for d in self.thread_done]
        if fin is not None:
            g.append(z3.Or([l.guard for l in fin] or [z3.BoolVal(False)]))
        return self.query(z3.And(g), 'witness')

    # ---------------------------------------------------------------- final phase
    def leaf_diff(self, S):
        """what one complete path of a thread left behind, apart from the shared locations"""
        base = self.base
        d = []
        for i, o in S.objs.items():
            if o.kind == 'stack':
                continue
            b = base.objs.get(i)
            if b is o:
                continue
            if b is None and GLOB_ID <= i < HEAP_ID:
                b = self.img.global_obj(i)
                if b is o:
                    continue
            if b is None:
                d.append(('new', i, o.size, o.kind))
                for off, (n, v) in o.cells.items():
                    d.append(('w', i, off, n, v))
            else:
                for off, (n, v) in b.cells.items():
                    if off not in o.cells:
                        d.append(('w', i, off, n, UNDEF))
                for off, (n, v) in o.cells.items():
                    c = b.cells.get(off)
                    if c is None or c[0] != n or not same_val(c[1], v):
                        d.append(('w', i, off, n, v))
            if not o.live and (b is None or b.live):
                d.append(('free', i))
        for i in S.freed:
            d.append(('free', i))
        for k, v in S.out.items():
            if k not in base.out or not same_val(base.out[k], v):
                d.append(('out', k, v))
        if S.heap_live:
            d.append(('live', S.heap_live))
        return d

    @staticmethod
    def vkey(v):
        return v if type(v) is int or type(v) is str else 'u' if v is UNDEF else ('x', v.get_id())

    def q_final(self, on_state):
        """lets the solver enumerate every memory the threads can leave behind (complete: the last query is UNSAT) and
        runs the final phase symbolically from each of them"""
        name = self.name + '_final'
        if name not in self.img.mod.funcs:
            return None
        nt = self.nt
        s = self.solver
        zb = self.zb
        ok_kinds = ('done', 'panic') if self.may_panic else ('done',)
        cons = [zb(d) for d in self.thread_done]
        nfv = 0
        groups = []         # per thread: list of (literal, diff, exprs)
        for t in range(nt):
            gs = {}
            for l in self.leaves[t]:
                if l.leaf.kind not in ok_kinds:
                    continue
                d = self.leaf_diff(l.leaf.state)
                key = frozenset(tuple(self.vkey(x) if j == len(e) - 1 else x for j, x in enumerate(e)) for e in d)
                gs.setdefault(key, (d, []))[1].append(l)
            out = []
            for gi, (d, ls) in enumerate(gs.values()):
                if len(ls) == 1:
                    lit = ls[0].guard
                else:
                    lit = z3.Bool('fg%d_%d' % (t, gi))
                    cons.append(lit == z3.Or([l.guard for l in ls]))
                ex = {}
                for e in d:
                    v = e[-1]
                    if z3.is_expr(v) and v.get_id() not in ex:
                        w = v.size() if z3.is_bv(v) else 0
                        x = z3.BitVec('fx%d' % nfv, w or 8)
                        nfv += 1
                        b = v if w else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                        cons.append(x == z3.If(lit, b, z3.BitVecVal(0, w or 8)))
                        ex[v.get_id()] = x
                out.append((lit, d, ex))
            groups.append(out)
        atoms = []          # (atom, [(literal, value, var)])
        for atom, ws in self.writes.items():
            lastlit = {}
            for w in ws:
                ts = [zb(w.lit)]
                for w2 in ws:
                    if w2 is w or (w2.t == w.t and w2.d < w.d):
                        continue
                    if w2.t == w.t:
                        ts.append(zb(-w2.lit))
                    else:
                        ts.append(z3.Or(zb(-w2.lit), zb(self.lt(w2, w))))
                lastlit[w.n] = z3.And(ts)
            cl = {}
            for w in ws:
                v = {'u': UNDEF, 'p': POISON}.get(w.wk, w.wval)
                key = v if type(v) is int else w.wk if w.wk != 'v' else ('x', w.n)
                cl.setdefault(key, (v, []))[1].append(lastlit[w.n])
            out = []
            for key, (v, ls) in cl.items():
                lit = z3.Bool('fa%d_%d' % (len(atoms), len(out)))
                cons.append(lit == z3.Or(ls))
                x = None
                if z3.is_expr(v):
                    w = 8 * atom[1]
                    x = z3.BitVec('fx%d' % nfv, w)
                    nfv += 1
                    cons.append(x == z3.If(lit, bv(v, w), z3.BitVecVal(0, w)))
                out.append((lit, v, x))
            atoms.append((atom, out))
        ins = self.allinputs_sorted()
        stats = self.stats
        n = 0
        found = None
        s.push()
        try:
            s.add(cons)
            while True:
                t0 = time.time()
                if self.deadline:
                    if t0 > self.deadline:
                        raise Inconclusive('time budget exhausted after %d final states' % n)
                    s.set('timeout', max(1000, int((self.deadline - t0) * 1000)))
                r = s.check()
                stats.setdefault('queries', []).append(('final state %d' % n, str(r), round(time.time() - t0, 3)))
                if r == z3.unknown:
                    raise Inconclusive('solver gave no answer for the final states')
                if r == z3.unsat:
                    break
                n += 1
                if n > self.max_final:
                    raise Inconclusive('more than %d final states' % self.max_final)
                m = s.model()

                def T(x):
                    return z3.is_true(m.eval(x, model_completion=True))

                def V(x):
                    return m.eval(x, model_completion=True).as_long()
                F = self.final_state(m, T, V, groups, atoms, block := [])
                for _, v in ins:
                    block.append(v != V(v))
                    F.pc.append(v == V(v))
                bad = self.run_final(F, m, on_state)
                if bad is not None:
                    found = bad
                    break
                if not block:
                    break
                s.add(z3.Or(block))
        finally:
            s.pop()
            stats['final_states'] = stats.get('final_states', 0) + n
        return found

    def final_state(self, m, T, V, groups, atoms, block):
        base = self.base
        F = State(self.eng)
        F.objs = dict(base.objs)
        base.epoch = new_epoch()
        F.epoch = new_epoch()
        F.pc = list(base.pc)
        F.known = dict(base.known)
        F.out = dict(base.out)
        F.nobj = base.nobj + 0x2000
        F.niid = base.niid
        F.heap_live = base.heap_live
        F.thread = 't%d' % self.nt

        def obj(i):
            o = F.objs.get(i)
            if o is None and GLOB_ID <= i < HEAP_ID:
                o = F.objs[i] = self.img.global_obj(i)
            return None if o is None else F.wobj(o)
        late = []
        for gs in groups:
            for lit, d, ex in gs:
                if not T(lit):
                    continue
                if len(gs) > 1:
                    block.append(z3.Not(lit))
                val = {}
                for k, x in ex.items():
                    val[k] = V(x)
                    block.append(x != val[k])

                def ev(v):
                    return val[v.get_id()] if z3.is_expr(v) else v
                for e in d:
                    if e[0] == 'new':
                        F.objs[e[1]] = Obj(e[1], e[2], e[3], F.epoch)
                for e in d:
                    if e[0] == 'w' and e[4] is UNDEF:
                        obj(e[1]).write(e[2], e[3], UNDEF)
                for e in d:
                    if e[0] == 'w' and e[4] is not UNDEF:
                        obj(e[1]).write(e[2], e[3], ev(e[4]))
                    elif e[0] == 'free':
                        late.append(e[1])
                    elif e[0] == 'out':
                        F.out[e[1]] = ev(e[2])
                    elif e[0] == 'live':
                        F.heap_live += e[1]
                break
        for (a, n), cls in atoms:
            for lit, v, x in cls:
                if T(lit):
                    if x is not None:
                        v = V(x)
                        block.append(x != v)
                    block.append(z3.Not(lit))
                    o = obj(a >> OBJ_SHIFT)
                    if o is not None:
                        if v is POISON:
                            late.append(a >> OBJ_SHIFT)
                        else:
                            o.write(a & OFFMASK, n, v)
                    break
            else:
                block.append(z3.Or([c[0] for c in cls]))
        for i in late:
            o = obj(i)
            if o is not None:
                o.live = False
                o.cells = {}
        return F

    def run_final(self, F, m, on_state):
        F.push_frame(self.img.func(self.name + '_final'), [self.base.result])
        work = [F]
        paths = 0
        while work:
            S = work.pop()
            st0 = S.steps
            try:
                S.run()
            except Fork as f:
                S.steps -= 1
                self.steps += S.steps - st0
                for c, k, v, e in reversed(f.alts):
                    X = S.clone()
                    X.add(c)
                    X.known[k] = (v, e)
                    work.append(X)
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive('time budget exhausted in the final phase')
                continue
            except PathEnd as e:
                self.steps += S.steps - st0
                if e.why in ('assume', 'infeasible'):
                    continue
                if e.why == 'panic':
                    return m, 'panic', 'final phase panics: ' + S.last_panic, None, S
                if e.why != 'done':
                    raise Inconclusive('final phase: ' + e.why)
                paths += 1
                if paths > 4000:
                    raise Inconclusive('path bound in the final phase')
                on_state(m, S)
            except Violation as v:
                return m, v.kind, 'final phase: ' + v.msg, None, S
        return None

    def q_reach(self, ids):
        """which vp_reach ids are reachable"""
        out = {}
        for i in ids:
            ls = [l for t in range(self.nthr) for l in self.leaves[t] if i in l.leaf.reached]
            out[i] = bool(ls) and self.query(z3.Or([l.guard for l in ls]), 'reach %d' % i) is not None
        return out

    def trace(self, m):
        """ordered list of executed events in the model"""
        def T(x):
            return z3.is_true(m.eval(x, model_completion=True))
        def L(l):
            return T(self.zb(l))
        act = [e for e in self.events if T(e.seg.guard)]
        seqs = [sorted([e for e in act if e.t == t], key=lambda e: e.d) for t in range(self.nthr)]
        idx = [0] * self.nthr
        order = []
        while True:
            pick = None
            for t in range(self.nt):
                if idx[t] < len(seqs[t]):
                    e = seqs[t][idx[t]]
                    if all(u == t or idx[u] >= len(seqs[u]) or L(self.lt(e, seqs[u][idx[u]])) for u in range(self.nt)):
                        pick = t
                        break
            if pick is None:
                if self.nthr > self.nt and idx[self.nt] < len(seqs[self.nt]) and all(idx[u] >= len(seqs[u]) for u in range(self.nt)):
                    pick = self.nt
                else:
                    break
            order.append(seqs[pick][idx[pick]])
            idx[pick] += 1
        res = []
        for e in order:
            src = None
            val = None
            if e.kind in ('R', 'U'):
                for k, (x, w) in self.rf[e.slot.n].items():
                    if src is None and L(x):
                        src = w
                        if w is None:
                            src = 'init'
                if e.tok is None:
                    val = e.rval if type(e.rval) is int else m.eval(e.rval, model_completion=True).as_long()
            wv = None
            if e.kind in ('W', 'U') and e.wval is not UNDEF and e.wval is not POISON:
                wv = e.wval if type(e.wval) is int else m.eval(bv(e.wval, 8 * e.atom[1]), model_completion=True).as_long()
            res.append((e, src, val, wv))
        return res

    def export(self, m, kind, pair, final=None):
        """everything a native replay needs"""
        evs = []
        idx = {}
        last = {}
        for e, src, val, wv in self.trace(m):
            stale = False
            si = None
            if e.kind in ('R', 'U'):
                si = None if src == 'init' or src is None else idx.get(src.n)
                stale = e.t < self.nt and last.get(e.atom) != si
            if e.kind in ('W', 'U'):
                last[e.atom] = len(evs)
            idx[e.slot.n] = len(evs)
            evs.append({'t': e.t, 'k': e.kind, 'a': e.atom[0], 'n': e.atom[1], 'o': e.order, 'v': val, 'w': wv, 'src': si, 'stale': stale,
                        'fn': e.site[0][-60:]})
        inputs = {}
        for n, v in self.allinputs_sorted():
            inputs.setdefault(n.split('_')[1], []).append(m.eval(v, model_completion=True).as_long())
        if final is not None and final.nin:
            fm = self.eng.model(final)
            inputs['t%d' % self.nt] = [fm.eval(v, model_completion=True).as_long() for _, v in final.inputs]
        return {'nt': self.nt, 'events': evs, 'inputs': inputs, 'hid': [[t, k, n, i] for (t, k, n), i in self.hid.items()],
                'atoms': sorted([(i << OBJ_SHIFT) + o, k] for i, ats in self.shared.items() for o, k in ats),
                'functions': sorted(self.img.executed)}

    def allinputs_sorted(self):
        def key(n):
            a = n.split('_')
            return a[1], int(a[2])
        return sorted(self.allinputs.items(), key=lambda x: key(x[0]))
