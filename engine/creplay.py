"""Concurrent replays: the functions which were executed symbolically are compiled natively from the same LLVM module, with
every memory access, allocation and panic routed through creplay_rt.cpp, which enforces the schedule found by the solver."""
import json
import os
import re
import subprocess
from llparse import Cur, tsize, unq
from symex import is_special, ALLOC_RE, OBJ_SHIFT

SYSROOT_BIN = os.path.expanduser('~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin')
ORD = {None: 0, 'na': 0, 'unordered': 1, 'monotonic': 1, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}
SYM = re.compile(r'@(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+))')
META = re.compile(r',? ![a-zA-Z_.]+ ![0-9]+')
DBG = re.compile(r' (?:!\w+ ![0-9]+)')
ACQ = (2, 4, 5)
REL = (3, 4, 5)


def ref(n):
    return '@"%s"' % n if re.search(r'[^-a-zA-Z$._0-9]', n) else '@' + n


class Emit:
    def __init__(self, img, functions):
        self.mod = img.mod
        self.img = img
        self.fset = set(functions)
        self.out = []
        self.need = []
        self.seen = set()
        self.n = 0

    def want(self, text):
        for m in SYM.finditer(text):
            n = m.group(1) if m.group(1) is not None else m.group(2)
            if n not in self.seen:
                self.seen.add(n)
                self.need.append(n)

    def tmp(self):
        self.n += 1
        return '%%vpx%d' % self.n

    def tyoff(self, s):
        c = Cur(s, self.mod)
        t = c.type()
        return t, c.i

    def to64(self, ty, v, pre):
        t = self.tmp()
        if ty == 'ptr':
            pre.append('  %s = ptrtoint ptr %s to i64' % (t, v))
        elif ty == 'i64':
            pre.append('  %s = add i64 %s, 0' % (t, v))
        else:
            pre.append('  %s = zext %s %s to i64' % (t, ty, v))
        return t

    def from64(self, dst, ty, v):
        if ty == 'ptr':
            return '  %s = inttoptr i64 %s to ptr' % (dst, v)
        if ty == 'i64':
            return '  %s = add i64 %s, 0' % (dst, v)
        return '  %s = trunc i64 %s to %s' % (dst, v, ty)

    def line(self, l):
        if l.lstrip().startswith('#dbg_') or '@llvm.experimental.noalias.scope' in l or '@llvm.dbg.' in l:
            return []
        l = META.sub('', l)
        s = l.strip()
        m = re.match(r'(?:(%\S+) = )?(?:tail |musttail |notail )?(load|store|cmpxchg|atomicrmw)\b (.*)$', s)
        if not m:
            if '@llvm.mem' in l:
                l = re.sub(r'@llvm\.memcpy\.\S+?\(', '@vpr_memcpy(', l)
                l = re.sub(r'@llvm\.memmove\.\S+?\(', '@vpr_memcpy(', l)
                l = re.sub(r'@llvm\.memset\.\S+?\(', '@vpr_memset(', l)
            l = l.replace('@rust_eh_personality', '@__gxx_personality_v0')
            return [l]
        dst, op, rest = m.groups()
        rest = re.sub(r'^volatile ', '', rest)
        if op == 'load':
            at = rest.startswith('atomic ')
            if at:
                rest = rest[7:]
            t, k = self.tyoff(rest)
            ty = rest[:k].strip()
            if at:
                q = re.match(r', ptr (.*?) (?:syncscope\("[^"]*"\) )?(unordered|monotonic|acquire|seq_cst), align', rest[k:])
                x = self.tmp()
                return ['  %s = call i64 @vpr_al(ptr %s, i64 %d, i32 %d)' % (x, q.group(1), tsize(t), ORD[q.group(2)]),
                        self.from64(dst, ty, x)]
            q = re.match(r', ptr (.*), align', rest[k:])
            return ['  call void @vpr_r(ptr %s, i64 %d)' % (q.group(1), tsize(t)), l]
        if op == 'store':
            at = rest.startswith('atomic ')
            if at:
                rest = rest[7:]
            t, k = self.tyoff(rest)
            ty = rest[:k].strip()
            if at:
                q = re.match(r' ?(.*), ptr (.*) (unordered|monotonic|release|seq_cst), align', rest[k:])
                pre = []
                v = self.to64(ty, q.group(1), pre)
                return pre + ['  call void @vpr_as(ptr %s, i64 %d, i64 %s, i32 %d)' % (q.group(2), tsize(t), v, ORD[q.group(3)])]
            q = re.match(r' ?(.*), ptr (.*), align', rest[k:])
            return ['  call void @vpr_w(ptr %s, i64 %d)' % (q.group(2), tsize(t)), l]
        if op == 'cmpxchg':
            rest = re.sub(r'^weak ', '', rest)
            q = re.match(r'ptr (.*?), (ptr|i\d+) (.*?), (ptr|i\d+) (.*?) (\w+) (\w+), align', rest)
            p, ty, e, _, nw, o1, o2 = q.groups()
            t, _ = self.tyoff(ty)
            pre = []
            e = self.to64(ty, e, pre)
            nw = self.to64(ty, nw, pre)
            x, y, z, w, u = [self.tmp() for _ in range(5)]
            pre += ['  %s = call { i64, i64 } @vpr_cas(ptr %s, i64 %d, i64 %s, i64 %s, i32 %d, i32 %d)' % (x, p, tsize(t), e, nw, ORD[o1], ORD[o2]),
                    '  %s = extractvalue { i64, i64 } %s, 0' % (y, x), self.from64(z, ty, y),
                    '  %s = extractvalue { i64, i64 } %s, 1' % (w, x), '  %sb = trunc i64 %s to i1' % (w, w),
                    '  %s = insertvalue { %s, i1 } poison, %s %s, 0' % (u, ty, ty, z),
                    '  %s = insertvalue { %s, i1 } %s, i1 %sb, 1' % (dst, ty, u, w)]
            return pre
        q = re.match(r'(\w+) ptr (.*), (ptr|i\d+) (\S+) (\w+), align', rest)
        o, p, ty, v, od = q.groups()
        code = {'xchg': 0, 'add': 1, 'sub': 2, 'and': 3, 'or': 4, 'xor': 5, 'umax': 6, 'umin': 7, 'max': 8, 'min': 9, 'nand': 10}[o]
        t, _ = self.tyoff(ty)
        pre = []
        v = self.to64(ty, v, pre)
        x = self.tmp()
        pre.append('  %s = call i64 @vpr_rmw(ptr %s, i64 %d, i32 %d, i64 %s, i32 %d)' % (x, p, tsize(t), code, v, ORD[od]))
        if dst:
            pre.append(self.from64(dst, ty, x))
        return pre

    @staticmethod
    def uwtable(l):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        i, k = m.end(), 1
        while k:
            k += {'(': 1, ')': -1}.get(l[i], 0)
            i += 1
        return l[:i] + ' uwtable' + l[i:].replace(' unnamed_addr', '').replace(' local_unnamed_addr', '')

    def header(self, n):
        h = self.mod.lines[self.mod.funcs[n][0]]
        h = DBG.sub('', h)
        return h.replace('@rust_eh_personality', '@__gxx_personality_v0')

    def function(self, n):
        h = self.header(n)
        body = []
        for l in self.mod.lines[self.mod.funcs[n][0] + 1:self.mod.funcs[n][1]]:
            body += self.line(l)
        # nounwind / memory attributes would contradict the calls into the runtime
        self.want(h)
        for l in body:
            self.want(l)
        h = re.sub(r'define (?:internal |private |hidden |dso_local )*', 'define ', h)
        self.out += [h] + body + ['}', '']

    def sig(self, n):
        """return type, parameter types, calling convention"""
        if n in self.mod.funcs:
            h = DBG.sub('', self.mod.lines[self.mod.funcs[n][0]])
        else:
            pat = re.compile(r'^declare .*@"?' + re.escape(n) + r'"?\(')
            h = next(l for l in self.mod.lines if l.startswith('declare') and pat.match(l))
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', h)
        pre = h[:m.start()]
        cc = 'fastcc ' if 'fastcc' in pre else 'coldcc ' if 'coldcc' in pre else ''
        c = Cur(h, self.mod, m.end())
        ps = []
        if not c.eat(')'):
            while True:
                if c.eat('...'):
                    c.need(')')
                    break
                a = c.i
                c.type()
                ty = h[a:c.i].strip()
                b = c.i
                c.attrs()
                at = ''
                am = re.search(r'(sret|byval)\(', h[b:c.i])
                if am:
                    at = ' ' + re.search(r'(?:sret|byval)\((?:[^()]|\([^()]*\))*\)', h[b:c.i]).group(0)
                if c.peek('%'):
                    c.name()
                ps.append(ty + at)
                if c.eat(')'):
                    break
                c.need(',')
        # return type: last type before the name
        w = re.sub(r'^(?:define|declare)\b', '', pre).strip()
        for k in range(len(w)):
            if k and w[k - 1] not in ' )':
                continue
            try:
                c = Cur(w, self.mod, k)
                c.type()
                c.ws()
                if c.i >= len(w):
                    return w[k:].strip(), ps, cc
            except Exception:
                continue
        raise RuntimeError('signature of ' + n)

    def stub(self, n):
        ty, ps, cc = self.sig(n)
        args = ', '.join('%s %%a%d' % (p, i) for i, p in enumerate(ps))
        h = 'define %s%s %s(%s) uwtable {' % (cc, ty, ref(n), args)
        m = ALLOC_RE.search(n)
        b = None
        if m:
            k = m.group(1)
            if k == 'alloc' or k == 'alloc_zeroed':
                b = ['  %%r = call ptr @vpr_%s(i64 %%a0, i64 %%a1)' % k, '  ret ptr %r']
            elif k == 'dealloc':
                b = ['  call void @vpr_dealloc(ptr %a0, i64 %a1)', '  ret void']
            else:
                b = ['  %r = call ptr @vpr_realloc(ptr %a0, i64 %a1, i64 %a2, i64 %a3)', '  ret ptr %r']
        elif 'no_alloc_shim' in n:
            b = ['  ret void'] if ty == 'void' else ['  ret %s 0' % ty]
        elif n in ('bcmp', 'memcmp'):
            b = ['  %r = call i32 @vpr_memcmp(ptr %a0, ptr %a1, i64 %a2)', '  ret i32 %r']
        elif n in ('memcpy', 'memmove'):
            b = ['  call void @vpr_memcpy(ptr %a0, ptr %a1, i64 %a2, i1 0)', '  ret ptr %a0']
        elif is_special(n):
            b = ['  call void @vpr_panic()', '  unreachable']
        else:
            b = ['  call void @vpr_unexpected()', '  unreachable']
        self.out += [h] + b + ['}', '']

    def module(self, name, nt, fin):
        mod = self.mod
        done = set()
        roots = [name + '_setup'] + [name + '_t%d' % (i + 1) for i in range(nt)] + ([name + '_final'] if fin else [])
        self.seen |= set(roots)
        self.need += roots
        decls = ['declare i32 @__gxx_personality_v0(...)', 'declare void @vpr_r(ptr, i64)', 'declare void @vpr_w(ptr, i64)',
                 'declare i64 @vpr_al(ptr, i64, i32)', 'declare void @vpr_as(ptr, i64, i64, i32)',
                 'declare { i64, i64 } @vpr_cas(ptr, i64, i64, i64, i32, i32)', 'declare i64 @vpr_rmw(ptr, i64, i32, i64, i32)',
                 'declare void @vpr_memcpy(ptr, ptr, i64, i1)', 'declare void @vpr_memset(ptr, i8, i64, i1)',
                 'declare ptr @vpr_alloc(i64, i64)', 'declare ptr @vpr_alloc_zeroed(i64, i64)', 'declare void @vpr_dealloc(ptr, i64)',
                 'declare ptr @vpr_realloc(ptr, i64, i64, i64)', 'declare i32 @vpr_memcmp(ptr, ptr, i64)', 'declare void @vpr_panic()',
                 'declare void @vpr_unexpected()']
        gl = []
        while self.need:
            n = self.need.pop()
            if n in done or n.startswith('vpr_') or n == '__gxx_personality_v0':
                continue
            done.add(n)
            if n in mod.aliases:
                tgt = mod.aliases[n]
                gl.append('%s = alias i8, ptr %s' % (ref(n), ref(tgt)))
                self.want(ref(tgt))
            elif n in self.fset and n in mod.funcs and not is_special(n):
                self.function(n)
            elif n in roots and n in mod.funcs:
                self.function(n)
            elif n.startswith('llvm.'):
                l = next(l for l in mod.lines if l.startswith('declare') and ref(n) + '(' in l)
                decls.append(re.sub(r' #\d+', '', DBG.sub('', l)))
            elif n.startswith('vp_'):
                l = next((l for l in mod.lines if l.startswith('declare') and '@' + n + '(' in l), None)
                decls.append(re.sub(r' #\d+', '', DBG.sub('', l)))
            elif n in mod.funcs or n in mod.decls:
                self.stub(n)
            elif n in mod.globals:
                g = re.sub(r',? ?![a-z_.]+ ![0-9]+', '', mod.globals[n])
                if g.startswith('external') or ' external ' in g[:60]:
                    gl.append('%s = %s' % (ref(n), 'global i64 0'))
                    continue
                g = re.sub(r'(, section "[^"]*")|(, comdat\S*)', '', g)
                self.want(g)
                gl.append('%s = %s' % (ref(n), g))
            else:
                raise RuntimeError('symbol ' + n)
        w = ['define ptr @vpr_do_setup() uwtable {', '  %%r = call ptr @%s_setup()' % name, '  ret ptr %r', '}',
             'define void @vpr_do_thread(i32 %t, ptr %c) uwtable {', '  switch i32 %t, label %e [' +
             ' '.join('i32 %d, label %%l%d' % (i, i) for i in range(nt)) + ' ]', 'e:', '  ret void']
        for i in range(nt):
            w += ['l%d:' % i, '  call void @%s_t%d(ptr %%c)' % (name, i + 1), '  ret void']
        w += ['}', 'define void @vpr_do_final(ptr %c) uwtable {']
        if fin:
            w.append('  call void @%s_final(ptr %%c)' % name)
        w += ['  ret void', '}']
        head = [l for l in mod.lines[:12] if l.startswith('target ')]
        types = ['%s = type %s' % (k, v) for k, v in mod.types.items()]
        body = self.out
        # drop function attribute groups: they do not matter at -O0
        txt = '\n'.join(head + types + gl + decls + body + w) + '\n'
        txt = re.sub(r'(?m) #\d+(?=[ ,{]|$)', '', txt)
        txt = '\n'.join(self.uwtable(l) if l.startswith('define ') and ' uwtable ' not in l else l for l in txt.split('\n'))
        return txt


class CReplay:
    def __init__(self, rp):
        self.rp = rp
        self.dir = rp.cx.build + '/creplay'
        os.makedirs(self.dir, exist_ok=True)
        self.rt = None
        self.built = {}

    def sh(self, *a):
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise RuntimeError('replay build: %s: %s' % (os.path.basename(a[0]), p.stdout[-500:]))

    def exe(self, name, tr):
        key = (name, tuple(tr['functions']))
        if key in self.built:
            return self.built[key]
        if self.rt is None:
            self.sh('g++', '-O1', '-g', '-std=c++17', '-c', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'creplay_rt.cpp'), '-o', self.dir + '/rt.o')
            self.rt = self.dir + '/rt.o'
        img = self.rp.img
        fin = (name + '_final') in img.mod.funcs
        txt = Emit(img, tr['functions']).module(name, tr['nt'], fin)
        b = '%s/%s_%d' % (self.dir, name, len(self.built))
        with open(b + '.ll', 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(txt)
        self.sh(SYSROOT_BIN + '/llc', '-O0', '-filetype=obj', '-relocation-model=pic', b + '.ll', '-o', b + '.o')
        self.sh('g++', b + '.o', self.rt, '-o', b + '.exe', '-lpthread')
        self.built[key] = b + '.exe'
        return b + '.exe'

    def run(self, name, tr, kind):
        """-> (behaves as predicted, description, log)"""
        exe = self.exe(name, tr)
        f = '%s/%s.sched' % (self.dir, name)
        with open(f, 'w') as h:
            h.write('threads %d\n' % tr['nt'])
            for k, vs in tr['inputs'].items():
                h.write('input %s %s\n' % (k, ' '.join(map(str, vs))))
            for t, nobj, size, i in tr['hid']:
                h.write('hid %d %d %d %d\n' % (t, nobj, size, i))
            for a, n in tr['atoms']:
                h.write('atom %d %d\n' % (a, n))
            for e in tr['events']:
                h.write('ev %d %s %d %d %d %d\n' % (e['t'], e['k'], e['a'], e['n'], 1 if e['stale'] else 0, e['v'] if e['v'] is not None else 0))
        try:
            p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors='replace')
            rc, log = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, log = 'timeout', (x.stdout or b'').decode('utf8', 'replace')
        lines = log.split('\n')
        if 'DIVERGED' in log:
            return False, [l for l in lines if 'DIVERGED' in l][0][:300], log
        consumed = sum(1 for l in lines if l.startswith('E '))
        flags = [l for l in lines if l.startswith(('ASSERT', 'PANIC', 'MEMORY', 'DEADLOCK', 'UNINIT', 'UNEXPECTED', 'DONE', 'ASSUME'))]
        race = self.race(lines, tr)
        bad = [x for x in flags if x.startswith(('ASSERT', 'MEMORY', 'DEADLOCK'))]
        what = 'native: exit %s %s' % (rc, '; '.join(flags[-4:])[:200])
        if race:
            what += '; vector clocks: ' + race
        if kind == 'ok':
            if 'DONE' in flags and not bad and not race and rc == 0:
                return True, what, log
            return False, what + ' after %d of %d events' % (consumed, len(tr['events'])), log
        if kind == 'race':
            return bool(race), what, log
        if kind in ('deadlock', 'hang'):
            return rc == 'timeout' or any(x.startswith('DEADLOCK') for x in flags) or bool(bad), what, log
        if kind == 'panic':
            return any(x.startswith('PANIC') for x in flags) or bool(bad), what, log
        if kind == 'uninit':
            return any(x.startswith('UNINIT') for x in flags) or bool(bad) or bool(race), what, log
        ok = bool(bad) or (type(rc) is int and rc < 0) or bool(race) or (kind == 'abort' and any(x.startswith('PANIC') for x in flags))
        return ok, what, log

    def race(self, lines, tr):
        """happens-before check of the executed accesses, independent of the solver"""
        nt = tr['nt']
        vc = [[0] * nt for _ in range(nt)]
        last = {}       # atom -> list of (t, clock, write?, order)
        relc = {}       # index of write event -> release clock
        lastw = {}
        ev = tr['events']
        k = 0
        res = None
        for l in lines:
            if not l.startswith('E '):
                continue
            _, t, kd, a, n, o = l.split()[:6]
            t, a, n, o = int(t), int(a), int(n), int(o)
            if t >= nt:
                continue
            src = ev[k]['src'] if k < len(ev) and ev[k]['k'] == kd else None
            vc[t][t] += 1
            if kd in 'RU' and o:
                s = src if src is not None else lastw.get(a)
                c = relc.get(s)
                if c is not None and o in ACQ:
                    vc[t] = [max(x, y) for x, y in zip(vc[t], c)]
            if kd in 'WU':
                prev = relc.get(src if src is not None else lastw.get(a)) if kd == 'U' else None
                c = list(vc[t]) if o in REL else None
                if kd == 'U' and prev is not None:
                    c = [max(x, y) for x, y in zip(c, prev)] if c else list(prev)
                if c is not None:
                    relc[k] = c
                lastw[a] = k
            for (u, cu, w, ou, ku) in last.get(a, ()):
                if u != t and (w or kd != 'R') and (ou == 0 or o == 0) and vc[t][u] < cu and res is None:
                    res = 'data race on %#x between thread %d (%s, event %d) and thread %d (%s, event %d)' % (a, u + 1, 'write' if w else 'read', ku, t + 1, kd, k)
            last.setdefault(a, []).append((t, vc[t][t], kd != 'R', o, k))
            k += 1
        return res
