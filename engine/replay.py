"""Replays solver models against the real code, compiled natively (sequential: same crate as a program, memory errors
under Miri; concurrent: the encoded functions with a scheduler, see creplay.py)."""
import json
import os
import shutil
import subprocess


class Replay:
    def __init__(self, cx, env, here, img):
        self.cx = cx
        self.env = env
        self.here = here
        self.img = img
        self.exe = None
        self.creplay = None

    def table(self):
        cx = self.cx
        p = cx.build + '/table.rs'
        if not os.path.exists(p):
            fns = self.img.mod.funcs
            seqs = sorted(n for n in fns if n.startswith('s_%s_' % cx.low))
            sets = sorted(n for n in fns if n.startswith('p_%s_' % cx.low) and n.endswith('_setup'))
            with open(p, 'w') as f:
                f.write('extern "C-unwind" {\n')
                for n in seqs:
                    f.write('fn %s();\n' % n)
                for n in sets:
                    f.write('fn %s() -> *mut u8;\n' % n)
                f.write('}\nunsafe fn dispatch(n: &str) { match n {\n')
                for n in seqs:
                    f.write('"%s" => %s(),\n' % (n, n))
                for n in sets:
                    f.write('"%s" => { %s(); }\n' % (n, n))
                f.write('_ => panic!("no such harness") } }\n')
        return p

    def cmd(self, sub, *a):
        cx = self.cx
        return ['cargo'] + sub + ['--manifest-path', self.here + '/harness/Cargo.toml', '--bin', 'vreplay', '--release', '--offline', '--locked', '-q',
                                  '--features', cx.feats + ',replay'] + list(a)

    def build(self):
        if self.exe:
            return
        t = self.cx.build + '/t'
        p = subprocess.run(self.cmd(['build'], '--target-dir', t), env=self.env(VP_TABLE=self.table()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError('replay program does not build: ' + p.stdout[-800:])
        self.exe = t + '/release/vreplay'

    def native(self, name, inputs, timeout=20):
        self.build()
        d = self.cx.build + '/scratch'
        os.makedirs(d, exist_ok=True)
        try:
            p = subprocess.run([self.exe, name] + [str(x) for x in inputs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        return p.returncode, p.stdout

    def miri(self, name, inputs):
        cx = self.cx
        e = self.env(VP_TABLE=self.table(), RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu',
                     MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-isolation')
        c = self.cmd(['miri', 'run'], '--target-dir', cx.build + '/m', '--', name) + [str(x) for x in inputs]
        try:
            p = subprocess.run(c, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return None, 'miri: timeout'
        except OSError as x:
            return None, 'miri: %s' % x
        for l in p.stdout.split('\n'):
            if 'Undefined Behavior' in l or 'unsupported operation' in l:
                return 'Undefined Behavior' in l, 'miri: ' + l.strip()[:200]
        return False, 'miri: exit %s' % p.returncode

    def confirm(self, name, r, v):
        """-> (reproduced, description, replay file)"""
        if v.get('trace') is not None:
            return self.confirm_conc(name, r, v)
        if v.get('inputs') is None:
            return False, 'no model', None
        hn = name + ('_setup' if v.get('setup') else '')
        ins = v['inputs']
        try:
            rc, out = self.native(hn, ins)
        except RuntimeError as e:
            return False, str(e), None
        ok = False
        what = 'native: exit %s' % rc
        if rc == 'timeout':
            ok = True
            what = 'native: does not finish within 20 s'
        elif rc == 42:
            ok = True
            what = 'native: ' + out.strip().split('\n')[-1]
        elif rc == 43:
            ok = True
            what = 'native: unexpected panic'
        elif rc < 0:
            ok = True
            what = 'native: killed by signal %d' % -rc
        if v['kind'] in ('memory', 'uninit', 'ub') and (not ok or rc == 'timeout'):
            k, w = self.miri(hn, ins)
            if k:
                ok = True
            what = w + '; ' + what
        path = None
        if ok:
            path = self.write(name, {'harness': hn, 'kind': v['kind'], 'message': v['msg'], 'inputs': ins, 'outcome': what,
                                     'how': 'inputs are the results of any() in call order in harness/src/%s.rs, function %s' % (self.cx.low, name),
                                     'run': ' '.join('cargo run'.split()) + ' --manifest-path harness/Cargo.toml --bin vreplay --release --offline --features %s,replay -- %s %s' % (
                                         self.cx.feats, hn, ' '.join(map(str, ins)))})
        return ok, what, path

    def write(self, name, d):
        p = self.here + '/replays'
        os.makedirs(p, exist_ok=True)
        f = '%s/%s_%s.json' % (p, self.cx.prop, name)
        with open(f, 'w') as h:
            json.dump(d, h, indent=1)
        tbl = self.table()
        shutil.copy(tbl, f[:-5] + '.table.rs')
        return f

    def confirm_conc(self, name, r, v):
        from creplay import CReplay
        if self.creplay is None:
            self.creplay = CReplay(self)
        try:
            ok, what, log = self.creplay.run(name, v['trace'], v['kind'])
        except RuntimeError as e:
            return False, str(e), None
        path = None
        if ok:
            path = self.write(name, {'harness': name, 'kind': v['kind'], 'message': v['msg'], 'outcome': what,
                                     'schedule': v['trace']['events'], 'inputs': v['trace']['inputs'], 'native_log': log[-4000:]})
        return ok, what, path

    def witnesses(self, res, order):
        """-> number of traces validated, list of problems"""
        n = 0
        bad = []
        for h in order:
            r = res[h]
            for w in r.get('witnesses', ()):
                if w.get('trace') is not None:
                    from creplay import CReplay
                    if self.creplay is None:
                        self.creplay = CReplay(self)
                    try:
                        ok, what, log = self.creplay.run(h, w['trace'], 'ok')
                    except RuntimeError as e:
                        ok, what = False, str(e)
                    if ok:
                        n += 1
                    else:
                        bad.append('%s: predicted execution is not what the native code does: %s' % (h, what))
                    continue
                try:
                    rc, out = self.native(h, w['inputs'])
                except RuntimeError as e:
                    return n, [str(e)]
                got = sorted(set(int(l.split()[1]) for l in out.split('\n') if l.startswith('REACH')))
                if rc != 0 or got != w['reached']:
                    bad.append('%s: predicted path is not what the native code does: exit %s reach %s, predicted %s, inputs %s' % (
                        h, rc, got, w['reached'], w['inputs']))
                else:
                    n += 1
        return n, bad
