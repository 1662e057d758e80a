#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY: decides one property of orx-concurrent-vec by symbolic execution of the LLVM IR which rustc
produces from /repo's current source.  exit 0: held; 1: VIOLATION (replayed against the real code); 3: no answer."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
REPO = '/repo'


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST', 'MIRI')) or k == 'CARGO_HOME' or k == 'RUSTUP_HOME'}
    e.update(CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR='never')
    e.update(kw)
    return e


class Err(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.low = prop.lower()
        self.tier = tier
        self.build = os.path.join(HERE, '.build', self.low)

    def compile(self):
        """harnesses + /repo -> one LLVM module with all code that can be executed"""
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        t0 = time.time()
        feats = self.low + (',thorough' if self.tier == 'thorough' else '')
        self.feats = feats
        p = subprocess.run(['cargo', 'rustc', '--manifest-path', HERE + '/harness/Cargo.toml', '--lib', '--release', '--offline', '--locked', '-q',
                            '--features', feats, '--crate-type', 'staticlib', '--target-dir', self.build + '/t', '--', '--emit=llvm-ir'],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stdout.write(p.stdout[-4000:])
            raise Err('the harnesses do not build against /repo')
        d = self.build + '/t/release/deps/'
        ll = [d + f for f in os.listdir(d) if f.startswith('vharness') and f.endswith('.ll')]
        if len(ll) != 1:
            raise Err('no LLVM module')
        self.ll = ll[0]
        self.build_s = round(time.time() - t0, 1)


IMG = None


def worker(job):
    import gc
    gc.disable()
    kind, name, opts, budget = job
    if kind == 'seq':
        from seqrun import run_seq
        return run_seq(IMG, name, budget)
    from concrun import run_conc
    return run_conc(IMG, name, opts, budget)


def child(job, conn):
    # own process per harness: a crash or a memory blow-up of one harness is reported, not silently lost
    try:
        conn.send(worker(job))
    except BaseException as e:      # noqa
        import traceback
        conn.send({'harness': job[1], 'type': job[0], 'status': 'inconclusive', 'msg': 'engine error %s: %s %s' % (
            type(e).__name__, e, traceback.format_exc()[-600:]), 'violations': []})
    conn.close()
    os._exit(0)


def run_jobs(jobs, ncpu, end):
    """`end`: wall-clock limit of the whole check; a violation shortens what is left"""
    res = {}
    run = {}
    todo = list(jobs)
    while todo or run:
        while todo and len(run) < ncpu:
            j = todo.pop(0)
            left = end - time.time()
            if left < 2:
                res[j[1]] = {'harness': j[1], 'type': j[0], 'status': 'inconclusive', 'msg': 'time budget of the check', 'violations': []}
                continue
            j = j[:3] + (min(j[3], left),)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(j, b))
            p.start()
            b.close()
            run[a] = (p, j, time.time())
        for a in mp.connection.wait(list(run), timeout=2):
            p, j, t0 = run.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {'harness': j[1], 'type': j[0], 'status': 'inconclusive', 'msg': 'harness process died (memory?)', 'violations': []}
            p.join()
            res[j[1]] = r
            if r['violations']:
                end = min(end, time.time() + 60)
        for a in list(run):
            p, j, t0 = run[a]
            if time.time() - t0 > j[3] * 1.2 + 20 or time.time() > end + 20:
                p.kill()
                p.join()
                run.pop(a)
                res[j[1]] = {'harness': j[1], 'type': j[0], 'status': 'inconclusive', 'msg': 'time budget', 'violations': []}
    return res


def main():
    global IMG
    t0 = time.time()
    prop = sys.argv[1].upper()
    only = sys.argv[2:] if len(sys.argv) > 2 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cx = Ctx(prop, tier)
    ncpu = min(8, os.cpu_count() or 1)
    budget = 3 * 3600 if tier == 'thorough' else 400
    total = 12 * 3600 if tier == 'thorough' else 700
    try:
        cx.compile()
        from symex import Image
        IMG = Image(cx.ll)
        fns = IMG.mod.funcs
        seqs = sorted(n for n in fns if n.startswith('s_%s_' % cx.low))
        concs = sorted(n[:-6] for n in fns if n.startswith('p_%s_' % cx.low) and n.endswith('_setup'))
        jobs = []
        for n in concs:
            nt = max(k for k in range(1, 9) if '%s_t%d' % (n, k) in fns)
            jobs.append(('conc', n, {'nt': nt, 'may_panic': n.endswith('_mp')}, budget))
        jobs += [('seq', n, {}, budget) for n in seqs]
        if only:
            jobs = [j for j in jobs if any(o in j[1] for o in only)]
        if not jobs:
            raise Err('no harness')
        res = run_jobs(jobs, ncpu, t0 + total)
        rc = report(cx, jobs, res, seed, t0, bool(only))
    except Err as e:
        print('ERROR property=%s %s' % (prop, e))
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


def expected(cx):
    """reachability marks in the source of the harnesses are collected per function body by the engine; here only the
    known findings"""
    out = []
    p = HERE + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == cx.prop and d.get('status') == 'known':
                    out.append(d)
    return out


def report(cx, jobs, res, seed, t0, partial):
    import replay
    known = expected(cx)
    bad = []        # the machinery gives no answer
    soft = []       # harnesses which are not decided within their time
    viols = []
    nval = 0
    rp = replay.Replay(cx, env, HERE, IMG)
    order = [j[1] for j in jobs]
    rec = HERE + '/harness/expected_reach.json'
    exp = json.load(open(rec)) if os.path.exists(rec) else {}
    for n in order:
        r = res[n]
        if os.environ.get('VP_VERBOSE'):
            print('  %-28s %-12s %6.1fs %s' % (n, r['status'], r.get('wall_s', 0), ' '.join('%s=%s' % (k, r[k]) for k in (
                'paths', 'asserts', 'steps', 'queries', 'events', 'clauses', 'reached') if k in r)))
        if r['status'] == 'inconclusive':
            # nothing completes within the fallback's bound: undecided; without that bound the harness says nothing
            vac = 'vacuous' in r.get('msg', '') and 'bounded' not in r
            (bad if vac or 'engine error' in r.get('msg', '') else soft).append('%s: %s' % (n, r.get('msg')))
        for v in r['violations']:
            viols.append((n, r, v))
        want = exp.get(n)
        if r['status'] == 'ok' and os.environ.get('VP_RECORD'):
            exp[n] = r.get('reached', [])
        elif r['status'] == 'ok' and 'bounded' not in r and (want is None or not set(want) <= set(r.get('reached', []))):
            bad.append('%s: vacuous: marks %s must be reachable, reached %s' % (n, want, r.get('reached')))
    if os.environ.get('VP_RECORD'):
        json.dump(exp, open(rec, 'w'), indent=0, sort_keys=True)
    # replay violations first
    confirmed = []
    unrepro = []
    seen = set()
    for n, r, v in viols:
        if n in seen:
            continue
        ok, what, path = rp.confirm(n, r, v)
        if ok:
            seen.add(n)
            confirmed.append((n, v, what, path))
        else:
            t = '%s: %s: %s does not reproduce: %s' % (n, v['kind'], v['msg'], what)
            if v['kind'] == 'uninit' and what.startswith('miri: exit 0'):
                soft.append(t)      # Miri finds nothing uninitialised on the same input: an artefact of the optimised code
            else:
                unrepro.append(t)
        if len(confirmed) >= 3:
            break
    # witnesses: paths of the symbolic execution run natively and must behave as predicted
    if not confirmed:
        nval, wbad = rp.witnesses(res, order)
        bad += wbad
    new = []
    for n, v, what, path in confirmed:
        k = [d for d in known if d.get('harness') == n and d.get('kind') == v['kind'] and d.get('match', '') in v['msg'] + ' ' + what]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (cx.prop, k[0]['what']))
        else:
            new.append((n, v, what, path))
    for n, v, what, path in new:
        print('%s: %s: %s [%s]' % (n, v['kind'], v['msg'], what))
        print('VIOLATION property=%s replay=%s' % (cx.prop, path))
    bad += [u for u in unrepro if u.split(':')[0] not in seen]
    for b in bad + soft:
        print('INCONCLUSIVE ' + b[:600])
    for n in order:
        if 'bounded' in res[n]:
            print('BOUNDED %s: %s' % (n, res[n]['bounded']))
    if not partial:
        evidence(cx, res, order, seed, t0, len(new), nval, bad + soft)
    if new:
        return 1
    # what was not decided in time is reported above and in the evidence file; there is no answer when that is too much
    return 3 if bad or 2 * len(soft) > len(order) else 0


def evidence(cx, res, order, seed, t0, nviol, nval, bad):
    R = [res[n] for n in order]
    fns = set()
    for r in R:
        fns |= set(r.get('functions', ()))
    from names import repo_functions
    mine, deps = repo_functions(IMG, fns)
    seqs = [r for r in R if r['type'] == 'seq']
    concs = [r for r in R if r['type'] == 'conc']
    states = sum(r.get('paths', 0) for r in seqs) + sum(r.get('segments', 0) for r in concs)
    trans = sum(r.get('steps', 0) for r in R)
    samples = []
    for r in R[:40]:
        s = {k: r[k] for k in ('harness', 'type', 'status', 'paths', 'asserts', 'queries', 'solver_s', 'events', 'segments', 'clauses', 'verdicts', 'final_states', 'reached', 'wall_s') if k in r}
        if r.get('witnesses'):
            s['witness_inputs'] = r['witnesses'][0]['inputs'][:12]
        samples.append(s)
    cov = {
        'states': states,
        'transitions': trans,
        'traces_validated_against_impl': nval,
        'samples': samples,
        'rule': 'states: feasible execution paths of sequential harnesses + path segments of the per-thread event trees; '
                'transitions: LLVM instructions executed symbolically; each solver query decides all values of the inputs on a path '
                '(sequential) or all interleavings and reads-from choices (concurrent)',
        'harnesses': len(R),
        'sequential_harnesses': len(seqs),
        'concurrent_harnesses': len(concs),
        'assertions_decided': sum(r.get('asserts', 0) for r in seqs),
        'queries': sum(r.get('queries', 0) for r in R),
        'solver_s': round(sum(r.get('solver_s', 0) for r in R), 2),
        'build_s': cx.build_s,
        'final_memories_enumerated': sum(r.get('final_states') or 0 for r in concs),
        'functions_encoded_repo': mine,
        'functions_encoded_dependencies': deps,
        'not_decided': bad,
        'retry_bounded': ['%s: %s' % (n, res[n]['bounded']) for n in order if 'bounded' in res[n]],
        'exhaustive': False,
        'bounds': BOUNDS,
    }
    ev = {'property': cx.prop, 'tier': cx.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % cx.prop, 'w') as f:
        json.dump(ev, f, indent=1)


BOUNDS = ('Each harness bounds the number of elements, calls and threads as written in harness/src/%s.rs and DESIGN.md; within them '
          'all values, indices, ranges, lengths (and for concurrent harnesses all interleavings and weak-memory outcomes) are covered. '
          'Loops are cut only in the harnesses listed under retry_bounded (retry loops whose trees do not end in time); on the tree '
          'this was written for there are none. not_decided lists harnesses without an answer.')
ASSUME = ['rustc (opt-level 1, overflow checks and debug assertions on) and the orx-* dependencies pinned in harness/Cargo.lock are part of the code that is encoded',
          'C11/RC11 memory model without load buffering; compare_exchange_weak does not fail spuriously',
          'heap allocation never fails', 'own LLVM IR executor and z3 are trusted; solver models are replayed natively before being reported']

if __name__ == '__main__':
    main()
