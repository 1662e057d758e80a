"""Runs one concurrent harness: event trees, encoding, queries."""
import time
import z3
from symex import Inconclusive, Unsupported, Violation
from conc import Conc, SetupFailure

# (bound on retries, share of the remaining time)
ATTEMPTS = ((None, 0.2), (4, 0.25), (2, 0.5), (1, 1.0))


def run_conc(img, name, opts, budget):
    t0 = time.time()
    img.executed.clear()
    r = {'harness': name, 'type': 'conc', 'status': 'ok', 'violations': [], 'witnesses': [], 'queries': 0, 'solver_s': 0.0,
         'steps': 0, 'segments': 0, 'events': 0, 'clauses': 0, 'verdicts': []}
    c = Conc(img, name, opts['nt'], may_panic=opts.get('may_panic', False), deadline=t0 + budget)
    try:
        bases = c.setup()
        wit = 0
        for bi, b in enumerate(bases):
            # retry loops of the code under test can make the trees explode: bound the retries when that happens
            for cap, share in ATTEMPTS:
                left = t0 + budget - time.time()
                c.revisit = cap
                c.deadline = time.time() + left * share
                try:
                    wit += decide(c, b, r, img, name)
                    break
                except Inconclusive as e:
                    account(r, c)
                    if cap == ATTEMPTS[-1][0]:
                        raise
                    r.setdefault('retried', []).append('%s: %s' % (cap, e))
            if r['violations']:
                break
        if r['status'] == 'ok' and not wit:
            r['status'] = 'inconclusive'
            r['msg'] = 'vacuous: no complete execution'
    except SetupFailure as e:
        r['status'] = 'violation'
        r['violations'].append({'kind': e.v.kind, 'msg': 'setup: ' + e.v.msg, 'inputs': e.inputs, 'setup': True, 'reached': []})
    except (Inconclusive, Unsupported) as e:
        account(r, c)
        r['status'] = 'inconclusive'
        r['msg'] = '%s: %s' % (type(e).__name__, e)
    r['queries'] += c.eng.queries
    r['solver_s'] = round(r['solver_s'] + c.eng.solver_time, 3)
    r['steps'] = c.steps
    r['wall_s'] = round(time.time() - t0, 3)
    r['functions'] = sorted(img.executed)
    return r


def decide(c, b, r, img, name):
    wit = 0
    c.stats = {}
    c.build(b)
    c.encode(True)
    r['segments'] += len(c.segs)
    r['events'] += len(c.events)
    r['clauses'] += c.nclauses
    if c.q_truncated() is not None:
        if not c.revisit:
            raise Inconclusive('event bound %d per thread reached' % c.max_events)
        r['bounded'] = 'paths which perform one operation at one location more than %d times are cut' % c.revisit
    for q in (c.q_violation, c.q_race, c.q_deadlock):
        x = q()
        if x is not None:
            m, kind, msg = x[:3]
            r['status'] = 'violation'
            r['violations'].append({'kind': kind, 'msg': msg, 'trace': c.export(m, kind, x[3] if len(x) > 3 else None)})
    done = []
    reached = set()

    def on_state(m, S):
        reached.update(S.reached)
        if len(done) < 2 or len(done) < 3 and S.reached != done[0]:
            done.append(set(S.reached))
            if len(r['witnesses']) < 3:
                r['witnesses'].append({'inputs': [], 'trace': c.export(m, 'ok', None, S)})
        else:
            done.append(None)
    if not r['violations']:
        if (name + '_final') in img.mod.funcs:
            x = c.q_final(on_state)
            if x is not None:
                m, kind, msg, _, S = x
                r['status'] = 'violation'
                r['violations'].append({'kind': kind, 'msg': msg, 'trace': c.export(m, kind, None, S)})
            r['final_states'] = r.get('final_states', 0) + c.stats.get('final_states', 0)
            wit += len(done)
        else:
            m = c.q_witness()
            if m is not None:
                wit += 1
                if len(r['witnesses']) < 2:
                    r['witnesses'].append({'inputs': [], 'trace': c.export(m, 'ok', None)})
    if r['violations']:
        account(r, c)
        return wit
    r['reached'] = sorted(set(r.get('reached', ())) | reached)
    ids = sorted(set(i for s in c.segs if s.leaf is not None for i in s.leaf.reached))
    ok = c.q_reach(ids)
    r['reached'] = sorted(set(r['reached']) | {i for i in ids if ok[i]})
    account(r, c)
    return wit


def account(r, c):
    for what, res, dt in c.stats.get('queries', ()):
        r['queries'] += 1
        r['solver_s'] += dt
        if len(r['verdicts']) < 12:
            r['verdicts'].append('%s: %s (%.2fs)' % (what, res, dt))
    c.stats['queries'] = []
