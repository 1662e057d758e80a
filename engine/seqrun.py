"""Runs one sequential harness symbolically and extracts concrete inputs from the solver's models."""
import time
import z3
from symex import Engine, Inconclusive, Unsupported, explore


def inputs_of(eng, S, seed=0):
    m = eng.model(S)
    return [m.eval(v, model_completion=True).as_long() for _, v in S.inputs]


def run_seq(img, name, budget, nwit=3):
    """-> dict; kinds: ok / violation / inconclusive"""
    t0 = time.time()
    img.executed.clear()
    eng = Engine(img)
    r = {'harness': name, 'type': 'seq', 'status': 'ok', 'violations': [], 'witnesses': []}
    try:
        res = explore(eng, name, deadline=t0 + budget)
        r.update(paths=res.paths, pruned=res.pruned, steps=res.steps, asserts=res.asserts, reached=sorted(res.reached))
        for S, v in res.violations:
            try:
                ins = inputs_of(eng, S)
            except Inconclusive as e:
                ins = None
            r['violations'].append({'kind': v.kind, 'msg': v.msg, 'inputs': ins, 'reached': sorted(S.reached)})
        if r['violations']:
            r['status'] = 'violation'
        elif res.incomplete:
            r['status'] = 'inconclusive'
            r['msg'] = res.incomplete
        elif not res.done:
            r['status'] = 'inconclusive'
            r['msg'] = 'vacuous: no path completes'
        else:
            # paths to be replayed natively: spread over the paths, deterministic
            k = max(1, len(res.done) // nwit)
            for S in res.done[::k][:nwit]:
                r['witnesses'].append({'inputs': inputs_of(eng, S), 'reached': sorted(S.reached)})
    except (Inconclusive, Unsupported) as e:
        r['status'] = 'inconclusive'
        r['msg'] = '%s: %s' % (type(e).__name__, e)
    r.update(queries=eng.queries, solver_s=round(eng.solver_time, 3), wall_s=round(time.time() - t0, 3),
             functions=sorted(img.executed))
    return r
