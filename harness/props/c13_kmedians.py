from vgen import *
from lloyd import *
PROP = 'C13'
SPEC, CFG = 'LloydTrace', 'Trace.cfg'
MC = [('Lloyd', 'KMediansMC.cfg', ('quick', 'thorough'))]
RULE = ('as C12 for K-Medians; the iterations are recorded by running the same instance with every smaller iteration limit; '
        'non-trivial: more than one cluster and more than one iteration')

def gen(c):
    return gen_cases(c, 800 if c.quick else 10000)

def run_case(case):
    from pyclustering.cluster.kmedians import kmedians
    rec = base(case, 'median')
    data, init = inputs(case)
    before = snapshot(data)
    def go(limit):
        k = kmedians(data, init, case['tn'] / case['td'], case['ccore'], metric=metric_of(case['metric']), itermax=limit)
        k.process()
        return k, {'cl': lists(k.get_clusters()), 'reps': reps(k.get_medians()), 'wce': fx(k.get_total_wce())}
    k, fin = go(case['itermax'])
    srt = lambda s: sorted(sorted(c) for c in s['cl'])
    steps = []
    for i in range(1, case['itermax'] + 1):
        _, s = go(i)
        # once stopped, a larger limit changes nothing: two equal consecutive results equal to the final one end the trace
        if steps and s['reps'] == steps[-1]['reps'] and s['cl'] == steps[-1]['cl'] and s['reps'] == fin['reps'] and s['cl'] == fin['cl']:
            break
        steps.append(s)
    rec['steps'] = [{'cl': s['cl'], 'reps': s['reps']} for s in steps]
    rec['final'] = fin
    rec['haswce'] = True
    if case['query'] and fin['cl']:
        rec['label'] = ints(k.predict(as_data(case['query'], case['kind'])))
    else:
        rec['query'] = []
    rec['repeat'] = go(case['itermax'])[1] == fin
    rec['untouched'] = snapshot(data) == before and init == inputs(case)[1]
    return rec

def nontrivial(case, rec):
    return len(rec['final']['cl']) > 1 and len(rec['steps']) > 1
