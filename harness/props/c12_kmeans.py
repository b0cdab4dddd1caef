from vgen import *
from lloyd import *
PROP = 'C12'
SPEC, CFG = 'LloydTrace', 'Trace.cfg'
MC = [('Lloyd', 'KMeansMC.cfg', ('quick', 'thorough'))]
RULE = ('seeded lattice data (1-3 dimensions, 1-12 objects; a few instances with 40-70), 1-5 initial centers (data points, lattice, half-lattice, '
        'coincident, outside the data), 4 metrics and a user-defined one, tolerance and iteration limits, both cores, with and without observer; '
        'non-trivial: more than one cluster and more than one iteration')

def gen(c):
    return gen_cases(c, 1000 if c.quick else 14000)

def run_case(case):
    from pyclustering.cluster.kmeans import kmeans, kmeans_observer
    rec = base(case, 'mean')
    data, init = inputs(case)
    before = snapshot(data)
    def go(obs):
        k = kmeans(data, init, case['tn'] / case['td'], case['ccore'], observer=obs, metric=metric_of(case['metric']), itermax=case['itermax'])
        k.process()
        return k
    obs = kmeans_observer()
    k = go(obs)
    ec = [obs.get_clusters(i) for i in range(len(obs))]
    er = [obs.get_centers(i) for i in range(len(obs))]
    # the observer also stores the initial state; it has to be the initial centers
    assert reps(er[0]) == reps(init), 'observer does not start from the initial centers'
    rec['steps'] = [{'cl': lists(c), 'reps': reps(r)} for c, r in zip(ec[1:], er[1:])]
    rec['final'] = {'cl': lists(k.get_clusters()), 'reps': reps(k.get_centers()), 'wce': fx(k.get_total_wce())}
    rec['haswce'] = True
    if case['query']:
        rec['label'] = ints(k.predict(as_data(case['query'], case['kind']))) if rec['final']['cl'] else []
    if not rec['final']['cl']:
        rec['query'] = []
    k2 = go(None)
    rec['repeat'] = (lists(k2.get_clusters()) == rec['final']['cl'] and reps(k2.get_centers()) == rec['final']['reps']
                     and fx(k2.get_total_wce()) == rec['final']['wce'])
    rec['untouched'] = snapshot(data) == before and init == inputs(case)[1]
    return rec

def nontrivial(case, rec):
    return len(rec['final']['cl']) > 1 and len(rec['steps']) > 1
