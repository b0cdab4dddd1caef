from vgen import *
PROP = 'C10'
SPEC, CFG = 'SequentialTrace', 'Trace.cfg'
MC = [('Sequential', 'SequentialMC.cfg', ('quick', 'thorough')), ('Sequential', 'SequentialMCBig.cfg', ('thorough',))]
RULE = ('seeded ordered lattice data (1-3 dimensions; duplicates, lines, blobs), the three schemes, thresholds (including ones met exactly), maximum numbers of clusters, '
        'metrics (Euclidean, squared, Manhattan, Chebyshev, user-defined), lists and arrays, both cores; non-trivial: more than one cluster, one of them with two objects')
METRICS = ['euclid', 'sq', 'manhattan', 'chebyshev', 'user']

def gen(c):
    rng = c.rng
    cases = []
    for k in range(900 if c.quick else 15000):
        dim = rng.choice([1, 1, 2, 2, 3])
        pts = points(rng, rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14]), dim, rng.choice([3, 7, 12]))
        td = rng.choice([1, 1, 2])
        tn = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
        m = rng.choice(METRICS)
        if m == 'sq' and rng.random() < .5:
            tn *= tn
        cases.append({'algo': ['bsas', 'mbsas', 'ttsas', 'ttsas'][k % 4], 'pts': pts, 'max': rng.choice([1, 2, 2, 3, 3, 4, 5, 20]), 'tn': tn, 'td': td, 'un': tn + rng.choice([0, 1, 2, 2, 3, 4, 6]), 'metric': m,
                      'ccore': k // 4 % 2 == 0 and m != 'user', 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def metric(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    if name == 'user':
        return distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(x - y) for x, y in zip(a, b)))
    return distance_metric({'euclid': type_metric.EUCLIDEAN, 'sq': type_metric.EUCLIDEAN_SQUARE, 'manhattan': type_metric.MANHATTAN, 'chebyshev': type_metric.CHEBYSHEV}[name])

def run_case(case):
    from pyclustering.cluster.bsas import bsas
    from pyclustering.cluster.mbsas import mbsas
    from pyclustering.cluster.ttsas import ttsas
    data = as_data(case['pts'], case['data'])
    before = snapshot(data)
    t, u, m = case['tn'] / case['td'], case['un'] / case['td'], metric(case['metric'])
    if case['algo'] == 'ttsas':
        a = ttsas(data, t, u, case['ccore'], metric=m)
    else:
        a = {'bsas': bsas, 'mbsas': mbsas}[case['algo']](data, case['max'], t, case['ccore'], metric=m)
    a.process()
    return {'algo': case['algo'], 'core': case['ccore'], 'pts': case['pts'], 'metric': 'manhattan' if case['metric'] == 'user' else case['metric'], 'max': len(data) if case['algo'] == 'ttsas' else case['max'],
            'tn': case['tn'], 'td': case['td'], 'un': case['un'], 'ud': case['td'], 'clusters': lists(a.get_clusters()), 'reps': [fxs(r) for r in a.get_representatives()],
            'untouched': snapshot(data) == before}

def kind(case, rec):
    return '%s/%s' % (case['algo'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return len(rec['clusters']) > 1 and any(len(x) > 1 for x in rec['clusters'])

def key(case, rec, v):
    return 'cpp-representative-weight' if case['ccore'] and v[1] == 'representatives are updated with the weight of the number of clusters' else None
