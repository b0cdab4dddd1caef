from vgen import *
PROP = 'C14'
SPEC, CFG = 'KMedoidsTrace', 'Trace.cfg'
MC = [('KMedoids', 'KMedoidsMC.cfg', ('quick', 'thorough')), ('KMedoids', 'KMedoidsMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data and random distance matrices (lists, arrays, numpy.matrix), initial medoids (random, coinciding objects, from the greedy build), metrics, tolerances, '
        'both cores; the run is observed iteration by iteration through the iteration limit 0, 1, 2, ...; non-trivial: at least one swap was made, or a build of several medoids')
LIMIT = 8

def gen(c):
    rng = c.rng
    cases = []
    for k in range(700 if c.quick else 9000):
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        pts = points(rng, n, dim, rng.choice([3, 6, 9]))
        metric = rng.choice(['sq', 'sq', 'euclid', 'manhattan', 'chebyshev', 'user', 'matrix', 'matrix'])
        case = {'kind': 'pam' if rng.random() < .75 else 'build', 'pts': pts, 'metric': metric, 'ccore': k % 2 == 0 and metric != 'user', 'data': rng.choice(['float', 'int', 'numpy']), 'k': rng.randint(1, min(n, 5))}
        if metric == 'matrix':
            m = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    m[i][j] = m[j][i] = rng.randint(1, 12)
            case['mat'] = m
            case['data'] = rng.choice(['float', 'int', 'numpy', 'npmatrix'])
        if case['kind'] == 'pam':
            case['init'] = sorted(rng.sample(range(n), case['k'])) if rng.random() < .8 else rng.sample(range(n), case['k'])
            case['tol'] = rng.choice([0, 0, 0, 1, 3])
        cases.append(case)
    return cases

def metric(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    if name == 'user':
        return distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(x - y) for x, y in zip(a, b)))
    return distance_metric({'euclid': type_metric.EUCLIDEAN, 'sq': type_metric.EUCLIDEAN_SQUARE, 'manhattan': type_metric.MANHATTAN, 'chebyshev': type_metric.CHEBYSHEV}[name])

def run_case(case):
    import numpy
    from pyclustering.cluster.kmedoids import kmedoids, build
    mat = case['metric'] == 'matrix'
    src = case['mat'] if mat else case['pts']
    data = numpy.matrix([[float(x) for x in r] for r in src]) if case['data'] == 'npmatrix' else as_data(src, case['data'])
    before = snapshot(data)
    kw = {'data_type': 'distance_matrix'} if mat else {'metric': metric(case['metric'])}
    rec = {'kind': case['kind'], 'pts': case['pts'], 'metric': 'manhattan' if case['metric'] == 'user' else case['metric'], 'mat': case.get('mat', [])}
    if case['kind'] == 'build':
        m = ints(build(data, case['k'], case['ccore'], **kw).initialize())
        assert snapshot(data) == before, 'input data modified'
        rec.update(k=case['k'], medoids=m)
        return rec
    unit = 1000 if case['metric'] == 'euclid' else 1
    runs = []
    for it in range(LIMIT):
        init = list(case['init'])
        a = kmedoids(data, init, case['tol'] if case['tol'] else 0.0, case['ccore'], itermax=it, **kw).process()
        assert init == case['init'], 'initial medoids modified'
        dev = float(a.get_total_deviation())
        runs.append({'cl': lists(a.get_clusters()), 'labels': ints(a.get_labels()), 'medoids': ints(a.get_medoids()), 'it': int(a.get_iterations()), 'dev': int(round(dev * unit))})
        assert case['metric'] == 'euclid' or dev == int(dev), 'deviation is not exact'
        if it > 0 and runs[-1]['it'] < it:
            break
    query = [] if mat else case['pts'][:4] + [[x + 1 for x in p] for p in case['pts'][:2]]
    label = ints(a.predict(as_data(query, 'float'))) if query else []
    rec.update(init=case['init'], tol=case['tol'], runs=runs, limit=LIMIT, query=query, label=label, untouched=snapshot(data) == before)
    return rec

def kind(case, rec):
    return '%s/%s' % (case['kind'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return len(rec['medoids']) > 1 if case['kind'] == 'build' else len(rec['runs']) > 3
