"""Shared by the K-Means and K-Medians drivers."""
from vgen import *
METRICS = ['sq', 'sq', 'euclid', 'manhattan', 'chebyshev', 'user']

def gen_cases(c, big):
    rng = c.rng
    cases = []
    for k in range(big):
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        hi = rng.choice([3, 5, 9])
        pts = points(rng, n, dim, hi)
        kk = rng.choice([1, 2, 2, 3, 3, 4, 5])
        style = rng.random()
        if style < 0.5:
            init = [{'v': list(rng.choice(pts)), 'd': 1} for _ in range(kk)]
        elif style < 0.8:
            init = [{'v': [rng.randint(0, hi) for _ in range(dim)], 'd': 1} for _ in range(kk)]
        else:
            init = [{'v': [rng.randint(-2, 2 * hi + 4) for _ in range(dim)], 'd': 2} for _ in range(kk)]
        tn, td = rng.choice([(0, 1), (1, 100), (1, 4), (1, 1), (4, 1)])
        cases.append({'pts': pts, 'init': init, 'tn': tn, 'td': td, 'itermax': rng.choice([0, 1, 2, 3, 5, 30, 30, 30, 30]) if rng.random() < .6 else 30,
                      'metric': rng.choice(METRICS), 'ccore': rng.random() < 0.55, 'kind': rng.choice(['float', 'int', 'numpy']),
                      'query': [[rng.randint(0, hi) for _ in range(dim)] for _ in range(rng.choice([0, 1, 3, 5]))], 'tol': True})
    for k in range(4 if c.quick else 60):     # larger data (parallel processing of many points); tolerance not judged
        n = rng.choice([40, 70])
        pts = points(rng, n, 1, 9, 'uniform')
        cases.append({'pts': pts, 'init': [{'v': list(rng.choice(pts)), 'd': 1} for _ in range(rng.choice([2, 3, 4]))], 'tn': 1, 'td': 1000,
                      'itermax': 30, 'metric': 'sq', 'ccore': bool(k % 4), 'kind': 'float', 'query': [[x] for x in range(10)], 'tol': False})
    return cases

def metric_of(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    if name == 'user':
        return distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(float(x) - float(y)) for x, y in zip(a, b)))
    return distance_metric({'sq': type_metric.EUCLIDEAN_SQUARE, 'euclid': type_metric.EUCLIDEAN, 'manhattan': type_metric.MANHATTAN,
                            'chebyshev': type_metric.CHEBYSHEV}[name])

def base(case, kind):
    return {'pts': case['pts'], 'kind': kind, 'metric': 'manhattan' if case['metric'] == 'user' else case['metric'], 'init': case['init'],
            'itermax': case['itermax'], 'tn': case['tn'], 'td': case['td'], 'tol': case['tol'], 'query': case['query'], 'label': [], 'exact': kind == 'mean'}

def inputs(case):
    data = as_data(case['pts'], case['kind'])
    init = [[x / c['d'] for x in c['v']] for c in case['init']]
    return data, init

def reps(cs):
    return [fxs(x) for x in cs]
