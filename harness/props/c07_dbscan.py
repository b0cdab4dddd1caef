import itertools, random
from vgen import *
PROP = 'C07'
SPEC, CFG = 'DbscanTrace', 'Trace.cfg'
MC = [('Dbscan', 'DbscanMC.cfg', ('quick', 'thorough'))]
RULE = ('all multisets of up to 4 (thorough: 5) points of a 1-D lattice with every small radius and neighbour count, plus seeded random '
        'lattice data (1-4 dimensions, duplicates, ties at the radius), coordinates / distance matrices, lists / arrays, both cores, '
        'pickled instances; non-trivial: at least one cluster and two objects')

def gen(c):
    rng = c.rng
    cases = []
    top = 4 if c.quick else 5
    for n in range(1, top + 1):
        for pts in itertools.combinations_with_replacement(range(0, 5), n):
            for r2 in (2, 4):
                for mp in (1, 2, 3):
                    for cc in (False, True):
                        if c.quick and rng.random() < 0.6:
                            continue
                        order = list(pts)
                        rng.shuffle(order)
                        cases.append({'pts': [[x] for x in order], 'r2': r2, 'mp': mp, 'ccore': cc, 'mode': 'points', 'kind': 'float'})
    for k in range(900 if c.quick else 12000):
        dim = rng.choice([1, 1, 2, 2, 2, 3, 4])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 18, 24, 30])
        hi = rng.choice([3, 6, 9, 15])
        pts = points(rng, n, dim, hi)
        mode = rng.choice(['points', 'points', 'points', 'matrix', 'distmat'])
        case = {'pts': pts, 'r2': rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 10]), 'mp': rng.choice([1, 1, 2, 2, 3, 4, 5]),
                'ccore': rng.random() < 0.5, 'mode': mode, 'kind': rng.choice(['float', 'int', 'numpy'])}
        if mode == 'matrix':
            m = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    m[i][j] = m[j][i] = rng.randint(0, 9)
            case['mat'] = m
        if rng.random() < 0.15:
            case['pickle'] = True
        cases.append(case)
    for k in range(6 if c.quick else 60):       # larger instances
        n = rng.choice([60, 90])
        cases.append({'pts': points(rng, n, 2, 20, 'uniform'), 'r2': rng.choice([2, 3, 4, 5, 6]), 'mp': rng.choice([1, 2, 3, 4]),
                      'ccore': bool(k % 2), 'mode': 'points', 'kind': 'float'})
    return cases

def run_case(case):
    from pyclustering.cluster.dbscan import dbscan
    pts, mode = case['pts'], case['mode']
    rec = {'n': len(pts), 'pts': pts, 'r2': case['r2'], 'mp': case['mp'], 'mode': 'matrix' if mode == 'matrix' else 'points', 'mat': []}
    if mode == 'matrix':
        data = as_data(case['mat'], case['kind'])
        rec['mat'] = [[2 * x for x in r] for r in case['mat']]
    elif mode == 'distmat':
        data = as_data([[sum((a - b) ** 2 for a, b in zip(p, q)) ** 0.5 for q in pts] for p in pts], 'numpy' if case['kind'] == 'numpy' else 'float')
    else:
        data = as_data(pts, case['kind'])
    d = dbscan(data, case['r2'] / 2.0, case['mp'], case['ccore'], data_type='points' if mode == 'points' else 'distance_matrix')
    if case.get('pickle'):
        import pickle
        d = pickle.loads(pickle.dumps(d))
    d.process()
    rec['clusters'], rec['noise'] = lists(d.get_clusters()), ints(d.get_noise())
    return rec

def nontrivial(case, rec):
    return rec['n'] >= 2 and len(rec['clusters']) >= 1
