from fractions import Fraction
from vgen import *
PROP = 'C20'
SPEC, CFG = 'GridTrace', 'Trace.cfg'
MC = [('Grid', 'GridMC.cfg', ('quick', 'thorough')), ('Grid', 'GridMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data of 1-3 dimensions (duplicates, borders of cells, constant dimensions, decimal coordinates and negative corners), 1-12 intervals, thresholds 0-3 in both cores; BANG with 1-6 levels, '
        'density and amount thresholds; lists / integer lists / numpy; non-trivial: at least one cluster and two objects')

def gen(c):
    rng, q = c.rng, c.quick
    cases = []
    for k in range(700 if q else 8000):
        dim = rng.choice([1, 1, 2, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
        pts = points(rng, n, dim, rng.choice([2, 3, 5, 8]))
        off = rng.choice([0, 0, 0, -3, -7, 2])
        pts = [[x + off for x in p] for p in pts]
        m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12] if dim == 1 else [1, 2, 3, 4, 5, 6] if dim == 2 else [1, 2, 3])
        cases.append({'what': 'clique', 'pts': pts, 'm': m, 'thr': rng.choice([0, 0, 1, 1, 2, 3]), 'ccore': rng.random() < .5, 'kind': rng.choice(['float', 'int', 'numpy']), 'dec': rng.random() < .3})
    for k in range(60 if q else 600):       # two-digit locations
        m = rng.choice([11, 12, 13, 15])
        s = m * rng.choice([1, 1, 2])
        x, y = rng.choice([(1, 10), (11, 0), (1, 10), (11, 0)] if m == 11 else [(1, 10), (11, 0), (1, 11), (11, 1)])
        cells = [(rng.randrange(m), rng.randrange(m)) for _ in range(rng.choice([0, 2]))] + [(min(x, m - 1), y)] * 2 + [rng.choice([(x - 1, y), (x, max(0, y - 1)), (x, y + 1)])] * 2
        pts = [[s // m * x + 1 for x in rng.choice(cells)] for _ in range(rng.randint(6, 18))]
        cases.append({'what': 'clique', 'pts': [[0, 0], [s, s]] + [[min(s, x) for x in p] for p in pts], 'm': m, 'thr': rng.choice([0, 0, 1]), 'ccore': bool(k % 2), 'kind': rng.choice(['float', 'int', 'numpy']), 'dec': False})
    for k in range(60 if q else 600):       # borders that decimal coordinates do not meet exactly
        a, b = rng.randint(1, 9), rng.randint(1, 9)
        m = rng.choice([5, 6, 8, 10, 12, 15, 20, 24])
        cases.append({'what': 'clique', 'pts': [[-a], [b]] + [[rng.randint(-a, b)] for _ in range(rng.randint(1, 6))], 'm': m, 'thr': rng.choice([0, 0, 1]), 'ccore': bool(k % 2), 'kind': 'float', 'dec': True})
    for k in range(600 if q else 7000):
        dim = rng.choice([1, 1, 2, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
        cases.append({'what': 'bang', 'pts': points(rng, n, dim, rng.choice([2, 3, 4, 8])), 'levels': rng.choice([1, 2, 3, 3, 4, 5, 6]), 'num': rng.choice([0, 0, 0, 1, 2, 3]), 'den': rng.choice([1, 2, 4]),
                      'amt': rng.choice([0, 0, 0, 1, 2]), 'kind': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    pts = case['pts']
    n, dim = len(pts), len(pts[0])
    if case['what'] == 'clique':
        from pyclustering.cluster.clique import clique
        data = as_data([[x / 10 for x in p] for p in pts], 'numpy' if case['kind'] == 'numpy' else 'float') if case['dec'] else as_data(pts, case['kind'])
        c = clique(data, case['m'], case['thr'], ccore=case['ccore']).process()
        sc = 100000 if case['dec'] else 10000
        cells = []
        for b in c.get_cells():
            hi, lo = b.spatial_location.get_corners()
            cells.append({'loc': ints(b.logical_location), 'lo': fxs(lo, sc), 'hi': fxs(hi, sc), 'pts': ints(b.points)})
        exact = []
        for d in range(dim):
            v = [p[d] for p in pts]
            s = max(v) - min(v)
            exact.append(not case['dec'] and Fraction(float(s) / case['m']) == Fraction(s, case['m']))
        return {'kind': 'clique', 'n': n, 'pts': pts, 'm': case['m'], 'thr': case['thr'], 'clusters': lists(c.get_clusters()), 'noise': ints(c.get_noise()), 'cells': cells, 'exact': exact}
    from pyclustering.cluster.bang import bang
    sc = 2 ** (case['levels'] - 1)
    b = bang(as_data(pts, case['kind']), case['levels'], density_threshold=case['num'] / case['den'], amount_threshold=case['amt']).process()
    d = b.get_directory()
    def whole(v):
        return [int(x * sc) if float(x * sc).is_integer() else -1000 for x in v]
    def block(k):
        hi, lo = k.get_spatial_block().get_corners()
        return {'lo': whole(lo), 'hi': whole(hi), 'reg': int(k.get_region()), 'amount': len(k), 'dens': fx(k.get_density(), 1000), 'pts': ints(k.get_points() or []), 'cluster': -1 if k.get_cluster() is None else int(k.get_cluster())}
    return {'kind': 'bang', 'n': n, 'pts': [[x * sc for x in p] for p in pts], 'sc': sc, 'levels': case['levels'], 'num': case['num'], 'den': case['den'], 'amt': case['amt'],
            'clusters': lists(b.get_clusters()), 'noise': ints(b.get_noise()), 'leafs': [block(k) for k in d.get_leafs()], 'levs': [[block(k) for k in d.get_level(i)] for i in range(d.get_height())],
            'total': len(d), 'dendro': [[[x['lo'], x['hi'], x['reg']] for x in map(block, g)] for g in b.get_dendrogram()]}

def kind(case, rec):
    return case['what'] + (('/C++' if case['ccore'] else '/Python') if case['what'] == 'clique' else '')

def nontrivial(case, rec):
    return rec['n'] >= 2 and len(rec['clusters']) >= 1
