from vgen import *
PROP = 'C15'
SPEC, CFG = 'FcmTrace', 'Trace.cfg'
MC = [('Fcm', 'FcmMC.cfg', ('quick', 'thorough')), ('Fcm', 'FcmMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data (1-2 dimensions; duplicates, lines, blobs, objects coinciding with centers), 1-4 initial centers, hyper-parameters 2, 3 and 3/2, tolerances, both cores, '
        'lists and arrays, observed iteration by iteration through the iteration limit; non-trivial: at least two centers and three objects')
RUNS = 6

def gen(c):
    rng = c.rng
    cases = []
    for k in range(500 if c.quick else 6000):
        dim = rng.choice([1, 1, 2, 2])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        pts = points(rng, n, dim, rng.choice([3, 5, 8]))
        cs = [list(rng.choice(pts)) if rng.random() < .3 else [rng.randint(0, 16) / 2 for _ in range(dim)] for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        cases.append({'pts': pts, 'init': cs, 'm': rng.choice(['2', '2', '3', '3/2']), 'tol': rng.choice([1, 1, 20, 100, 300, 1000]), 'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    from pyclustering.cluster.fcm import fcm
    runs = []
    data = as_data(case['pts'], case['data'])
    before = snapshot(data)
    for it in range(1, RUNS + 1):
        init = [list(p) for p in case['init']]
        a = fcm(data, init, m={'2': 2, '3': 3, '3/2': 1.5}[case['m']], tolerance=case['tol'] / 1000, itermax=it, ccore=case['ccore']).process()
        assert init == case['init'], 'initial centers modified'
        runs.append({'centers': [fxs(p, 1000) for p in a.get_centers()], 'mem': [fxs(r) for r in a.get_membership()], 'cl': lists(a.get_clusters())})
    return {'core': case['ccore'], 'pts': case['pts'], 'm': case['m'], 'init': [fxs(p, 1000) for p in case['init']], 'tol': case['tol'], 'runs': runs, 'untouched': snapshot(data) == before}

def kind(case, rec):
    return '%s/%s' % (case['m'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return len(case['init']) > 1 and len(case['pts']) > 2

def key(case, rec, v):
    return 'cpp-coincident' if case['ccore'] and v[1] == 'an object that coincides with a center has memberships in the other centers besides' else None
