from vgen import *
PROP = 'C21'
SPEC, CFG = 'CureTrace', 'Trace.cfg'
MC = [('Cure', 'CureMC.cfg', ('quick', 'thorough')), ('Cure', 'CureMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data (1-2 dimensions; duplicates, lines, blobs), 1-5 representatives, compressions 0..1, each clustered into n, n-1, ..., 1 clusters, both cores, lists and '
        'arrays; non-trivial: at least four objects')

def gen(c):
    rng = c.rng
    cases = []
    for k in range(700 if c.quick else 12000):
        dim = rng.choice([1, 1, 2, 2])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        cn, cd = rng.choice([(0, 1), (1, 2), (1, 2), (1, 4), (3, 4), (1, 3), (1, 1)])
        cases.append({'pts': points(rng, n, dim, rng.choice([3, 6, 10])), 'r': rng.choice([1, 2, 2, 3, 5]), 'cn': cn, 'cd': cd, 'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    for k in range(160 if c.quick else 2000):            # larger, mostly without ties: closest clusters are looked for anew many times
        n = rng.randint(11, 13)
        dim = rng.choice([1, 2, 2])
        cn, cd = rng.choice([(0, 1), (1, 2), (1, 2)])
        pts = [list(p) for p in rng.sample([(x, y) for x in range(16) for y in range(16)] if dim == 2 else [(x,) for x in range(40)], n)]
        cases.append({'pts': pts, 'r': rng.choice([1, 1, 2, 3]), 'cn': cn, 'cd': cd, 'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    from pyclustering.cluster.cure import cure
    steps = []
    for k in range(len(case['pts']), 0, -1):
        data = as_data(case['pts'], case['data'])
        before = snapshot(data)
        a = cure(data, k, case['r'], case['cn'] / case['cd'], case['ccore']).process()
        assert snapshot(data) == before, 'input data modified'
        steps.append({'cl': lists(a.get_clusters()), 'reps': [[fxs(p) for p in r] for r in a.get_representors()], 'means': [fxs(m) for m in a.get_means()]})
    return {'pts': case['pts'], 'r': case['r'], 'cn': case['cn'], 'cd': case['cd'], 'steps': steps}

def kind(case, rec):
    return 'c++' if case['ccore'] else 'python'

def nontrivial(case, rec):
    return len(case['pts']) > 3
