from vgen import *
PROP = 'C11'
SPEC, CFG = 'RockTrace', 'Trace.cfg'
MC = [('Rock', 'RockMC.cfg', ('quick', 'thorough')), ('Rock', 'RockMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data (1-3 dimensions; duplicates, lines, blobs), radii including ones met exactly, thresholds with integer and fractional exponents, each clustered into '
        'n, n-1, ..., 1 clusters, both cores, lists and arrays; non-trivial: at least two merges were made')
# threshold -> exponent 1 + 2(1-t)/(1+t)
TH = {'0': (0.0, 3.0, 1), '1/3': (1.0 / 3.0, 2.0, 1), '1/2': (0.5, 1 + 2 * (0.5 / 1.5), 1000), '1/5': (0.2, 1 + 2 * 0.8 / 1.2, 1000), '7/10': (0.7, 1 + 2 * 0.3 / 1.7, 1000)}

def gen(c):
    rng = c.rng
    cases = []
    for k in range(700 if c.quick else 8000):
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        cases.append({'pts': points(rng, n, dim, rng.choice([3, 5, 8])), 'rn': rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 20]), 'rd': rng.choice([1, 1, 2]), 'th': rng.choice(list(TH)),
                      'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    from pyclustering.cluster.rock import rock
    th, f, sc = TH[case['th']]
    parts, n = [], len(case['pts'])
    for k in range(n, 0, -1):
        data = as_data(case['pts'], case['data'])
        before = snapshot(data)
        parts.append(lists(rock(data, case['rn'] / case['rd'], k, th, case['ccore']).process().get_clusters()))
        assert snapshot(data) == before, 'input data modified'
    return {'pts': case['pts'], 'rn': case['rn'], 'rd': case['rd'], 'W': [int(round(s ** f * sc)) for s in range(1, 2 * n + 1)], 'slack': 0 if sc == 1 else 2, 'parts': parts}

def kind(case, rec):
    return 'c++' if case['ccore'] else 'python'

def nontrivial(case, rec):
    return len(rec['parts'][-1]) <= len(case['pts']) - 2
