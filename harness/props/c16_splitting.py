from vgen import *
from lloyd import metric_of, reps
PROP = 'C16'
SPEC, CFG = 'SplittingTrace', 'Trace.cfg'
MC = [('Splitting', 'SplittingMC.cfg', ('quick', 'thorough')), ('Splitting', 'SplittingMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data (up to 8 objects in 1-2 dimensions, up to 16 in one dimension; blobs, duplicates, coincident objects), X-Means with BIC and MNDL, own and automatic initial centers, maximum numbers, '
        'bounds, repeats, metrics; G-Means with initial and maximum numbers, repeats; free and fixed random state, both cores; non-trivial: more than one cluster')
PER_SHARD = 60

def gen(c):
    rng = c.rng
    cases = []
    for k in range(900 if c.quick else 12000):
        algo = rng.choice(['bic', 'bic', 'mndl', 'gmeans', 'gmeans'])
        dim = rng.choice([1, 1, 2])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8]) if dim == 2 or rng.random() < .4 else rng.choice([8, 10, 12, 14])
        hi = rng.choice([3, 5]) if dim == 2 else rng.choice([4, 8, 12])
        if dim == 1 and rng.random() < .5:       # two or three groups
            b = [0, hi, hi // 2][:rng.choice([2, 2, 3])]
            pts = [[min(hi, max(0, rng.choice(b) + rng.choice([0, 0, 1, -1])))] for _ in range(n)]
        elif dim == 2 and algo == 'gmeans' and rng.random() < .5:
            n = rng.choice([8, 9, 10])
            pts = [[min(hi, max(0, x + rng.choice([0, 0, 1, -1]))) for x in rng.choice([(0, 0), (hi, hi)])] for _ in range(n)]
        else:
            pts = points(rng, n, dim, hi)
        case = {'pts': pts, 'algo': algo, 'ccore': rng.random() < .5, 'kind': rng.choice(['float', 'int', 'numpy']), 'state': rng.choice([None, 0, 1, 5, 77]), 'repeat': rng.choice([1, 1, 2, 3]),
                'query': [[rng.randint(0, hi) for _ in range(dim)] for _ in range(rng.choice([0, 2]))], 'metric': 'sq', 'init': [], 'alpha': 90, 'beta': 90}
        if algo == 'gmeans':
            case['k0'] = rng.choice([1, 1, 1, 2, 3]) if n >= 3 else 1
            case['kmax'] = rng.choice([0, 0, 0, case['k0'], case['k0'] + 1, 5])
        else:
            case['metric'] = rng.choice(['sq'] * 5 + ['euclid', 'manhattan', 'chebyshev', 'user'])
            case['k0'] = rng.choice([1, 1, 2, 2, 3])
            if rng.random() < .85 or n < 2:
                case['init'] = [{'v': list(rng.choice(pts)) if rng.random() < .8 else [rng.randint(0, hi) for _ in range(dim)], 'd': 1} for _ in range(case['k0'])]
            else:
                case['k0'] = 2
            case['kmax'] = rng.choice([case['k0'], case['k0'] + 1, 5, 20])
            if algo == 'mndl':
                case['alpha'], case['beta'] = rng.choice([(90, 90), (90, 90), (0, 0), (50, 100), (100, 20)])
        cases.append(case)
    for k in range(250 if c.quick else 4000):     # several groups: many splits, the maximum reached in the middle of a round
        algo = rng.choice(['bic', 'mndl', 'gmeans'])
        g = rng.choice([3, 4, 5, 6])
        n = rng.randint(3 * g, 3 * g + 4) if algo != 'gmeans' else rng.randint(14, 20)
        pts = [[6 * (i % g) + rng.choice([0, 0, 1, 2])] for i in range(n)]
        if algo == 'gmeans' and rng.random() < .7:        # pairs of groups: two clusters are split in one round
            pts = [[rng.choice([(0, 6, 18, 24), (0, 5, 20, 25), (0, 8, 22, 30)])[i % 4] + rng.choice([0, 0, 1])] for i in range(rng.randint(18, 24))]
        rng.shuffle(pts)
        k0 = rng.choice([1, 1, 2]) if algo == 'gmeans' else rng.choice([1, 2, 2, 3])
        cases.append({'pts': pts, 'algo': algo, 'ccore': k % 2 == 0, 'kind': rng.choice(['float', 'int', 'numpy']), 'state': rng.choice([None, 0, 1, 5, 77]), 'repeat': rng.choice([1, 2, 3]), 'query': [], 'metric': 'sq',
                      'init': [{'v': list(rng.choice(pts)), 'd': 1} for _ in range(k0)] if algo != 'gmeans' else [], 'alpha': 90, 'beta': 90, 'k0': k0, 'kmax': 3 if algo == 'gmeans' and rng.random() < .6 else k0 + rng.choice([0, 1, 1, 2, 2, 3, 4])})
    return cases

def run_case(case):
    from pyclustering.cluster.xmeans import xmeans, splitting_type
    from pyclustering.cluster.gmeans import gmeans
    data = as_data(case['pts'], case['kind'])
    init = [[float(x) for x in p['v']] for p in case['init']]
    before, binit = snapshot(data), snapshot(init)
    def go():
        if case['algo'] == 'gmeans':
            return gmeans(data, case['k0'], ccore=case['ccore'], tolerance=1e-8, repeat=case['repeat'], k_max=case['kmax'] or -1, random_state=case['state']).process()
        crit = splitting_type.BAYESIAN_INFORMATION_CRITERION if case['algo'] == 'bic' else splitting_type.MINIMUM_NOISELESS_DESCRIPTION_LENGTH
        return xmeans(data, init or None, case['kmax'], 1e-8, crit, case['ccore'], repeat=case['repeat'], random_state=case['state'], metric=metric_of(case['metric']),
                      alpha=case['alpha'] / 100, beta=case['beta'] / 100).process()
    def out(a):
        return {'cl': lists(a.get_clusters()), 'reps': reps(a.get_centers()), 'wce': fx(a.get_total_wce())}
    a = go()
    rec = {k: case[k] for k in ('pts', 'algo', 'init', 'k0', 'kmax', 'alpha', 'beta', 'query')}
    rec['metric'] = 'manhattan' if case['metric'] == 'user' else case['metric']
    rec['res'] = out(a)
    rec['label'] = ints(a.predict(as_data(case['query'], case['kind']))) if case['query'] else []
    rec['repeat'] = case['state'] is None or (out(go()) == rec['res'] and out(go()) == rec['res'])
    rec['untouched'] = snapshot(data) == before and snapshot(init) == binit
    return rec

def kind(case, rec):
    return '%s/%s' % (case['algo'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return len(rec['res']['cl']) > 1
