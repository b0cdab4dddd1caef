from vgen import *
PROP = 'C22'
SPECS = {'clarans': ('ClaransTrace', 'Trace.cfg'), 'genetic': ('GeneticTrace', 'Trace.cfg'), 'em': ('EmTrace', 'Trace.cfg')}
NEED_CORE = True
STALL = 60
MC = [('Clarans', 'ClaransMC.cfg', ('quick', 'thorough')), ('Genetic', 'GeneticMC.cfg', ('quick', 'thorough')), ('Em', 'EmMC.cfg', ('quick', 'thorough')),
      ('Clarans', 'ClaransMCBig.cfg', ('thorough',)), ('Genetic', 'GeneticMCBig.cfg', ('thorough',)), ('Em', 'EmMCBig.cfg', ('thorough',))]
RULE = ('CLARANS: seeded lattice data (1-10 objects, duplicates, lines), every number of medoids up to the number of objects, 1-3 searches, 0 to 3000 neighbours with a recorded source of random numbers; GA: lattice data, '
        '1-4 clusters, populations, generations, mutation and selection parameters, and probability vectors with controlled draws; EM: 1-2 dimensions, given means and covariances stepped one iteration at a time, and automatic '
        'initialisation including degenerate data; non-trivial: at least two clusters')

def gen(c):
    rng, q = c.rng, c.quick
    g = {'clarans': [], 'genetic': [], 'em': []}
    for k in range(300 if q else 5000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10])
        pts = points(rng, n, rng.choice([1, 1, 2, 3]), rng.choice([3, 6, 9]))
        kk = n if rng.random() < .08 else rng.randint(1, min(n, 4))
        full = rng.random() < .6
        g['clarans'].append({'pts': pts, 'k': kk, 'numlocal': rng.choice([1, 1, 2, 3]), 'neigh': 40 * max(1, kk * (n - kk)) if full else rng.choice([0, 1, 2, 5]), 'full': full, 'kind': rng.choice(['float', 'int', 'numpy']), 'seed': rng.randint(0, 10 ** 6)})
    for k in range(120 if q else 1500):       # more objects and medoids
        n, kk = rng.randint(9, 13), rng.randint(3, 5)
        full = rng.random() < .7
        g['clarans'].append({'pts': points(rng, n, rng.choice([1, 2, 2, 3]), 9), 'k': kk, 'numlocal': rng.choice([1, 1, 2, 4]), 'neigh': 25 * kk * (n - kk) if full else rng.choice([0, 2, 10]), 'full': full, 'kind': rng.choice(['float', 'int', 'numpy']), 'seed': rng.randint(0, 10 ** 6)})
    for k in range(160 if q else 2500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        g['genetic'].append({'what': 'run', 'pts': points(rng, n, rng.choice([1, 2, 3]), rng.choice([1, 4, 8])), 'k': rng.choice([1, 2, 2, 3, 4]), 'chroms': rng.choice([1, 2, 3, 4, 7, 10]), 'gens': rng.choice([0, 1, 2, 5, 8]),
                             'mut': rng.choice([0, 1, 2, 5]), 'coeff': rng.choice([0, .25, .5, 1.0]), 'sel': rng.choice([0.0, 0.1, 1.0]), 'state': rng.choice([None, 0, 1, 99]), 'kind': rng.choice(['float', 'int', 'numpy'])})
    for k in range(60 if q else 800):
        w = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0]) for _ in range(rng.randint(1, 6))]
        if not any(w):
            w[0] = 1
        g['genetic'].append({'what': 'prob', 'w': w, 'u': [rng.randint(0, 9999) for _ in range(6)] + [0, 9999], 'pts': [], 'k': 1})
    for k in range(260 if q else 4000):
        dim = rng.choice([1, 1, 2, 2])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
        pts = points(rng, n, dim, 4)
        kk = rng.choice([1, 2, 2, 3])
        case = {'pts': pts, 'k': kk, 'kind': rng.choice(['float', 'int', 'numpy']), 'exact': rng.random() < .7, 'init': [], 'iters': rng.choice([1, 2, 3, 4, 6])}
        if case['exact']:
            for _ in range(kk):
                s = [rng.randint(1, 4)] if dim == 1 else rng.choice([[1, 0, 1], [2, 0, 2], [2, 1, 2], [3, 1, 1], [1, 0, 3], [2, -1, 1], [4, 2, 2], [3, -2, 2]])
                case['init'].append({'m': {'v': [rng.randint(0, 8) for _ in range(dim)], 'd': 2}, 's': s})
        else:
            case['k'] = min(kk, n)
        g['em'].append(case)
    for k in range(6 if q else 60):      # a component far away from all objects
        far = {'m': {'v': [4000], 'd': 1}, 's': [1]}
        near = [{'m': {'v': [x], 'd': 1}, 's': [1]} for x in (0, 4)]
        init = [far] + near if k % 2 else near[:1] + [far] + near[1:]
        g['em'].append({'pts': [[rng.choice([0, 1, 3, 4])] for _ in range(6)], 'k': 3, 'kind': 'float', 'exact': True, 'init': init, 'iters': 2})
    return g

class Source:
    """stands for the module random inside the clarans module: deterministic, remembers the samples"""
    def __init__(self, seed):
        import random
        self.r, self.samples = random.Random(seed), []
    def seed(self, *a):
        pass
    def sample(self, *a, **k):
        s = self.r.sample(*a, **k)
        self.samples.append([int(x) for x in s])
        return s
    def __getattr__(self, name):
        return getattr(self.r, name)

def run_case(case):
    if 'neigh' in case:
        return run_clarans(case)
    if 'what' in case:
        return run_genetic(case)
    return run_em(case)

def run_clarans(case):
    import pyclustering.cluster.clarans as mod
    data = as_data(case['pts'], case['kind'])
    before = snapshot(data)
    src = Source(case['seed'])
    old = getattr(mod, 'random', None)
    if old is not None:
        mod.random = src
    try:
        a = mod.clarans(data, case['k'], case['numlocal'], case['neigh']).process()
    finally:
        if old is not None:
            mod.random = old
    starts = src.samples if len(src.samples) == case['numlocal'] and all(len(s) == case['k'] for s in src.samples) else []
    return {'pts': case['pts'], 'k': case['k'], 'full': case['full'], 'medoids': ints(a.get_medoids()), 'clusters': lists(a.get_clusters()), 'starts': starts, 'untouched': snapshot(data) == before}

def run_genetic(case):
    if case['what'] == 'prob':
        import pyclustering.cluster.ga_maths as gm
        import numpy
        p = gm.ga_math.calc_probability_vector(numpy.array([float(x) for x in case['w']]))
        draws = []
        class rnd:
            @staticmethod
            def rand(*a):
                return u
        class NP:
            random = rnd
            def __getattr__(self, name):
                return getattr(numpy, name)
        old = gm.np
        gm.np = NP()
        try:
            for x in case['u']:
                u = x / 10000
                draws.append([x, int(gm.ga_math.get_uniform(p))])
        finally:
            gm.np = old
        return {'kind': 'prob', 'w': case['w'], 'p': fxs(p), 'draws': draws}
    from pyclustering.cluster.ga import genetic_algorithm, ga_observer
    data = as_data(case['pts'], case['kind'])
    before = snapshot(data)
    def go():
        o = ga_observer(True, True, True)
        a = genetic_algorithm(data, case['k'], case['chroms'], case['gens'], count_mutation_gens=case['mut'], coeff_mutation_count=case['coeff'], select_coeff=case['sel'], random_state=case['state'], observer=o)
        ch, ff = a.process()
        def obs(d):
            return [{'ch': ints(x), 'ff': fx(y)} for x, y in zip(d['chromosome'], d['fitness_function'])]
        return {'glob': obs(o.get_global_best()), 'loc': obs(o.get_population_best()), 'mean': fxs(o.get_mean_fitness_function()), 'final': {'ch': ints(ch), 'ff': fx(ff), 'clusters': lists(a.get_clusters())}}
    rec = go()
    rec.update(kind='run', pts=case['pts'], k=case['k'], gens=case['gens'], repeat=case['state'] is None or go() == {k: rec[k] for k in ('glob', 'loc', 'mean', 'final')}, untouched=snapshot(data) == before)
    return rec

def run_em(case):
    import numpy, random, warnings
    warnings.simplefilter('ignore')
    from pyclustering.cluster.ema import ema, ema_observer
    data = as_data(case['pts'], case['kind'])
    before = snapshot(data)
    dim = len(case['pts'][0])
    def init():
        if not case['exact']:
            return None, None
        ms = [numpy.array([x / i['m']['d'] for x in i['m']['v']]) for i in case['init']]
        cs = [numpy.array([[float(i['s'][0])]]) if dim == 1 else numpy.array([[i['s'][0], i['s'][1]], [i['s'][1], i['s'][2]]], dtype=float) for i in case['init']]
        return ms, cs
    def state(a):
        cov = []
        for c in a.get_covariances():
            c = numpy.atleast_2d(c)
            cov.append([fx(c[0][0])] if dim == 1 else [fx(c[0][0]), fx(c[0][1]), fx(c[-1][-1])])
        return {'means': [fxs(m) for m in a.get_centers()], 'covs': cov, 'rc': [fxs(r, 100000) for r in a.get_probabilities()], 'cl': lists(a.get_clusters())}
    steps, repeat = [], True
    for it in (range(1, case['iters'] + 1) if case['exact'] else [case['iters'], 100]):
        m, s = init()
        a = ema(data, case['k'], m, s, iterations=it, tolerance=0.0).process()
        steps.append(state(a))
        if case['exact']:
            o = ema_observer()
            m, s = init()
            b = ema(data, case['k'], m, s, o, iterations=it, tolerance=0.0).process()
            last = {'means': [fxs(x) for x in o.get_evolution_means()[-1]], 'cl': lists(o.get_evolution_clusters()[-1])}
            repeat = repeat and state(b) == steps[-1] and last['means'] == steps[-1]['means'] and last['cl'] == steps[-1]['cl'] and len(o) <= it
    return {'pts': case['pts'], 'exact': case['exact'], 'init': case['init'], 'steps': steps, 'repeat': repeat, 'untouched': snapshot(data) == before}

def kind(case, rec):
    return 'clarans' if 'neigh' in case else 'genetic ' + case['what'] if 'what' in case else 'em'

def nontrivial(case, rec):
    return case['k'] > 1 or case.get('what') == 'prob'
