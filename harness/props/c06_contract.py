from vgen import *
import inspect
PROP = 'C06'
SPEC, CFG = 'ClustererTrace', 'Trace.cfg'
NEED_CORE = True
STALL = 60
MC = [('Clusterer', 'ClustererMCD.cfg', ('quick', 'thorough')), ('Clusterer', 'ClustererMCF.cfg', ('quick', 'thorough')), ('Clusterer', 'ClustererMCBig.cfg', ('thorough',))]
RULE = ('sessions of up to four instances of one of 26 clustering algorithms over lists, integer lists and arrays with the same values (1-14 objects, duplicates, lines, one object; random valid parameters, both cores, points and '
        'distance matrices): instances are created, processed, processed again, asked for clusters, noise and everything else in random order, the data compared in between; non-trivial: at least two clusters')
LINKS = ['SINGLE_LINK', 'COMPLETE_LINK', 'AVERAGE_LINK', 'CENTROID_LINK']
# algorithm: has noise, deterministic, cores
ALGS = {'agglomerative': (0, 1, 2), 'bang': (1, 1, 1), 'birch': (0, 1, 1), 'bsas': (0, 1, 2), 'clarans': (0, 0, 1), 'clique': (1, 1, 2), 'cure': (0, 1, 2), 'dbscan': (1, 1, 2), 'ema': (0, 1, 1), 'fcm': (0, 1, 2),
        'ga': (0, 0, 1), 'gmeans': (0, 0, 2), 'hsyncnet': (0, 0, 2), 'kmeans': (0, 1, 2), 'kmedians': (0, 1, 2), 'kmedoids': (0, 1, 2), 'mbsas': (0, 1, 2), 'optics': (1, 1, 2), 'rock': (0, 1, 2), 'somsc': (0, 0, 2),
        'syncnet': (0, 0, 2), 'syncsom': (0, 0, 1), 'ttsas': (0, 1, 2), 'xmeans': (0, 0, 2), 'xmeans-init': (0, 1, 2), 'gmeans-seed': (0, 1, 2)}
EMPTY = {'birch', 'ga', 'ema', 'fcm', 'syncsom', 'somsc'}     # clusters are given by something else than objects

RESUME = {'ema', 'fcm', 'kmeans', 'kmedians', 'kmedoids', 'xmeans-init'}

def gen(c):
    rng = c.rng
    cases = []
    algs = sorted(ALGS)
    for k in range((40 if c.quick else 700) * len(algs)):
        alg = algs[k % len(algs)]
        noisy, det, cores = ALGS[alg]
        dim = rng.choice([1, 2, 2, 3])
        hi = rng.choice([3, 6, 10])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
        if alg in ('hsyncnet', 'syncnet', 'syncsom'):
            n = rng.choice([2, 3, 4, 5, 6])
        pts = points(rng, n, dim, hi)
        distinct = len({tuple(p) for p in pts})
        p = {'k': rng.randint(1, min(n, 4)), 'r': rng.choice([1, 2, 3, 4, 5, 8]) / 2, 'mp': rng.choice([1, 1, 2, 3]), 'link': rng.choice(LINKS), 'm': rng.choice([1, 2, 3, 4]), 'rep': rng.choice([1, 2, 5]), 'seed': rng.randint(0, 10**6),
             'more': rng.random() < .5, 'init': []}
        ccore = cores == 2 and rng.random() < .5
        if alg == 'hsyncnet' and distinct < 2 or alg == 'somsc' and p['k'] > distinct or alg == 'xmeans' and n < 2 or alg == 'ema' and (n < 2 or dim > 2):
            continue
        if alg in ('kmeans', 'kmedians', 'fcm', 'xmeans-init'):
            seen = sorted({tuple(q) for q in pts})
            p['init'] = [list(q) for q in rng.sample(seen, min(len(seen), p['k']))]
        if alg == 'kmedoids':
            p['idx'] = rng.sample(range(n), p['k'])
        matrix = alg in ('dbscan', 'optics', 'kmedoids') and rng.random() < .3
        if matrix:
            pts = [[sum(abs(x - y) for x, y in zip(a, b)) for b in pts] for a in pts]
        ops, state, created = [], {}, []
        for _ in range(rng.choice([6, 10, 16])):
            x = rng.randint(1, min(4, len(created) + 1))
            if x not in state:
                ops.append(['create', x]); state[x] = 0; created.append(x)
                if rng.random() < .2:
                    continue
            if state[x] == 0 or state[x] == 1 and rng.random() < .12:
                ops.append(['process', x]); state[x] += 1
            for _ in range(rng.choice([0, 1, 2, 3])):
                ops.append([rng.choice(['clusters', 'clusters', 'noise', 'extra', 'data']), x])
        for x in created:
            if state[x] == 0:
                ops.append(['process', x])
            ops += [['clusters', x], ['noise', x], ['data', x]]
        ops = [o for o in ops if o[0] != 'noise' or noisy]
        kinds = {x: rng.choice(['float', 'float', 'int', 'numpy']) for x in created}
        cases.append({'alg': alg, 'n': n, 'pts': pts, 'p': p, 'ccore': ccore, 'matrix': matrix, 'ops': ops, 'kinds': [kinds[x] for x in sorted(kinds)]})
    return cases

def make(case, data, init):
    p, cc, dt = case['p'], case['ccore'], 'distance_matrix' if case['matrix'] else 'points'
    a = case['alg'].split('-')[0]
    import importlib
    m = importlib.import_module('pyclustering.cluster.' + a)
    if a == 'agglomerative':
        return m.agglomerative(data, p['k'], getattr(m.type_link, p['link']), cc)
    if a == 'bang':
        return m.bang(data, p['m'], density_threshold=0.0)
    if a == 'birch':
        return m.birch(data, p['k'], 4, 100, .5)
    if a in ('bsas', 'mbsas'):
        return getattr(m, a)(data, p['k'], p['r'], cc)
    if a == 'clarans':
        return m.clarans(data, p['k'], 1, 3)
    if a == 'clique':
        return m.clique(data, p['m'], p['mp'] - 1, ccore=cc)
    if a == 'cure':
        return m.cure(data, p['k'], p['rep'], .5, cc)
    if a == 'dbscan':
        return m.dbscan(data, p['r'], p['mp'], cc, data_type=dt)
    if a == 'ema':
        import numpy
        pts = [[float(x) for x in q] for q in case['pts']]
        return m.ema(data, p['k'], [numpy.array(q) for q in pts[:p['k']]], [numpy.eye(len(pts[0])) * 4] * p['k'], iterations=5)
    if a == 'fcm':
        return m.fcm(data, init, ccore=cc)
    if a == 'ga':
        return m.genetic_algorithm(data, p['k'], 6, 4)
    if a == 'gmeans':
        return m.gmeans(data, p['k'], cc, random_state=p['seed'] if case['alg'] == 'gmeans-seed' else None)
    if a == 'hsyncnet':
        return m.hsyncnet(data, p['k'], ccore=cc)
    if a in ('kmeans', 'kmedians'):
        return getattr(m, a)(data, init, ccore=cc)
    if a == 'kmedoids':
        return m.kmedoids(data, list(p['idx']), ccore=cc, data_type=dt)
    if a == 'optics':
        return m.optics(data, p['r'], p['mp'], p['k'] if p['more'] else None, cc, data_type=dt)
    if a == 'rock':
        return m.rock(data, p['r'], p['k'], .5, cc)
    if a == 'somsc':
        return m.somsc(data, p['k'], 20, cc)
    if a == 'syncnet':
        return m.syncnet(data, p['r'], ccore=cc)
    if a == 'syncsom':
        return m.syncsom(data, 1 + p['k'] // 3, 2, p['r'])
    if a == 'ttsas':
        return m.ttsas(data, p['r'], 2 * p['r'], cc)
    if a == 'xmeans':
        return m.xmeans(data, init if case['alg'] == 'xmeans-init' else None, 5, ccore=cc, random_state=p['seed'] if case['alg'] == 'xmeans-init' else None)

def run_case(case):
    import warnings, random, numpy
    warnings.simplefilter('ignore')
    random.seed(case['p']['seed']); numpy.random.seed(case['p']['seed'])
    rec = {'n': case['n'], 'instances': 4, 'alg': case['alg'], 'det': bool(ALGS[case['alg']][1]), 'noisy': bool(ALGS[case['alg']][0]), 'empty': case['alg'] in EMPTY, 'resume': case['alg'] in RESUME}
    own = case['alg'] in ('syncnet', 'hsyncnet')
    rec['pts'] = [fxs(r) for r in case['pts'] + case['p']['init']]
    ins, data, init, res = {}, {}, {}, {}
    out = []
    for op, x in case['ops']:
        if op == 'create':
            data[x] = as_data(case['pts'], case['kinds'][x - 1])
            init[x] = [[float(v) for v in q] for q in case['p']['init']]
            ins[x] = make(case, data[x], init[x])
        elif op == 'process':
            r = ins[x].process(collect_dynamic=True) if own else ins[x].process()
            if own:
                res[x] = r
        elif op == 'clusters':
            if x not in ins:
                continue
            if own:
                if x not in res:
                    continue
                v = res[x].allocate_clusters(.1)
            else:
                v = ins[x].get_clusters()
            out.append({'op': op, 'x': x, 'v': lists(v)})
            continue
        elif op == 'noise':
            out.append({'op': op, 'x': x, 'v': ints(ins[x].get_noise())})
            continue
        elif op == 'data':
            out.append({'op': op, 'x': x, 'v': [fxs(r) for r in snapshot(data[x])] + [fxs(r) for r in init[x]]})
            continue
        elif op == 'extra':
            o = res.get(x) if own else ins[x]
            for name in sorted(dir(o)):
                if name.startswith('get_') and not own:
                    f = getattr(o, name)
                    if not [q for q in inspect.signature(f).parameters.values() if q.default is q.empty]:
                        f()
            if hasattr(o, 'predict') and not case['matrix']:
                o.predict(data[x])
        out.append({'op': op, 'x': x})
    rec['ops'] = out
    return rec

def kind(case, rec):
    return '%s/%s' % (case['alg'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return any(o['op'] == 'clusters' and len(o['v']) > 1 for o in rec['ops'])
