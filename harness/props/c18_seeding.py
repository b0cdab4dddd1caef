from vgen import *
import ctrl
PROP = 'C18'
SPECS = {'py': ('SeedingTrace', 'Trace.cfg'), 'cpp': ('SeedingTrace', 'Trace.cfg')}
OWN = ('cpp',)
MC = [('Seeding', 'SeedingMC.cfg', ('quick', 'thorough')), ('Seeding', 'SeedingMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data with duplicates up to all objects equal, 1 to all centers, random and K-Means++ (1 to n candidates, farthest) initializers, indexes and points, distance '
        'matrices, metrics, index ranges, repeated use of one object, fixed and free random state; the random draws of the Python K-Means++ are observed; both implementations; '
        'non-trivial: at least two centers chosen')
M = 10007

def gen(c):
    rng = c.rng
    res = {'py': [], 'cpp': []}
    for g, num in (('py', 800 if c.quick else 12000), ('cpp', 800 if c.quick else 12000)):
        for _ in range(num):
            dim = rng.choice([1, 1, 2, 2, 3])
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
            pts = points(rng, n, dim, rng.choice([1, 3, 6]), 'same' if rng.random() < .12 else None)
            rule = rng.choice(['random', 'kpp', 'kpp', 'kpp', 'far'])
            cand = rng.randint(1, n)
            case = {'pts': pts, 'rule': rule, 'cand': cand, 'k': n if rng.random() < .15 else rng.randint(1, n), 'state': rng.choice([None, 0, 1, rng.randint(2, 100000)]),
                    'metric': 'sq', 'data': 'float', 'index': rng.random() < .5, 'reps': rng.choice([1, 1, 2])}
            if g == 'py':
                case.update(metric=rng.choice(['sq', 'sq', 'manhattan', 'chebyshev', 'euclid', 'user', 'matrix']) if rule != 'random' else 'sq', data=rng.choice(['float', 'int', 'numpy']))
                if rule == 'kpp' and rng.random() < .2:
                    case['cand'] = None
                case['draws'] = [rng.randint(0, M - 1) for _ in range(case['k'] * n)]
                if case['metric'] == 'matrix':
                    m = [[0] * n for _ in range(n)]
                    for i in range(n):
                        for j in range(i):
                            m[i][j] = m[j][i] = rng.randint(0 if rng.random() < .2 else 1, 12)
                    case['mat'] = m
                if case['metric'] == 'euclid':
                    case['pts'] = [p[:1] for p in pts]
            else:
                case['range'] = sorted(rng.sample(range(n), rng.randint(case['k'], n))) if rng.random() < .4 and rule != 'random' else []
            res[g].append(case)
    return res

def dist(m, a, b):
    d = [abs(x - y) for x, y in zip(a, b)]
    return sum(x * x for x in d) if m == 'sq' else max(d) if m == 'chebyshev' else sum(d)

def frame(case, idx=None):
    pts = [case['pts'][i] for i in idx] if idx else case['pts']
    cls = {}
    same = [cls.setdefault(tuple(p), len(cls) + 1) for p in pts]
    mat = case.get('mat') or [[dist(case['metric'], a, b) for b in pts] for a in pts]
    if case.get('mat'):
        same = list(range(1, len(pts) + 1))
    return {'mat': mat, 'same': same, 'k': case['k'], 'rule': case['rule'], 'm': M}, cls

def run_case(case):
    import random, numpy
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer as kpp, random_center_initializer
    from pyclustering.utils.metric import distance_metric, type_metric
    data = as_data(case.get('mat') or case['pts'], case['data'])
    before = snapshot(data)
    rec, cls = frame(case)
    index = case['index'] or case['metric'] == 'matrix'
    def make():
        if case['rule'] == 'random':
            return random_center_initializer(data, case['k'], random_state=case['state'])
        kw = {'random_state': case['state']}
        if case['metric'] == 'matrix':
            kw['data_type'] = 'distance_matrix'
        elif case['metric'] == 'user':
            kw['metric'] = distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(x - y) for x, y in zip(a, b)))
        elif case['metric'] != 'sq':
            kw['metric'] = distance_metric({'euclid': type_metric.EUCLIDEAN, 'manhattan': type_metric.MANHATTAN, 'chebyshev': type_metric.CHEBYSHEV}[case['metric']])
        cand = kpp.FARTHEST_CENTER_CANDIDATE if case['rule'] == 'far' else case['cand']
        return kpp(data, case['k'], cand, **kw) if cand is not None else kpp(data, case['k'], **kw)
    def answer(r, draws=()):
        r = list(r)
        if index:
            return {'ix': ints(r), 'pt': [], 'draws': list(draws)}
        return {'ix': [], 'pt': [cls.get(tuple(int(x) if x == int(x) else float(x) for x in p), 0) for p in r], 'draws': list(draws)}
    runs = []
    def once(o):
        return answer(o.initialize(return_index=index))
    a = make()
    runs = [once(a) for _ in range(case['reps'])]
    rec['repeat'] = True
    if case['state'] is not None:
        b = make()
        rec['repeat'] = [once(b) for _ in range(case['reps'])] == runs
    if case['rule'] == 'kpp':
        # the same with chosen draws in place of the uniform random ones
        o, used, real = make(), [], random.random
        def draw():
            used.append(case['draws'][len(used) % len(case['draws'])])
            return used[-1] / M
        random.random = draw
        try:
            r = once(o)
        finally:
            random.random = real
        steps = case['k'] - 1
        if steps and used and len(used) % steps == 0:
            per = len(used) // steps
            r['draws'] = [used[i * per:(i + 1) * per] for i in range(steps)]
        runs.append(r)
    rec.update(runs=runs, untouched=snapshot(data) == before)
    return rec

def execute(c, group, cases):
    exe = ctrl.build(c, 'seed', core=True, shim=False)
    lines = []
    for k in cases:
        mode = 2 if k['range'] else 1 if k['index'] and k['rule'] != 'random' else 0
        lines.append(' '.join(map(str, [len(k['pts'][0]), len(k['pts'])] + [x for p in k['pts'] for x in p] + [{'random': 0, 'kpp': 1, 'far': 2}[k['rule']], k['k'], k['cand'],
                              -1 if k['state'] is None else k['state'], len(k['range'])] + k['range'] + [mode, k['reps']])))
    recs = []
    for k, o in zip(cases, ctrl.run(exe, lines, 4, c.scratch)):
        if isinstance(o, dict):
            recs.append({'outcome': 'crash', 'detail': str(o['crash'])})
            continue
        rec, cls = frame(k, k['range'])
        runs = [{'ix': r['ix'], 'pt': [cls.get(tuple(p), 0) for p in r['raw']], 'draws': []} for r in o]
        half = len(runs) // 2
        rec.update(outcome='ok', runs=runs, repeat=k['state'] is None or runs[:half] == runs[half:], untouched=True)
        recs.append(rec)
    return recs

def kind(case, rec):
    return case['rule'] + ('' if 'draws' in case else '/c++')

def nontrivial(case, rec):
    return case['k'] > 1
