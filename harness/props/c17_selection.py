from vgen import *
PROP = 'C17'
SPEC, CFG = 'SelectionTrace', 'Trace.cfg'
MC = [('Selection', 'SelectionMC.cfg', ('quick', 'thorough')), ('Selection', 'SelectionMCBig.cfg', ('thorough',))]
RULE = ('silhouette: seeded lattice data and distance matrices with random clusterings (2 to n clusters, objects alone, duplicates, empty distances) in random order of clusters and objects, '
        'metrics, both cores; searches: K-Means, K-Medians, K-Medoids on up to 7 objects, every range, fixed and free random state, both cores; elbow: ranges, steps, initializers (built-in and own), both cores; '
        'non-trivial: a cluster of at least two objects, or a search over at least two numbers')

def gen(c):
    rng = c.rng
    cases = []
    q = c.quick
    for k in range(700 if q else 10000):
        dim = rng.choice([1, 2, 2, 3])
        n = rng.choice([2, 3, 4, 5, 6, 8, 10, 12])
        metric = rng.choice(['sq', 'sq', 'manhattan', 'chebyshev', 'euclid', 'user', 'matrix', 'matrix'])
        if metric == 'euclid':
            dim = 1
        case = {'kind': 'score', 'pts': points(rng, n, dim, rng.choice([1, 3, 7])), 'metric': metric, 'ccore': k % 2 == 0 and metric != 'user', 'data': rng.choice(['float', 'int', 'numpy'])}
        m = rng.randint(2, min(n, 5)) if rng.random() < .9 else n
        lab = list(range(m)) + [rng.randrange(m) for _ in range(n - m)]
        if rng.random() < .8:
            rng.shuffle(lab)
        cl = [[i for i in range(n) if lab[i] == j] for j in range(m)]
        for x in cl:
            if rng.random() < .5:
                rng.shuffle(x)
        case['clusters'] = cl
        if metric == 'matrix':
            mat = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    mat[i][j] = mat[j][i] = rng.randint(0, 9)
            case['mat'] = mat
        cases.append(case)
    for k in range(160 if q else 2500):
        n = rng.choice([3, 4, 5, 6, 7])
        kmin = rng.randint(2, min(3, n))
        cases.append({'kind': 'ksearch', 'pts': points(rng, n, rng.choice([1, 2]), rng.choice([4, 8])), 'kmin': kmin, 'kmax': rng.randint(kmin, min(n, 5)), 'algo': rng.choice(['kmeans', 'kmedians', 'kmedoids']),
                      'state': rng.choice([None, 0, 1, 77]), 'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    for k in range(240 if q else 3000):
        n = rng.choice([3, 4, 5, 6, 6, 14, 20])
        if n < 14:
            kmin, step = rng.choice([1, 1, 2]), 1
            kmax = rng.randint(kmin + 2, n) if kmin + 2 <= n else 3
            kmin = min(kmin, kmax - 2)
        else:
            kmin, step = rng.randint(1, 3), rng.choice([1, 1, 2, 3])
            kmax = rng.randint(kmin + 2 * step, min(n, 12))
        cases.append({'kind': 'elbow', 'pts': points(rng, n, rng.choice([1, 2]), rng.choice([4, 8])), 'kmin': kmin, 'kmax': kmax, 'kstep': step, 'init': rng.choice(['default', 'kpp', 'random', 'own']),
                      'state': rng.choice([None, 0, 1, 77]), 'ccore': k % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    from pyclustering.utils.metric import distance_metric, type_metric
    data = as_data(case.get('mat') or case['pts'], case['data'])
    before = snapshot(data)
    rec = {'kind': case['kind'], 'pts': case['pts']}
    if case['kind'] == 'score':
        from pyclustering.cluster.silhouette import silhouette
        m = case['metric']
        kw = {}
        if m == 'matrix':
            kw['data_type'] = 'distance_matrix'
            rec['mat'] = case['mat']
        else:
            kw['metric'] = distance_metric(type_metric.USER_DEFINED, func=lambda a, b: sum(abs(x - y) for x, y in zip(a, b))) if m == 'user' else distance_metric(
                {'sq': type_metric.EUCLIDEAN_SQUARE, 'euclid': type_metric.EUCLIDEAN, 'manhattan': type_metric.MANHATTAN, 'chebyshev': type_metric.CHEBYSHEV}[m])
            d = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b)) if m == 'sq' else max(abs(x - y) for x, y in zip(a, b)) if m == 'chebyshev' else sum(abs(x - y) for x, y in zip(a, b))
            rec['mat'] = [[d(a, b) for b in case['pts']] for a in case['pts']]
        cl = [list(x) for x in case['clusters']]
        rec.update(clusters=case['clusters'], score=fxs(silhouette(data, cl, ccore=case['ccore'], **kw).process().get_score()), untouched=snapshot(data) == before and cl == case['clusters'])
    elif case['kind'] == 'ksearch':
        from pyclustering.cluster.silhouette import silhouette_ksearch, silhouette_ksearch_type as K
        def go():
            s = silhouette_ksearch(data, case['kmin'], case['kmax'], algorithm={'kmeans': K.KMEANS, 'kmedians': K.KMEDIANS, 'kmedoids': K.KMEDOIDS}[case['algo']], random_state=case['state'], ccore=case['ccore']).process()
            sc = s.get_scores()
            assert sorted(sc) == list(range(case['kmin'], case['kmax'])), 'scores of other numbers of clusters'
            return {'scores': fxs([sc[k] for k in sorted(sc)]), 'amount': int(s.get_amount()), 'best': fx(s.get_score())}
        r = go()
        if case['state'] is not None:
            assert go() == r, 'a fixed random state does not reproduce the result'
        rec.update(r, kmin=case['kmin'], kmax=case['kmax'], algo=case['algo'], untouched=snapshot(data) == before)
    else:
        from pyclustering.cluster.elbow import elbow
        from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer
        asked = []
        class own:
            def __init__(self, d, amount, **kw):
                self.d, self.k = d, amount
                asked.append(int(amount))
            def initialize(self, **kw):
                return [list(map(float, p)) for p in self.d[:self.k]]
        kw = {} if case['init'] == 'default' else {'initializer': {'kpp': kmeans_plusplus_initializer, 'random': random_center_initializer, 'own': own}[case['init']]}
        def go():
            e = elbow(data, case['kmin'], case['kmax'], kstep=case['kstep'], random_state=case['state'], ccore=case['ccore'], **kw).process()
            return {'wce': fxs(e.get_wce()), 'amount': int(e.get_amount())}
        r = go()
        rec.update(r, asked=list(asked), mine=case['init'] == 'own')
        if case['state'] is not None:
            assert go() == r, 'a fixed random state does not reproduce the result'
        rec.update(kmin=case['kmin'], kmax=case['kmax'], kstep=case['kstep'], small=len(data) <= 6, untouched=snapshot(data) == before)
    return rec

def kind(case, rec):
    return '%s/%s' % (case['kind'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return any(len(x) > 1 for x in case['clusters']) if case['kind'] == 'score' else case['kind'] == 'elbow' or case['kmax'] - case['kmin'] > 1
