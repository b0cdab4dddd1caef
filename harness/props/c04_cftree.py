from vgen import *
PROP = 'C04'
SPEC, CFG = 'CfTreeTrace', 'Trace.cfg'
NEED_CORE = True
MC = [('CfTree', 'CfTreeMC.cfg', ('quick', 'thorough')), ('CfTree', 'CfTreeMCBig.cfg', ('thorough',))]
RULE = ('seeded insertion orders of lattice data (1-3 dimensions, duplicates, lines, blobs) into trees with branching 2-5, 1-5 entries per leaf, several diameters and all '
        'five measurement types, the whole tree recorded after every insertion; pairs of point sets for the summary measures; BIRCH runs with and without rebuilds; '
        'non-trivial: a tree of height at least 2, more than one summary, or sets of more than one point')
BADINT = 1 << 30

def gen(c):
    rng = c.rng
    cases = []
    for k in range(500 if c.quick else 6000):
        dim = rng.choice([1, 1, 2, 2, 3])
        cases.append({'kind': 'tree', 'pts': points(rng, rng.choice([1, 2, 4, 6, 8, 10, 14, 18]), dim, rng.choice([3, 5, 9, 15])), 'bf': rng.choice([2, 2, 3, 4, 5]),
                      'me': rng.choice([1, 1, 2, 3, 5]), 'tn': rng.choice([0, 1, 1, 2, 3, 5]), 'td': rng.choice([1, 2]), 'mt': rng.randrange(5), 'data': rng.choice(['float', 'numpy'])})
    for k in range(300 if c.quick else 4000):
        dim = rng.choice([1, 2, 3])
        cases.append({'kind': 'measure', 'A': points(rng, rng.choice([1, 1, 2, 3, 4]), dim, 6), 'B': points(rng, rng.choice([1, 2, 3, 4]), dim, 6)})
    for k in range(300 if c.quick else 4000):
        dim = rng.choice([1, 1, 2, 2, 3])
        cases.append({'kind': 'birch', 'pts': points(rng, rng.choice([1, 2, 3, 5, 8, 12, 16, 20]), dim, rng.choice([3, 5, 9, 15])), 'k': rng.choice([1, 1, 2, 2, 3, 4, 6]),
                      'bf': rng.choice([2, 3, 5, 50]), 'me': rng.choice([1, 2, 3, 200]), 'tn': rng.choice([0, 1, 1, 2, 3]), 'td': rng.choice([1, 2, 4]), 'mt': rng.choice([0, 0, 1, 2, 3, 4]),
                      'limit': rng.choice([1, 2, 3, 5, 500, 500]), 'mult': rng.choice([1.5, 2.0, 1.25]), 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def num(x):
    x = float(x)
    return int(x) if x == int(x) else BADINT

def feat(f):
    return {'n': int(f.number_points), 'ls': [num(x) for x in f.linear_sum], 'ss': num(f.square_sum)}

def mtype(k):
    from pyclustering.container.cftree import measurement_type
    return list(measurement_type)[k]

def run_case(case):
    from pyclustering.container.cftree import cftree, cfentry, cfnode_type, measurement_type
    if case['kind'] == 'tree':
        t = cftree(case['bf'], case['me'], case['tn'] / case['td'], mtype(case['mt']))
        steps = []
        for p in as_data(case['pts'], case['data']):
            t.insert_point(p)
            v, pos = [], {}
            def walk(n):
                v.append(n); pos[id(n)] = len(v)
                if n.type == cfnode_type.CFNODE_NONLEAF:
                    for s in n.successors: walk(s)
            walk(t.root)
            leaf = lambda n: n.type == cfnode_type.CFNODE_LEAF
            nodes = [{'f': feat(n.feature), 'leaf': leaf(n), 'kids': [] if leaf(n) else [pos[id(s)] for s in n.successors],
                      'u': 0 if n.parent is None else pos.get(id(n.parent), -1), 'es': [feat(e) for e in n.entries] if leaf(n) else []} for n in v]
            steps.append({'nodes': nodes, 'height': t.height, 'nnodes': t.amount_nodes, 'nentries': t.amount_entries, 'leaves': [pos.get(id(x), 0) for x in t.leafes],
                          'levels': [len(t.get_level_nodes(i)) for i in range(t.height)]})
        return {'kind': 'tree', 'pts': case['pts'], 'bf': case['bf'], 'me': case['me'], 'tn': case['tn'], 'td': case['td'], 'steps': steps}
    if case['kind'] == 'measure':
        from pyclustering.utils import linear_sum, square_sum
        a, b = [cfentry(len(s), linear_sum(as_data(s, 'float')), square_sum(as_data(s, 'float'))) for s in (case['A'], case['B'])]
        d = [float(a.get_distance(b, m)) for m in measurement_type]
        e = [float(b.get_distance(a, m)) for m in measurement_type]
        assert fxs(d, 1000) == fxs(e, 1000), 'measure is not symmetric'
        s = a + b
        assert s.number_points == len(case['A']) + len(case['B']) and feat(a) == feat(a + cfentry(0, [0.0] * len(case['A'][0]), 0.0)), 'sum of features'
        assert [fx(x) for x in a.get_centroid()] == [fx(sum(p[k] for p in case['A']) / len(case['A'])) for k in range(len(case['A'][0]))], 'centroid'
        sq = lambda x: fx(x * x, 1000)
        return {'kind': 'measure', 'A': case['A'], 'B': case['B'], 'm': {'euclid': fx(d[0], 1000), 'manhattan': fx(d[1], 1000), 'inter2': sq(d[2]), 'intra2': sq(d[3]), 'variance': fx(d[4], 1000),
                'radius2': sq(float(a.get_radius())), 'diameter2': sq(float(a.get_diameter()))}}
    from pyclustering.cluster.birch import birch
    data = as_data(case['pts'], case['data'])
    before = snapshot(data)
    b = birch(data, case['k'], case['bf'], case['me'], case['tn'] / case['td'], mtype(case['mt']), case['limit'], case['mult']).process()
    return {'kind': 'birch', 'pts': case['pts'], 'k': case['k'], 'limit': case['limit'], 'features': [feat(f) for f in b.get_cf_entries()], 'cf': lists(b.get_cf_cluster()),
            'clusters': lists(b.get_clusters()), 'untouched': snapshot(data) == before}

def kind(case, rec):
    return case['kind']

def nontrivial(case, rec):
    return rec['steps'][-1]['height'] > 1 if case['kind'] == 'tree' else len(rec['features']) > 1 if case['kind'] == 'birch' else len(rec['A']) > 1
