import itertools
from vgen import *
PROP = 'C25'
SPECS = {'main': ('ColoringTrace', 'Trace.cfg'), 'phase': ('PhasesTrace', 'Trace.cfg'), 'relay': ('OscillatoryTrace', 'Trace.cfg')}
NEED_CORE = False
MC = [('Coloring', 'ColoringMC.cfg', ('quick', 'thorough')), ('Coloring', 'ColoringMCBig.cfg', ('thorough',))]
RULE = ('DSATUR on all graphs of up to 4 (thorough: 5) vertices and seeded graphs of up to 9 vertices (sparse to dense, bipartite, cycles, isolated vertices) and of up to 18; hysteresis analysers on seeded integer dynamics and on '
        'simulations of small graphs; synchronous colouring on small graphs; non-trivial: at least two colours or groups')

def gen(c):
    rng, q = c.rng, c.quick
    cases = []
    for n in range(1, 5 if q else 6):
        pairs = list(itertools.combinations(range(n), 2))
        for bits in range(1 << len(pairs)):
            cases.append({'what': 'dsatur', 'n': n, 'edges': [p for k, p in enumerate(pairs) if bits >> k & 1]})
    for k in range(400 if q else 6000):
        n = rng.choice([5, 5, 6, 6, 7, 8, 9])
        cases.append({'what': 'dsatur', 'n': n, 'edges': graph(rng, n), 'np': rng.random() < .2})
    for k in range(150 if q else 3000):          # larger graphs: the order of vertices decides more
        n, d = rng.choice([10, 12, 14, 16, 18]), rng.choice([.2, .35, .5, .6, .7])
        cases.append({'what': 'dsatur', 'n': n, 'edges': [p for p in itertools.combinations(range(n), 2) if rng.random() < d], 'np': rng.random() < .2})
    for k in range(250 if q else 4000):
        n = rng.randint(1, 7)
        steps = rng.randint(1, 6)
        style = rng.random()
        base = [rng.randint(0, 6) for _ in range(n)] if style < .5 else [rng.choice([0, 4, 8]) for _ in range(n)]
        dyn = [[b + rng.choice([0, 0, 0, 1, 2]) for b in base] if rng.random() < .8 else [rng.randint(0, 8) for _ in range(n)] for _ in range(steps)]
        cases.append({'what': 'groups', 'dyn': dyn, 'steps': rng.randint(1, 7), 'tol': rng.choice([1, 2, 3, 4])})
    for k in range(24 if q else 200):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        cases.append({'what': 'hyst' if k % 2 else 'sync', 'n': n, 'edges': graph(rng, n), 'collect': rng.random() < .7, 'seed': rng.randint(0, 10 ** 6)})
    phase, relay = [], []
    for k in range(150 if q else 2500):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        w = [[0] * n for _ in range(n)]
        for a, b in graph(rng, n):
            w[a][b] = rng.choice([1, 1, 1, 2])
            w[b][a] = w[a][b]
        run = n <= 3 and rng.random() < .4       # larger networks may take very long to settle
        phase.append({'what': 'phase', 'n': n, 'graph': w, 'pos': 0 if run else rng.choice([0, 0, 50, 100]), 'neg': -100 if run else rng.choice([-100, -100, -50, -200]), 'red': None if run else rng.choice([None, None, 2, 5]),
                      'solver': 'FAST' if rng.random() < .5 else 'RK4', 'steps': 0 if run else rng.choice([1, 3, 10, 20]), 'h': 10000 if run else 5000, 'collect': rng.random() < .8, 'order': 9980, 'tols': [rng.choice([1000, 10000, 50000]) for _ in range(2)], 'seed': rng.randint(0, 10 ** 6)})
    for k in range(150 if q else 2500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        w = [[0] * n for _ in range(n)]
        for a, b in graph(rng, n):
            w[a][b] = w[b][a] = rng.choice([1, 1, 1, 2, 3])
        relay.append({'what': 'relay', 'n': n, 'g': w, 'alpha': rng.choice([12000, 5000, 20000]), 'eps': rng.choice([18000, 3000, 0]), 'steps': rng.choice([1, 5, 20, 40]), 'h': rng.choice([1000, 2000, 5000])})
    return {'main': cases, 'phase': phase, 'relay': relay}

def graph(rng, n):
    style = rng.choice(['p', 'p', 'p', 'bip', 'cycle', 'wheel'])
    pairs = list(itertools.combinations(range(n), 2))
    if style == 'p':
        d = rng.choice([.15, .3, .5, .7, .9])
        e = [p for p in pairs if rng.random() < d]
    elif style == 'bip':
        side = [rng.random() < .5 for _ in range(n)]
        e = [p for p in pairs if side[p[0]] != side[p[1]] and rng.random() < .7]
    else:
        e = [tuple(sorted((i, (i + 1) % n))) for i in range(n) if n > 2]
        if style == 'wheel' and n > 3:
            e += [(0, i) for i in range(1, n)]
    perm = list(range(n)); rng.shuffle(perm)
    return sorted({tuple(sorted((perm[a], perm[b]))) for a, b in e if a != b})

def matrix(case):
    n = case['n']
    m = [[0] * n for _ in range(n)]
    for a, b in case['edges']:
        m[a][b] = m[b][a] = 1
    return m

def run_case(case):
    w = case['what']
    if w == 'dsatur':
        from pyclustering.gcolor.dsatur import dsatur
        m = matrix(case)
        data = m
        if case.get('np'):
            import numpy
            data = numpy.array(m)
        d = dsatur(data)
        d.process()
        return {'kind': 'dsatur', 'adj': m, 'col': ints(d.get_colors())}
    from pyclustering.gcolor.hysteresis import hysteresisgcolor, hysteresis_analyser
    if w == 'groups':
        a = hysteresis_analyser([[float(x) for x in r] for r in case['dyn']], [float(t) for t in range(len(case['dyn']))])
        tol = case['tol'] / 2.0
        return {'kind': 'groups', 'n': len(case['dyn'][0]), 'dyn': [[2 * x for x in r] for r in case['dyn']], 'steps': case['steps'], 'tol': case['tol'],
                'groups': lists(a.allocate_clusters(tol, case['steps'])), 'map': ints(a.allocate_map_coloring(tol, case['steps']))}
    if w == 'relay':
        net = hysteresisgcolor(case['g'], case['alpha'] / 10000, case['eps'] / 10000)
        rec = dict(case, kind='relay', out0=ints(net.outputs))
        d = net.process(case['steps'], case['steps'] * case['h'] / 10000)
        rec.update(xs=[fxs(s) for s in d.output], time=fxs(d.time), len=len(d), out=ints(net.outputs))
        return rec
    if w == 'phase':
        return run_phase(case)
    import random, numpy
    random.seed(case['seed']); numpy.random.seed(case['seed'])
    m = matrix(case)
    if w == 'hyst':
        steps = 40
        a = hysteresisgcolor(m, 1.2, 1.8).process(steps, 4, collect_dynamic=case['collect'])
        tol = 0.05
        dyn = [[fx(x, 10 ** 6) for x in r] for r in a.output]
        flat = all(abs(abs(dyn[t][i] - dyn[t][j]) - 50000) > 2 for t in range(len(dyn)) for i in range(case['n']) for j in range(i))
        groups = lists(a.allocate_clusters(tol, 10))
        return {'kind': 'groups' if flat else 'net', 'n': case['n'], 'dyn': dyn, 'steps': 10, 'tol': 50000, 'groups': groups, 'map': ints(a.allocate_map_coloring(tol, 10))}
    from pyclustering.gcolor.sync import syncgcolor
    a = sync_run(syncgcolor(m, 0, -1), case)
    return {'kind': 'net', 'n': case['n'], 'groups': lists(a.allocate_color_clusters(0.1)), 'map': ints(a.allocate_map_coloring(0.1))}

def sync_run(net, case):
    from pyclustering.gcolor.sync import syncgcolor_analyser
    d = net.simulate_static(20, 5, collect_dynamic=case['collect'])
    return syncgcolor_analyser(d.output, d.time, None)

def run_phase(case):
    import random
    from pyclustering.gcolor.sync import syncgcolor, syncgcolor_analyser
    from pyclustering.nnet import solve_type
    random.seed(case['seed'])
    net = syncgcolor(case['graph'], case['pos'] / 100, case['neg'] / 100, case['red'])
    n, S = case['n'], 100000
    rec = dict(case, kind='gcolor', red=case['red'] or n, py=True, F=0, init='random', mem=[], corr=[], ord=[], pm=[], nb=[ints(net.get_neighbors(i)) for i in range(n)])
    if any(net.has_connection(i, j) != (j in rec['nb'][i]) for i in range(n) for j in range(n)):
        rec['nb'] = [[]] * (n - 1)
    sol = getattr(solve_type, case['solver'])
    if case['steps']:
        d = net.simulate_static(case['steps'], case['steps'] * case['h'] / S, sol, case['collect'])
        d = syncgcolor_analyser(d.output, d.time, None)
    else:
        d = net.process(case['order'] / 10000, sol, case['collect'])
    out, tm = [fxs(s, S) for s in d.output], list(d.time)
    rec.update(len=len(d), outs=len(out), times=len(tm), states=out[:60], tail=out[-2:] if len(out) > 60 else [], time=fxs(tm[:60], S) if max(tm, default=0) < 20000 else [])
    rec['ens'] = [{'it': 0, 'tol': t, 'idx': [], 'groups': lists(d.allocate_color_clusters(t / S))} for t in case['tols']]
    rec['loc'] = [{'from': 0, 'amount': 1, 'vals': [fx(net.sync_local_order())]}]
    return rec

def kind(case, rec):
    return case['what']

def nontrivial(case, rec):
    if case['what'] == 'relay':
        return rec['out'] != rec['out0']
    if case['what'] == 'phase':
        return rec['len'] > 2 and any(rec['nb'])
    return len(set(rec.get('col') or range(len(rec.get('groups', []))))) >= 2
