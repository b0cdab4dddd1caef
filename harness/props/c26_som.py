from vgen import *
import math
PROP = 'C26'
SPEC, CFG = 'SomTrace', 'Trace.cfg'
MC = [('Som', 'SomMC.cfg', ('quick', 'thorough')), ('Som', 'SomMCBig.cfg', ('thorough',))]
RULE = ('seeded patterns (1-3 dimensions, hundredths and lattice points), maps up to 4 x 5 (single rows and columns included), the four connection types, the four initialisations with fixed seeds, radii by default and given, '
        'learning rates, 1-6 epochs, automatic stop, parameters shared between maps of different sizes, second training, dump and restoration, both cores; non-trivial: a connected neuron moved besides the winner')
TYPES = ['four', 'eight', 'honey', 'func']
INITS = ['random', 'centroid', 'surface', 'grid']

def gen(c):
    rng = c.rng
    cases = []
    k = 0
    while len(cases) < (420 if c.quick else 6000):
        k += 1
        rows, cols = rng.choice([(1, 1), (1, 2), (1, 4), (3, 1), (2, 2), (2, 3), (3, 3), (3, 2), (2, 4), (4, 3), (4, 5), (1, 3)])
        dim = rng.choice([1, 2, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        if rng.random() < .3:
            pts = [[100 * x for x in p] for p in points(rng, n, dim, rng.choice([3, 7]))]
        else:
            pts = [[rng.randint(0, 900) for _ in range(dim)] for _ in range(n)]
        E = rng.choice([1, 1, 2, 3, 4, 6])
        auto = rng.random() < .35
        r0 = rng.choice([0, 0, 5, 12, 18, 26, 40, 55])
        rr = (r0 or (20 if rows + cols > 4 else 15 if rows > 1 and cols > 1 else 10)) / 10
        if auto:
            E = rng.choice([2, 5, 12, 20])
        # the radius is never as large as a distance on the grid, up to rounding
        if any(abs(x - round(x)) < .004 for e in range(1, E + 1) for x in [(rr * math.exp(-e / E)) ** 2]):
            continue
        cases.append({'rows': rows, 'cols': cols, 'type': TYPES[k % 4], 'init': 'grid' if rng.random() < .45 else rng.choice(INITS), 'r0': r0, 'rate': rng.choice([100, 100, 300, 500, 800]), 'n': E, 'autostop': auto,
                      'thr': rng.choice([10, 2000, 10000]), 'pts': pts, 'probes': [[rng.randint(-100, 1000) for _ in range(dim)] for _ in range(3)], 'seed': rng.randint(0, 1000), 'shared': rng.random() < .3,
                      'before': rng.choice([0, 0, 1, 2, 3]), 'div': rng.choice([1, 2, 4, 20]), 'ccore': k // 4 % 2 == 0, 'data': rng.choice(['float', 'float', 'numpy'])})
    return cases

def run_case(case):
    import pickle
    from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
    ct = dict(zip(TYPES, [type_conn.grid_four, type_conn.grid_eight, type_conn.honeycomb, type_conn.func_neighbor]))[case['type']]
    it = dict(zip(INITS, [type_init.random, type_init.random_centroid, type_init.random_surface, type_init.uniform_grid]))[case['init']]

    def params(rate):
        p = som_parameters()
        p.init_type, p.init_learn_rate, p.adaptation_threshold, p.random_state = it, rate / 1000, case['thr'] / 10000, case['seed']
        if case['r0']:
            p.init_radius = case['r0'] / 10
        return p

    sc = lambda ps: [[x / 100 for x in p] for p in ps]
    pts = sc(case['pts'])
    if case['data'] == 'numpy':
        import numpy
        pts = numpy.array(pts)
    before = snapshot(pts)
    still = som(case['rows'], case['cols'], ct, params(0), ccore=case['ccore'])
    still.train(pts, 1)
    w0 = [list(v) for v in still.weights]
    p = params(case['rate'])
    pb = dict(vars(p))
    if case['shared']:
        som(1, 1, ct, p, ccore=case['ccore'])
        som(4, 4, ct, p, ccore=case['ccore'])
    a = som(case['rows'], case['cols'], ct, p, ccore=case['ccore'])
    if case['before']:
        a.train([[float(7 * x + d) for d in range(case['before'])] for x in range(4)], 2)
    ret = a.train(pts, case['n'], case['autostop'])
    probes = sc(case['pts']) + sc(case['probes'])
    obs = lambda m: [[[float(x) for x in v] for v in m.weights], ints(m.awards), lists(m.capture_objects), m.get_winner_number(), m.size, len(m), [int(m.simulate(x)) for x in probes],
                     m.get_distance_matrix(), m.get_density_matrix(case['div'])]
    o = obs(a)
    b = pickle.loads(pickle.dumps(a))
    restored = obs(b) == o
    b.train(pts, case['n'], case['autostop'])
    retrained = [list(v) for v in b.weights] == o[0]
    fix = lambda ps: [[100 * x for x in p] for p in ps]
    return {'rows': case['rows'], 'cols': case['cols'], 'type': case['type'], 'init': case['init'], 'r0': case['r0'], 'rate': case['rate'], 'n': case['n'], 'autostop': case['autostop'], 'thr': case['thr'],
            'pats': fix(case['pts']), 'w0': [fxs(v) for v in w0], 'w': [fxs(v) for v in o[0]], 'awards': o[1], 'caught': o[2], 'winners': int(o[3]), 'size': int(o[4]) if o[4] == o[5] else -1, 'ret': int(ret),
            'sims': [{'x': x, 'a': y} for x, y in zip(fix(case['pts'] + case['probes']), o[6])], 'um': [fxs(r) for r in o[7]], 'dm': [ints(r) for r in o[8]], 'div': case['div'],
            'untouched': snapshot(pts) == before and dict(vars(p)) == pb, 'restored': restored, 'retrained': retrained}

def kind(case, rec):
    return '%s/%s' % (case['type'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return sum(x != y for x, y in zip(rec['w'], rec['w0'])) > sum(1 for x in rec['caught'] if x)
