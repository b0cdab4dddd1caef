import itertools, math
from fractions import Fraction
from vgen import *
import ctrl
PROP = 'C08'
SPECS = {'run': ('OpticsTrace', 'Trace.cfg'), 'ord': ('OpticsTrace', 'Trace.cfg'), 'cord': ('OpticsTrace', 'Trace.cfg')}
OWN = ('cord',)
MC = [('Optics', 'OpticsMC.cfg', ('quick', 'thorough')), ('Optics', 'OpticsMCBig.cfg', ('thorough',))]
RULE = ('small 1-D lattices in several orders with every small radius and neighbour count, seeded lattice data of 1-4 dimensions (duplicates, ties), coordinates / distance matrices, lists / arrays, both cores, '
        'with and without a requested number of clusters; ordering diagrams of up to 7 small values at every level and bisection of the radius (Python and C++ analyser); non-trivial: a cluster exists, a diagram has two values')

def gen(c):
    rng, q = c.rng, c.quick
    run = []
    for n in range(1, 5 if q else 6):
        for pts in itertools.combinations_with_replacement(range(0, 5), n):
            for r2 in (2, 4):
                for mp in (1, 2, 3):
                    for cc in (False, True):
                        if q and rng.random() < .7:
                            continue
                        order = list(pts)
                        rng.shuffle(order)
                        run.append({'pts': [[x] for x in order], 'r2': r2, 'mp': mp, 'ccore': cc, 'mode': 'points', 'kind': 'float', 'want': rng.choice([0, 0, 1, 2])})
    for k in range(700 if q else 9000):
        dim = rng.choice([1, 1, 2, 2, 2, 3, 4])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 18, 24])
        pts = points(rng, n, dim, rng.choice([3, 6, 9, 15]))
        mode = rng.choice(['points', 'points', 'points', 'matrix', 'distmat'])
        case = {'pts': pts, 'r2': rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 10, 16, 40]), 'mp': rng.choice([1, 1, 2, 2, 3, 4, 5]), 'want': rng.choice([0, 0, 1, 2, 2, 3, 4]),
                'ccore': rng.random() < .5, 'mode': mode, 'kind': rng.choice(['float', 'int', 'numpy'])}
        if mode == 'matrix':
            m = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    m[i][j] = m[j][i] = rng.randint(0, 9)
            case['mat'] = m
        run.append(case)
    for k in range(4 if q else 40):
        run.append({'pts': points(rng, rng.choice([40, 60]), 2, 20, 'uniform'), 'r2': rng.choice([4, 6, 8]), 'mp': rng.choice([1, 2, 3, 4]), 'want': rng.choice([0, 3]), 'ccore': bool(k % 2), 'mode': 'points', 'kind': 'float'})
    o = []
    for n in range(0, 5):
        for s in itertools.product(range(0, 4), repeat=n):
            if n == 4 and q and rng.random() < .6:
                continue
            o.append({'ordering': list(s), 'level': rng.randint(0, 4)})
    for k in range(300 if q else 4000):
        hi = rng.choice([3, 6, 40])
        s = [rng.randint(1, hi) for _ in range(rng.randint(1, 9))]
        o.append({'ordering': s, 'level': rng.randint(0, hi)})
        o.append({'ordering': s, 'want': rng.randint(1, 4), 'iters': rng.choice([1, 3, 8, 10])})
    for w in (1, 2):
        o.append({'ordering': [], 'want': w, 'iters': 10})
    return {'run': run, 'ord': o, 'cord': o}

SC = 4            # squared distances are counted in quarters, so that half-integer radii are exact
def unit(v, matrix):
    if v is None:
        return -1
    u = v * 2 if matrix else v * v
    r = round(u)
    return r if abs(u - r) < 1e-6 * max(1, u) else 2000000003

def limits(radius, matrix):
    """thresholds of the radius in the units of the records, lower and higher than any rounding of it"""
    def f(x):
        return math.floor(2 * x) if matrix else math.floor(x * x)
    r = Fraction(radius)
    if r == Fraction(round(2 * r), 2):        # exact half-integers have exact squares
        return f(r), f(r)
    e = Fraction(1, 10 ** 9)
    return f(r * (1 - e)), f(r * (1 + e))

def run_case(case):
    if 'ordering' in case:
        return analyser(case)
    from pyclustering.cluster.optics import optics, ordering_analyser
    pts, mode = case['pts'], case['mode']
    mx = mode == 'matrix'
    rec = {'kind': 'run', 'n': len(pts), 'pts': pts, 'mp': case['mp'], 'dtype': 'matrix' if mx else 'points', 'mat': [], 'want': case['want']}
    if mx:
        data = as_data(case['mat'], case['kind'])
        rec['mat'] = [[2 * x for x in r] for r in case['mat']]
    elif mode == 'distmat':
        data = as_data([[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in pts] for p in pts], 'numpy' if case['kind'] == 'numpy' else 'float')
    else:
        data = as_data(pts, case['kind'])
    r0 = case['r2'] / 2.0
    def play(want):
        return optics(data, r0, case['mp'], want or None, case['ccore'], data_type='points' if mode == 'points' else 'distance_matrix').process()
    o = play(case['want'])
    objs = o.get_optics_objects()
    by = {int(x.index_object): x for x in objs}
    rec['core'] = [unit(by[i].core_distance, mx) for i in sorted(by)]
    rec['rch'] = [unit(by[i].reachability_distance, mx) for i in sorted(by)]
    rec['cl'], rec['nz'] = lists(o.get_clusters()), ints(o.get_noise())
    radius = float(o.get_radius())
    rec['changed'] = radius != r0
    rec['ord'] = [unit(v, mx) for v in o.get_ordering()]
    rec['ord0'], rec['n0'], rec['shown'] = rec['ord'], 0, 0
    if rec['changed']:
        first = play(0)
        rec['ord0'], rec['n0'] = [unit(v, mx) for v in first.get_ordering()], len(first.get_clusters())
        rec['shown'] = int(ordering_analyser(o.get_ordering()).extract_cluster_amount(radius)[0])
    rec['lo'], rec['hi'] = limits(radius, mx)
    return rec

def analyser(case):
    from pyclustering.cluster.optics import ordering_analyser
    return arec(case, lambda s, r: ordering_analyser([float(x) for x in s]).extract_cluster_amount(float(r)),
                lambda s, w, n: ordering_analyser([float(x) for x in s]).calculate_connvectivity_radius(w, n)[0])

def arec(case, amount, radius):
    s = case['ordering']
    if 'level' in case:
        a, b = amount(s, case['level'])
        return {'kind': 'diagram', 'ordering': s, 'level': case['level'], 'amount': int(a), 'hasb': b is not None, 'borders': ints(b or [])}
    n = case['iters']
    r = radius([x << n for x in s], case['want'], n)
    return {'kind': 'radius', 'ordering': [x << n for x in s], 'want': case['want'], 'iters': n, 'found': r is not None, 'radius': int(r) if r is not None and r == int(r) else 0 if r is None else -1}

def execute(c, group, cases):
    exe = ctrl.build(c, 'ord', ['cluster/ordering_analyser'], shim=False)
    lines = []
    for k in cases:
        s = k['ordering']
        lines.append(' '.join(map(str, [0, k['level'], len(s)] + s if 'level' in k else [1, k['want'], k['iters'], len(s)] + [x << k['iters'] for x in s])))
    recs = []
    for k, out in zip(cases, ctrl.run(exe, lines, 4, c.scratch)):
        if isinstance(out, dict):
            recs.append({'outcome': 'crash', 'detail': str(out['crash'])})
        else:
            recs.append(dict(arec(k, lambda s, r: (out[0], None), lambda s, w, n: out[0] if out[0] > 0 else None), outcome='ok'))
    return recs

def kind(case, rec):
    return 'diagram' if 'ordering' in case else ('C++ ' if case['ccore'] else 'Python ') + case['mode']

def nontrivial(case, rec):
    return len(case['ordering']) >= 2 if 'ordering' in case else len(rec['cl']) >= 1 and rec['n'] >= 2
