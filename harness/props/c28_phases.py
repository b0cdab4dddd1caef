from vgen import *
import math
PROP = 'C28'
SPECS = {'dyn': ('PhasesTrace', 'Trace.cfg'), 'net': ('PhasesTrace', 'Trace.cfg'), 'clusters': ('PhasesTrace', 'Trace.cfg'), 'segm': ('SegmentsTrace', 'Trace.cfg')}
MC = [('Phases', 'PhasesMC.cfg', ('quick', 'thorough')), ('Phases', 'PhasesMCBig.cfg', ('thorough',)), ('Phases', 'PhasesMCNet.cfg', ('thorough',))]
RULE = ('dyn: dynamics given from outside with phases spread over the circle, mirrored, opposite and next to zero, with ensembles, indexes, orders, correlation and phase matrices asked for every iteration; '
        'net: sync and syncpr networks simulated with every structure and solver in both cores; clusters: syncnet and hsyncnet over small lattices; segm: segmentation of small images of a few colours; non-trivial: an ensemble of several oscillators next to another one')
TYPES = ['none', 'all', 'four', 'eight', 'list']
S = 100000
TURN = 628318

def phases(rng, n):
    out = []
    for i in range(n):
        how = rng.randrange(6)
        if out and how == 0:
            p = TURN - rng.choice(out)                          # mirrored
        elif out and how == 1:
            p = (rng.choice(out) + TURN // 2) % TURN            # opposite
        elif out and how in (2, 3):
            p = (rng.choice(out) + rng.choice([-1, 1]) * rng.choice([500, 990, 1010, 9000, 11000, 60000])) % TURN
        elif how == 4:
            p = rng.choice([0, 300, TURN - 300, 5000, TURN - 5000])
        else:
            p = rng.randint(0, TURN)
        out.append(min(TURN, max(0, p)))
    return out

def gen(c):
    rng = c.rng
    q = c.quick
    dyn = []
    for k in range(500 if q else 8000):
        n, T = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12]), rng.choice([1, 1, 2, 4])
        dyn.append({'kind': 'dyn', 'n': n, 'states': [phases(rng, n) for _ in range(T)], 'tols': [rng.choice([1000, 10000, 50000, 30, 150000]) for _ in range(3)], 'seed': rng.randint(0, 10**6), 'type': rng.choice(['none', 'all', 'list'])})
    net = []
    while len(net) < (420 if q else 8000):
        k = len(net)
        py = k % 2 == 0
        t = rng.choice(TYPES)
        n = rng.choice([4, 9] if t in ('four', 'eight') else [1, 2, 3, 4, 5, 6])
        fast = rng.random() < .5
        if k % 3 == 2:
            n = rng.choice([2, 3, 4, 5, 6])
            case = {'kind': 'syncpr', 'n': n, 'pats': [[rng.choice([-1, 1]) for _ in range(n)] for _ in range(rng.choice([1, 1, 2, 3]))], 'e1': rng.choice([0, 100, 500]), 'e2': rng.choice([0, 100, 300]), 'inp': None, 'F': 0}
            case['inp'] = rng.choice(case['pats'] + [[rng.choice([-1, 1]) for _ in range(n)]])
        else:
            case = {'kind': 'sync', 'n': n, 'type': t, 'w': int(n ** .5), 'weight': rng.choice([100, 100, 50, 200, 300]), 'F': rng.choice([0, 0, 50000, 100000]) if rng.random() < .5 else 0,
                    'init': rng.choice(['random', 'random', 'equi']), 'repr': rng.choice(['MATRIX', 'LIST'])}
        dynamic = rng.random() < .4
        if dynamic:                                             # Euler steps of strong couplings may oscillate for ever
            case['F'] = 0
            if case['kind'] == 'syncpr':
                fast = False
            elif fast:
                case['weight'] = min(case['weight'], 100)
        case.update(py=py, solver='FAST' if fast else rng.choice(['RK4', 'RK4', 'RKF45']), steps=0 if dynamic else rng.choice([1, 3, 10, 20]), h=10000 if dynamic else 5000, collect=rng.random() < .85,
                    order=rng.choice([9980, 9000, 9995]), tols=[rng.choice([1000, 10000, 50000, 150000]) for _ in range(3)], seed=rng.randint(0, 10**6))
        net.append(case)
    clusters = []
    while len(clusters) < (260 if q else 5000):
        k = len(clusters)
        py = k % 2 == 0
        if k % 5 == 4:
            n = rng.choice([3, 4, 5, 8, 12])
            pts = points(rng, n, rng.choice([1, 2, 2, 3]), rng.choice([4, 9]))
            if len({tuple(p) for p in pts}) < 2:
                continue
            clusters.append({'kind': 'hsyncnet', 'n': n, 'pts': pts, 'py': py, 'number': rng.choice([1, 2, 2, 3, n]), 'neigh': rng.choice([1, 3]), 'inc': rng.choice([15, 40]), 'collect': rng.random() < .6, 'data': rng.choice(['float', 'int', 'numpy'])})
            continue
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        pts = points(rng, n, rng.choice([1, 2, 2, 3]), rng.choice([2, 4, 9]))
        wt = n > 1 and rng.random() < .35
        if wt:
            d = {math.dist(a, b) for i, a in enumerate(pts) for b in pts[:i]}
            if len(d) == 1 and max(d) > 1.5:
                continue
        clusters.append({'kind': 'syncnet', 'n': n, 'pts': pts, 'py': py, 'radius': rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 20]), 'wt': wt, 'init': 'random', 'repr': rng.choice(['MATRIX', 'LIST']), 'data': rng.choice(['float', 'int', 'numpy']),
                         'solver': 'FAST' if rng.random() < .6 else rng.choice(['RK4', 'RKF45']), 'collect': rng.random() < .85, 'order': rng.choice([9980, 9000, 9995]), 'h': 10000, 'F': 0, 'steps': 0, 'tols': [1000, 10000, 50000], 'seed': rng.randint(0, 10**6)})
        if rng.random() < (.3 if py else .1):
            clusters[-1]['init'] = 'equi'
    segm = []
    for k in range(60 if q else 1200):
        w, h = rng.choice([(4, 2), (2, 4), (3, 3), (5, 3), (3, 5), (4, 4), (6, 2), (1, 6)])
        pal = rng.sample([(0, 0, 0), (250, 250, 250), (250, 0, 0), (0, 0, 250)], rng.choice([1, 2, 2, 3]))
        segm.append({'kind': 'segm', 'w': w, 'h': h, 'pix': [list(rng.choice(pal)) for _ in range(w * h)], 'radius': rng.choice([2, 3, 4, 5, 6, 9]), 'layer2': k % 6 != 5, 'least': rng.choice([0, 1, 2, 3, 4]),
                     'noise': rng.choice([0, 1, 1, 2, 4]), 'eps': rng.choice([1000, 10000, 50000]), 'py': k % 3 != 0, 'collect': rng.random() < .4, 'default': rng.random() < .25})
        if segm[-1]['default']:
            segm[-1].update(noise=1, eps=1000)
    return {'dyn': dyn, 'net': net, 'clusters': clusters, 'segm': segm}

def segment(case):
    import os, tempfile
    from PIL import Image
    import pyclustering.nnet.syncsegm as S2
    im = Image.new('RGB', (case['w'], case['h']))
    im.putdata([tuple(p) for p in case['pix']])
    fd, name = tempfile.mkstemp(dir=os.environ['VERIF_SCRATCH'], suffix='.png')
    os.close(fd)
    im.save(name)
    seen, orig = [], getattr(S2, 'syncnet', None)
    def recorded(sample, *a, **k):
        net = orig(sample, *a, **k)
        n = len(sample)
        seen.append([[i + 1, j + 1] for i in range(n) for j in range(i + 1, n) if net.has_connection(i, j)])
        return net
    try:
        if orig is not None:
            S2.syncnet = recorded                          # only listens
        a = S2.syncsegm(20, case['radius'] / 2 if case['layer2'] else None, case['least'], ccore=not case['py']).process(name, case['collect'], order_color=.9995, order_object=.999)
    finally:
        if orig is not None:
            S2.syncnet = orig
        os.unlink(name)
    args = () if case['default'] else (case['eps'] / S, case['noise'])
    first, second = a.get_first_layer_analyser(), a.get_second_layer_analysers() or []
    return dict(case, r2=case['radius'] ** 2, first=lists(first.allocate_clusters()), ens=lists(first.allocate_clusters(case['eps'] / S)), near=seen[1:] if len(seen) == len(second) + 1 else [],
                second=[{'seg': ints(x['color_segment']), 'ens': lists(x['analyser'].allocate_clusters(case['eps'] / S))} for x in second], colors=lists(a.allocate_colors(*args)), objects=lists(a.allocate_objects(*args)))

def views(rng, case, d, net, rec, local=True):
    """ask the dynamic for its views in a random order and several times"""
    L = min(len(d), len(rec['states']))
    long = len(d) > len(rec['states'])
    def it():
        return rng.choice([None] + list(range(L)))
    rec.update(ens=[], corr=[], ord=[], loc=[], pm=[])
    for tol in case['tols']:
        a = it()
        idx = None if rng.random() < .6 else [3 * i + 7 if rng.random() < 2 else 0 for i in range(rec['n'])]
        if idx and rng.random() < .5:
            idx = list(range(rec['n']))[::-1]
        kw = {} if a is None and rng.random() < .5 else {'iteration': a}
        if idx is not None:
            kw['indexes'] = idx
        f = d.allocate_clusters if hasattr(d, 'allocate_clusters') and rng.random() < .5 else d.allocate_sync_ensembles
        rec['ens'].append({'it': 0 if a is None else a + 1, 'tol': tol, 'idx': idx or [], 'groups': lists(f(tol / S, **kw))})
    a = it()
    rec['corr'].append({'it': 0 if a is None else a + 1, 'm': [fxs(r, S) for r in d.allocate_correlation_matrix(a)]})
    u, v = sorted((rng.randint(0, L), rng.randint(0, L)))
    for name, key in (('calculate_order_parameter', 'ord'), ('calculate_local_order_parameter', 'loc')):
        if key == 'loc' and not local:
            continue
        args = [] if key == 'ord' else [net]
        sc = S if key == 'ord' else 10000
        rec[key].append({'from': 0, 'amount': 1, 'vals': fxs(getattr(d, name)(*args), sc)})
        rec[key].append({'from': u + 1, 'amount': v - u, 'vals': fxs(getattr(d, name)(*args, u, v), sc)})
        if L:
            rec[key].append({'from': u % L + 1, 'amount': 1, 'vals': fxs(getattr(d, name)(*args, u % L), sc)})
    n = rec['n']
    a = it()
    shapes = [(r, n // r) for r in range(1, n + 1) if n % r == 0]
    r, cc = rng.choice(shapes)
    rec['pm'].append({'it': 0 if a is None else a + 1, 'rows': r, 'cols': cc, 'm': [fxs(x, S) for x in d.allocate_phase_matrix(cc, r, a)]})
    if round(n ** .5) ** 2 == n:
        w = round(n ** .5)
        rec['pm'].append({'it': 0, 'rows': w, 'cols': w, 'm': [fxs(x, S) for x in d.allocate_phase_matrix()]})

def store(rec, d, cut=60):
    out, tm = [fxs(s, S) for s in d.output], list(d.time)
    rec.update(len=len(d), outs=len(out), times=len(tm), states=out[:cut], tail=out[-2:] if len(out) > cut else [], time=fxs(tm[:cut], S) if max(tm, default=0) < 20000 else [])

def run_case(case):
    import random
    from pyclustering.nnet import conn_type, conn_represent, solve_type, initial_type
    from pyclustering.nnet.sync import sync_network, sync_dynamic
    if case['kind'] == 'segm':
        return segment(case)
    rng = random.Random(case.get('seed', 0))
    CT = dict(zip(TYPES, [conn_type.NONE, conn_type.ALL_TO_ALL, conn_type.GRID_FOUR, conn_type.GRID_EIGHT, conn_type.LIST_BIDIR]))
    rec = dict(case, mem=[], nb=[])
    if case['kind'] == 'dyn':
        net = sync_network(case['n'], type_conn=CT[case['type']], ccore=False)
        rec['nb'] = [ints(net.get_neighbors(i)) for i in range(case['n'])]
        d = sync_dynamic([[x / S for x in s] for s in case['states']], list(range(len(case['states']))), None)
        rec.update(tail=[], len=len(d))
        views(rng, case, d, net, rec)
        return rec
    sol = getattr(solve_type, case.get('solver', 'FAST'))
    it = {'random': initial_type.RANDOM_GAUSSIAN, 'equi': initial_type.EQUIPARTITION}.get(case.get('init'))
    if case['kind'] == 'sync':
        rp = getattr(conn_represent, 'MATRIX' if case['type'] == 'eight' and case['w'] == 2 else case['repr'])
        net = sync_network(case['n'], case['weight'] / 100, case['F'] / S, CT[case['type']], rp, it, ccore=not case['py'])
        if case['steps']:
            d = rng.choice([net.simulate_static, net.simulate])(case['steps'], case['steps'] * case['h'] / S, sol, case['collect'])
        else:
            d = net.simulate_dynamic(case['order'] / 10000, sol, case['collect'], case['h'] / S, case['h'] / S / 10)
    elif case['kind'] == 'syncpr':
        from pyclustering.nnet.syncpr import syncpr
        net = syncpr(case['n'], case['e1'] / 1000, case['e2'] / 1000, ccore=not case['py'])
        net.train(case['pats'])
        rec['init'] = 'pattern'
        if case['steps']:
            d = rng.choice([net.simulate_static, net.simulate])(case['steps'], case['steps'] * case['h'] / S, case['inp'], sol, case['collect'])
        else:
            d = net.simulate_dynamic(case['inp'], case['order'] / 10000, sol, case['collect'], case['h'] / S, case['h'] / S / 10)
        rec['mem'] = [fx(net.memory_order(case['inp']), S)]
    elif case['kind'] == 'syncnet':
        from pyclustering.cluster.syncnet import syncnet
        rec['r2'] = case['radius'] ** 2
        rec['dist'] = [[fx(math.dist(a, b)) for b in case['pts']] for a in case['pts']]
        net = syncnet(as_data(case['pts'], case['data']), case['radius'] / 2, getattr(conn_represent, case['repr']), it, case['wt'], ccore=not case['py'])
        d = net.process(case['order'] / 10000, sol, case['collect'])
    else:
        from pyclustering.cluster.hsyncnet import hsyncnet
        net = hsyncnet(as_data(case['pts'], case['data']), case['number'], initial_neighbors=case['neigh'], increase_persent=case['inc'] / 100, ccore=not case['py'])
        d = net.process(.998, collect_dynamic=case['collect'])
        store(rec, d)
        rec.update(ens=[{'it': 0, 'tol': 5000, 'idx': [], 'groups': lists(d.allocate_clusters(.05))}], corr=[], ord=[], loc=[], pm=[])
        return rec
    if case['kind'] != 'syncpr' or case['py']:
        rec['nb'] = [ints(net.get_neighbors(i)) for i in range(case['n'])]
        if any(net.has_connection(i, j) != (j in rec['nb'][i]) for i in range(case['n']) for j in range(case['n'])):
            rec['nb'] = [[]] * (case['n'] - 1)
    store(rec, d)
    views(rng, case, d, net, rec, case['kind'] != 'syncpr')
    if case['kind'] != 'syncpr':
        rec['ord'].append({'from': 0, 'amount': 1, 'vals': [fx(net.sync_order(), S)]})
        rec['loc'].append({'from': 0, 'amount': 1, 'vals': [fx(net.sync_local_order())]})
    return rec

def kind(case, rec):
    if case['kind'] in ('dyn', 'hsyncnet', 'segm'):
        return case['kind'] + ('' if 'py' not in case else '/python' if case['py'] else '/c++')
    return '%s/%s/%s/%s' % (case['kind'], 'python' if case['py'] else 'c++', case['solver'], 'dynamic' if not case['steps'] else 'static')

def nontrivial(case, rec):
    if case['kind'] == 'segm':
        return len(rec['ens']) > 1
    return any(len(e['groups']) > 1 and any(len(g) > 1 for g in e['groups']) for e in rec['ens'])

def key(case, rec, v):
    return 'cpp-syncnet-initial-phases' if case['kind'] == 'syncnet' and not case['py'] and case['init'] == 'equi' and v[1] == 'initial phases' else None
