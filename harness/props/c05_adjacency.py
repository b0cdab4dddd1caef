from vgen import *
import ctrl
PROP = 'C05'
SPECS = {'py': ('AdjacencyTrace', 'Trace.cfg'), 'cpp': ('AdjacencyTrace', 'Trace.cfg')}
OWN = ('cpp',)
NEED_CORE = False
MC = [('Adjacency', 'AdjacencyMC.cfg', ('quick', 'thorough')), ('Adjacency', 'AdjacencyMCBig.cfg', ('thorough',))]
RULE = ('all sizes 1-40 (every grid shape, sizes without a square root, 64-70 for the words of bits) in every structure and representation, by constructor, connector and factory (with a weight generator); seeded '
        'histories of up to 12 updates, erasures, weights (also zero), structures, copies and moves; Python network (matrix, list; dynamic connections) and the five C++ collections; non-trivial: a connection exists')
STRUCT = ['none', 'all', 'four', 'eight', 'list']
PAR = 4

def gen(c):
    rng = c.rng
    q = c.quick
    py, cpp = [], []
    sizes = list(range(1, 17)) + [20, 25] if q else list(range(1, 41))
    for n in sizes:
        for s in STRUCT:
            shapes = [(0, 0)] + ([(w, h) for w in range(1, n + 1) for h in [n // w] if w * h == n] + [(2, n)] if s in ('four', 'eight') and n > 1 else [])
            for w, h in shapes:
                for rep in ('matrix', 'list'):
                    py.append({'n': n, 'rep': rep, 'ops': [[s, 0, 0, w, h]]})
                r = rng.sample(range(5), 2 if q else 5)
                for rep in r:
                    cpp.append({'n': n, 'rep': rep, 'fresh': 0, 'ops': [[s, 0, 0, w, h]]})
            for rep in range(5):
                cpp.append({'n': n, 'rep': rep, 'fresh': 1, 'gen': rng.random() < .7, 'ops': [[s, 0, 0, 0, 0]]})
    for n in (64, 65, 66, 70):
        for rep in range(5):
            cpp.append({'n': n, 'rep': rep, 'fresh': 0, 'ops': [['list', 0, 0, 0, 0]] + ([['four', 0, 0, 8, 8]] if n == 64 else [['eight', 0, 0, 10, 7]] if n == 70 else [])})
            cpp.append({'n': n, 'rep': rep, 'fresh': 0, 'ops': history(rng, n, rep >= 3, 8, False)})
    for k in range(40 if q else 400):                       # dense rows across words
        n = rng.choice([33, 40, 48, 64, 65, 70])
        i, hot = rng.randrange(n), [rng.randrange(n) for _ in range(5)] + [31, 32]
        cpp.append({'n': n, 'rep': k % 5 if k % 2 else 1, 'fresh': 0,
                    'ops': [[rng.choice(['set', 'set', 'set', 'erase']), i, rng.choice(hot), 0, 0] for _ in range(14)] + [['erase', i, j, 0, 0] for j in rng.sample(hot, 3)]})
    for k in range(500 if q else 6000):
        n = rng.choice([1, 2, 3, 4, 4, 5, 6, 9])
        rep = k % 5
        cpp.append({'n': n, 'rep': rep, 'fresh': 0, 'ops': history(rng, n, rep >= 3, rng.randint(1, 12), True)})
    for k in range(150 if q else 2000):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        py.append({'n': n, 'rep': rng.choice(['matrix', 'list']), 'dyn': True, 'ops': [['set', rng.randrange(n), rng.randrange(n), 0, 0] for _ in range(rng.randint(1, 8))]})
    return {'py': py, 'cpp': cpp}

def history(rng, n, weighted, m, structs):
    ops = []
    hot = [(rng.randrange(n), rng.randrange(n)) for _ in range(3)]
    for _ in range(m):
        i, j = rng.choice(hot) if rng.random() < .6 else (rng.randrange(n), rng.randrange(n))
        op = rng.choice(['set', 'set', 'erase', 'weight' if weighted else 'set', 'weight' if weighted else 'erase', 'copy', rng.choice(STRUCT) if structs else 'set'])
        if op == 'weight':
            ops.append([op, i, j, rng.choice([0, 1, 2, 3, 5, -2]), 0])
        elif op == 'copy':
            ops.append([op, 0, 0, rng.randrange(3), 0])
        elif op in ('four', 'eight') and rng.random() < .6:
            w = rng.choice([x for x in range(1, n + 1) if n % x == 0])
            ops.append([op, 0, 0, w, n // w])
        else:
            ops.append([op, i, j, 0, 0])
    return ops

def event(o, obs, fresh=False):
    e = {'op': o[0], 'i': o[1], 'j': o[2], 'w': o[3], 'h': o[4], 'fresh': fresh}
    e.update(obs)
    return e

def run_case(case):
    from pyclustering.nnet import network, conn_type as T, conn_represent as R
    n = case['n']
    rep = R.MATRIX if case['rep'] == 'matrix' else R.LIST
    code = {'none': T.NONE, 'all': T.ALL_TO_ALL, 'four': T.GRID_FOUR, 'eight': T.GRID_EIGHT, 'list': T.LIST_BIDIR}
    def look(net):
        return {'thrown': False, 'size': len(net), 'has': [[i, j] for i in range(n) for j in range(n) if net.has_connection(i, j)], 'neigh': [ints(net.get_neighbors(i)) for i in range(n)], 'wts': [], 'zero': 0}
    ev = []
    if case.get('dyn'):
        net = network(n, T.DYNAMIC, rep)
        for o in case['ops']:
            net.set_connection(o[1], o[2])
            ev.append(event(o, look(net)))
    else:
        o = case['ops'][0]
        try:
            net = network(n, code[o[0]], rep) if o[4] == 0 else network(n, code[o[0]], rep, o[4], o[3])
            obs = look(net)
            if o[0] in ('four', 'eight') and (net.width * net.height != n or o[4] and (net.width, net.height) != (o[3], o[4])):
                obs['size'] = -1
        except NameError:
            obs = {'thrown': True, 'size': n, 'has': [], 'neigh': [[] for _ in range(n)], 'wts': [], 'zero': 0}
        ev.append(event(o, obs))
    return {'n': n, 'weighted': False, 'py': True, 'sym': bool(case.get('dyn')), 'ev': ev}

def execute(c, group, cases):
    exe = ctrl.build(c, 'adj', ['container/adjacency'], shim=False)
    lines = []
    for k in cases:
        if k['fresh']:
            lines.append('%d %d %d %d' % (k['rep'], k['n'], 1 + STRUCT.index(k['ops'][0][0]), 1 if k['gen'] else 0))
            continue
        t = []
        for o in k['ops']:
            if o[0] in STRUCT:
                t += [5, STRUCT.index(o[0]), o[3], o[4]] if o[4] else [4, STRUCT.index(o[0]), 0, 0]
            elif o[0] == 'copy':
                t += [6 + o[3], 0, 0, 0]
            else:
                t += [{'set': 1, 'erase': 2, 'weight': 3}[o[0]], o[1], o[2], o[3]]
        lines.append(' '.join(map(str, [k['rep'], k['n'], 0, len(k['ops'])] + t)))
    recs = []
    for k, out in zip(cases, ctrl.run(exe, lines, 4, c.scratch)):
        if isinstance(out, dict):
            recs.append({'outcome': 'crash', 'detail': str(out['crash'])})
        else:
            fresh = bool(k['fresh'] and k['gen'] and k['rep'] >= 3)
            recs.append({'outcome': 'ok', 'n': k['n'], 'weighted': k['rep'] >= 3, 'py': False, 'sym': False, 'ev': [event(o, x, fresh) for o, x in zip(k['ops'], out)]})
    return recs

def kind(case, rec):
    return 'network/' + case['rep'] if isinstance(case['rep'], str) else ['matrix', 'bit matrix', 'list', 'weight list', 'weight matrix'][case['rep']]

def nontrivial(case, rec):
    return any(e['has'] for e in rec['ev'])

def key(case, rec, v):
    if rec.get('py') and v[1].startswith('rows of horizontal connections of the grid are shifted'):
        return 'py-grid-rows'
