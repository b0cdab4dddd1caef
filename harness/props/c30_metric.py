import ctrl
from vgen import *
PROP = 'C30'
SPECS = {'main': ('MetricTrace', 'Trace.cfg'), 'cpp': ('MetricMatrixTrace', 'Trace.cfg')}
OWN = ('cpp',)
MC = [('Metric', 'MetricMC.cfg', ('quick', 'thorough')), ('Metric', 'MetricMCBig.cfg', ('thorough',))]
RULE = ('metric objects of every kind and degree (integer, 1/2, 3/2), Gower by data or by ranges (also zero ranges), lattice points of either sign in 1-3 dimensions with zero and equal coordinates, '
        'histories of numpy switching, shallow and deep copying and calls on points, point with matrix, matrix with matrix; the C++ core through its metric wrapper with lists, tuples and arrays; C++ metric objects of the factory, copied and assigned, their distance matrices, farthest distances and neighbour averages; '
        'non-trivial: a call on different points')
SIGNED = 'pure Python Minkowski distance of an odd degree keeps the signs of differences'
KINDS = ['sq', 'euclid', 'manhattan', 'chebyshev', 'minkowski', 'minkowski', 'canberra', 'canberra', 'chi', 'chi', 'gower', 'gower', 'user']

def pt(rng, dim, kind, deg, other=None):
    if kind == 'minkowski' and deg[1] == 2:                # differences are squares
        if other is None:
            return [rng.randint(-3, 3) for _ in range(dim)]
        return [x + rng.choice([-4, -1, 0, 1, 4]) for x in other]
    hi = 5 if not (kind == 'minkowski' and deg[0] > 2) else 3
    return [rng.choice([0, 0, rng.randint(-hi, hi), rng.randint(-hi, hi)]) for _ in range(dim)]

def gen(c):
    rng = c.rng
    cases = []
    for k in range(2600 if c.quick else 40000):
        kd = rng.choice(KINDS)
        dim = rng.choice([1, 2, 2, 3])
        deg = rng.choice([[1, 1], [2, 1], [3, 1], [4, 1], [1, 2], [3, 2], [0, 0]]) if kd == 'minkowski' else [2, 1]
        if deg[0] > 3:
            dim = min(dim, 2)
        case = {'metric': kd, 'deg': deg, 'data': [], 'range': [], 'core': k % 4 == 0, 'numpy': rng.random() < .4, 'cont': rng.choice(['list', 'tuple', 'int', 'numpy'])}
        if kd == 'gower':
            if rng.random() < .5:
                case['data'] = points(rng, rng.randint(1, 5), dim, 4)
            else:
                case['range'] = [rng.choice([0, 1, 2, 5]) for _ in range(dim)]
        ops, np = [], case['numpy']
        if case['core']:
            np = False
        for _ in range(rng.randint(3, 9)):
            op = rng.choice(['call', 'call', 'call', 'enable', 'disable', 'copy', 'deep', 'other']) if not case['core'] else rng.choice(['call', 'call', 'copy'])
            if op != 'call':
                ops.append({'op': op})
                continue
            form = rng.choice(['pp', 'pm', 'mp', 'mm'])
            n = rng.randint(1, 3)
            base = pt(rng, dim, kd, deg)
            if form == 'mm' and not (kd == 'minkowski' and deg[1] == 2):
                a = [pt(rng, dim, kd, deg) for _ in range(n)]
            else:
                a = [base] * n if form == 'mm' else [base]
            b = [pt(rng, dim, kd, deg, base) for _ in range(1 if form == 'pp' else n)]
            if rng.random() < .15:
                b[0] = list(a[0])
            if form == 'mp':
                a, b = b, a
            ops.append({'op': 'call', 'form': form, 'a': a, 'b': b})
        case['ops'] = ops
        cases.append(case)
    cpp = []
    for k in range(900 if c.quick else 15000):
        kd = rng.choice(KINDS)
        dim = rng.choice([1, 2, 2, 3])
        deg = rng.choice([[1, 1], [2, 1], [3, 1], [4, 1], [1, 2], [3, 2]]) if kd == 'minkowski' else [2, 1]
        dim = min(dim, 2) if deg[0] > 3 else dim
        n = rng.randint(1, 7)
        if deg[1] == 2:                                    # differences are squares
            n = min(n, 2)
            base = pt(rng, dim, kd, deg)
            ps = [base, pt(rng, dim, kd, deg, base)][:n]
        else:
            ps = [pt(rng, dim, kd, deg) for _ in range(n)]
        cpp.append({'metric': kd, 'deg': deg, 'pts': ps, 'range': [rng.choice([0, 1, 2, 5]) for _ in range(dim)], 'num': rng.randint(1, n - 1) if n > 1 and kd == 'euclid' else 0, 'plain': rng.random() < .5})
    return {'main': cases, 'cpp': cpp}

def execute(c, group, cases):
    exe = ctrl.build(c, 'utils', ['utils/'], shim=False)
    code = ['', 'euclid', 'sq', 'manhattan', 'chebyshev', 'minkowski', 'canberra', 'chi', 'gower', 'user']
    lines = [' '.join(map(str, [1, code.index(k['metric'])] + k['deg'] + [int(k['plain']), len(k['pts'][0]), len(k['pts'])] + sum(k['pts'], []) + k['range'] + [k['num']])) for k in cases]
    recs = []
    for k, out in zip(cases, ctrl.run(exe, lines, 4, c.scratch)):
        recs.append({'outcome': 'crash', 'detail': str(out['crash'])} if 'crash' in out else
                    {'outcome': 'ok', 'm': {'kind': k['metric'], 'deg': k['deg'], 'range': k['range']}, 'pts': k['pts'], 'num': k['num'], **out})
    return recs

def run_case(case):
    import copy, numpy
    from pyclustering.utils.metric import distance_metric, type_metric as T
    kd = case['metric']
    kw = {}
    if kd == 'minkowski' and case['deg'] != [0, 0]:
        kw['degree'] = case['deg'][0] if case['deg'][1] == 1 else case['deg'][0] / case['deg'][1]
    if kd == 'gower':
        if case['data']:
            kw['data'] = numpy.array(case['data'], dtype=float) if case['numpy'] else case['data']
        else:
            kw['max_range'] = numpy.array(case['range'], dtype=float) if case['cont'] == 'numpy' else [float(x) for x in case['range']]
    if kd == 'user':
        kw['func'] = lambda a, b: float(sum((i + 1) * abs(x - y) for i, (x, y) in enumerate(zip(a, b)))) if numpy.ndim(a) < 2 and numpy.ndim(b) < 2 else numpy.abs(numpy.subtract(a, b)).dot(1 + numpy.arange(numpy.shape(a)[-1]))
    obj = distance_metric({'sq': T.EUCLIDEAN_SQUARE, 'euclid': T.EUCLIDEAN, 'manhattan': T.MANHATTAN, 'chebyshev': T.CHEBYSHEV, 'minkowski': T.MINKOWSKI, 'canberra': T.CANBERRA, 'chi': T.CHI_SQUARE,
                           'gower': T.GOWER, 'user': T.USER_DEFINED}[kd], numpy_usage=case['numpy'], **kw)
    other = copy.copy(obj)
    np = case['numpy']
    onp = np
    ev, ok = [], True
    for o in case['ops']:
        op = o['op']
        if op == 'enable':
            obj.enable_numpy_usage(); np = True
        elif op == 'disable':
            obj.disable_numpy_usage(); np = False
        elif op == 'copy':
            other = copy.copy(obj); onp = np
        elif op == 'deep':
            other = copy.deepcopy(obj); onp = np; op = 'copy'
        elif op == 'other':
            obj, other = other, obj; np, onp = onp, np
        if op != 'call':
            ev.append({'op': op, 'form': '', 'a': [], 'b': [], 'w': []})
            continue
        form = o['form']
        if not np or case['core']:
            o = dict(o); n = max(len(o['a']), len(o['b']))
            pairs = [(o['a'][i if len(o['a']) > 1 else 0], o['b'][i if len(o['b']) > 1 else 0]) for i in range(n)]
            mk = {'list': lambda p: [float(x) for x in p], 'tuple': lambda p: tuple(float(x) for x in p), 'int': list, 'numpy': lambda p: numpy.array(p, dtype=float)}[case['cont']]
            rule = obj
            if case['core']:
                from pyclustering.core.metric_wrapper import metric_wrapper
                rule = metric_wrapper.create_instance(obj)
            for a, b in pairs:
                x, y = mk(a), mk(b)
                ev.append({'op': 'call', 'form': 'pp', 'a': [a], 'b': [b], 'w': [real(rule(x, y))]})
                ok = ok and list(map(int, x)) == a and list(map(int, y)) == b
        else:
            dt = int if case['cont'] == 'int' else float
            A = numpy.array(o['a'] if form in ('mp', 'mm') else o['a'][0], dtype=dt)
            B = numpy.array(o['b'] if form in ('pm', 'mm') else o['b'][0], dtype=dt)
            w = obj(A, B)
            ev.append({'op': 'call', 'form': form, 'a': o['a'], 'b': o['b'], 'w': [real(x) for x in numpy.atleast_1d(w)]})
            ok = ok and A.tolist() == (o['a'] if form in ('mp', 'mm') else o['a'][0])
    return {'m': {'kind': kd, 'deg': case['deg'] if case['deg'] != [0, 0] else [2, 1], 'range': case['range']}, 'data': case['data'], 'py': not case['core'], 'numpy': case['numpy'], 'ev': ev, 'untouched': bool(ok)}

def real(v):
    if isinstance(v, complex):
        return 2000000002
    return fx(v)

def kind(case, rec):
    return case['metric'] + ('/matrix' if 'pts' in case else '/c++' if case['core'] else '')

def nontrivial(case, rec):
    if 'pts' in case:
        return len(case['pts']) > 1
    return any(e['op'] == 'call' and e['a'] != e['b'] for e in rec['ev'])

def key(case, rec, v):
    if rec.get('py') and v[1] == SIGNED:
        return 'py-minkowski-sign'
