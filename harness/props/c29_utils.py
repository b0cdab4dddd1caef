from vgen import *
import ctrl, itertools, os
PROP = 'C29'
SPECS = {'main': ('UtilsTrace', 'Trace.cfg'), 'cpp': ('UtilsTrace', 'Trace.cfg')}
OWN = ('cpp',)
NEED_CORE = False
MC = [('Utils', 'UtilsMC.cfg', ('quick', 'thorough')), ('Utils', 'UtilsMCBig.cfg', ('thorough',))]
RULE = ('reservoir sampling (both schemes) for all streams up to 5 elements and all sample sizes, 500 runs each: every outcome valid and every sample reachable; all ordered lists over 3 values up to 6 elements and all targets; '
        'seeded list arithmetic, sums, corners, dimensions, cluster distances, distance matrices, neighbour averages, generated data with zero spread, graph files in three formats, data files, images, signals; the same arithmetic, search, sums and statistics of the C++ core; '
        'non-trivial: more than one element')

def gen(c):
    rng = c.rng
    q = c.quick
    cases = []
    for n in range(1, 6 if q else 7):
        for k in range(0, n + 1):
            for f in ('reservoir_r', 'reservoir_x'):
                for ty in ('list', 'numpy'):
                    cases.append({'kind': 'reservoir', 'f': f, 'n': n, 'k': k, 'cont': ty, 'runs': 500 if q else 4000})
    for m in range(1, 7):
        for s in itertools.combinations_with_replacement(range(3), m):
            for r in range(m):
                cases.append({'kind': 'search', 'list': list(s), 'right': r})
    R = lambda a, b: rng.randint(a, b)
    W = 1 if q else 12
    for _ in range(250 * W):
        s = sorted(R(0, 6) for _ in range(R(1, 40)))
        cases.append({'kind': 'search', 'list': s, 'right': rng.randrange(len(s))})
    for _ in range(120 * W):
        n = R(1, 5)
        a, b = [R(-9, 9) for _ in range(n)], [R(-9, 9) for _ in range(n)]
        ty = rng.choice(['list', 'tuple', 'numpy'])
        cases.append({'kind': 'two', 'op': rng.choice(['add', 'sub', 'mul']), 'a': a, 'b': b, 'cont': ty})
        cases.append({'kind': 'num', 'op': rng.choice(['addn', 'subn', 'muln']), 'a': a, 'x': R(-5, 5), 'cont': ty})
        cases.append({'kind': 'div', 'a': a, 'b': [x or 3 for x in b] if rng.random() < .5 else [R(1, 7)] * n, 'cont': ty})
    for _ in range(150 * W):
        ps = points(rng, R(1, 7), R(1, 3), 6)
        ps = [[x - 2 for x in p] for p in ps]
        d = rng.choice(['float', 'int', 'numpy'])
        cases.append({'kind': 'sums', 'pts': ps, 'data': d})
        cases.append({'kind': 'corners', 'pts': ps, 'data': d, 'filter': [] if rng.random() < .4 else [i for i in rng.sample(range(len(ps)), R(1, len(ps)))]})
        cases.append({'kind': 'dims', 'pts': ps, 'data': d, 'order': rng.sample(range(5), 5)})
        cases.append({'kind': 'matrix', 'pts': ps, 'data': d, 'metric': rng.choice(['sq', 'manhattan'])})
        dim = R(1, 2)
        cases.append({'kind': 'between', 'a': points(rng, R(1, 4), dim, 5), 'b': points(rng, R(1, 4), dim, 5), 'byindex': rng.random() < .5})
        n = R(2, 8)
        cases.append({'kind': 'nearest', 'x': [R(0, 12) for _ in range(n)], 'num': R(1, n - 1)})
        k = R(1, 4)
        cases.append({'kind': 'generate', 'k': k, 'dim': R(1, 3), 'sizes': [R(0, 4) for _ in range(k)] if rng.random() < .7 else R(1, 4), 'given': rng.random() < .7, 'width': rng.choice([0, 0.0, 'list', 0.001])})
        cases.append(graph(rng))
        cases.append({'kind': 'sample', 'rows': [[R(-50, 50) for _ in range(2)] for _ in range(R(1, 6))], 'blank': [R(0, 6) for _ in range(R(0, 2))], 'sep': rng.choice([' ', '\t', '  ']), 'ret': rng.choice(['list', 'numpy']), 'end': rng.random() < .5})
        w, h = R(2, 7), R(2, 7)
        cases.append({'kind': 'borders', 'w': w, 'h': h, 'dark': sorted({(R(0, w - 1), R(0, h - 1)) for _ in range(R(1, 4))})})
        cases.append({'kind': 'gray', 'w': R(1, 5), 'h': R(1, 4), 'pix': [], 'v': R(-3, 3), 'mode': rng.choice(['RGB', 'RGB', 'RGBA'])})
        cases[-1]['pix'] = [[rng.choice([0, 255, R(0, 255)]) for _ in cases[-1]['mode']] for _ in range(cases[-1]['w'] * cases[-1]['h'])]
        y = [R(0, 4) for _ in range(R(2, 14))]
        th = R(1, 4)
        if y[0] == th:
            y[0] = th - 1
        cases.append({'kind': 'oscillations', 'y': y, 'th': th})
    cpp = []
    for k in [x for x in cases if x['kind'] == 'search' and x['right'] == len(x['list']) - 1]:
        cpp.append({'kind': 'search', 'list': k['list'], 'right': k['right'], 'down': rng.random() < .4})
    for _ in range(60 * W):
        n = R(1, 6)
        a, b, x = [R(-9, 9) for _ in range(n)], [R(-9, 9) for _ in range(n)], R(-5, 5)
        for op in ('sub', 'mul'):
            cpp.append({'kind': 'two', 'op': op, 'a': a, 'b': b})
        for op in ('subn', 'muln'):
            cpp.append({'kind': 'num', 'op': op, 'a': a, 'x': x})
        cpp.append({'kind': 'div', 'a': a, 'b': [y or 3 for y in b], 'one': False})
        cpp.append({'kind': 'div', 'a': a, 'b': [x or 2] * n, 'one': True})
        cpp.append({'kind': 'rsum', 'a': a})
        cpp.append({'kind': 'signs', 'a': a[:1], 'b': b[:1], 'x': x})
        m = [[R(-9, 9) for _ in range(n)] for _ in range(R(1, 5))]
        for op in ('mul', 'sum0', 'sum1'):
            cpp.append({'kind': 'rows', 'op': op, 'rows': m, 'b': b})
        if n > 1:
            cpp.append({'kind': 'stats', 'a': a, 'x': x})
    return {'main': cases, 'cpp': cpp}

def execute(c, group, cases):
    exe = ctrl.build(c, 'utils', ['utils/'], shim=False)
    lines = []
    for k in cases:
        if k['kind'] == 'search':
            t = [4, int(k['down']), len(k['list'])] + [-x if k['down'] else x for x in k['list']]
        elif k['kind'] == 'rows':
            t = [3, ['mul', 'sum0', 'sum1'].index(k['op']) + 1, len(k['rows']), len(k['b'])] + sum(k['rows'], []) + k['b']
        else:
            op = {'rsum': 7, 'stats': 8, 'signs': 9, 'div': 6 if k.get('one') else 5}.get(k['kind']) or ['sub', 'subn', 'mul', 'muln'].index(k['op']) + 1
            t = [2, op, len(k['a'])] + k['a'] + (k.get('b') or [0] * len(k['a'])) + [k['b'][0] if k.get('one') else k.get('x', 0)]
        lines.append(' '.join(map(str, t)))
    recs = []
    for k, out in zip(cases, ctrl.run(exe, lines, 4, c.scratch)):
        if 'crash' in out:
            recs.append({'outcome': 'crash', 'detail': str(out['crash'])})
            continue
        r = out['res']
        if k['kind'] in ('two', 'num', 'signs'):
            r = exact(r)
        elif k['kind'] == 'rsum':
            r = exact(r)[0]
        elif k['kind'] == 'rows':
            r = [exact(x) for x in r] if k['op'] == 'mul' else exact(r)
        elif k['kind'] == 'search':
            r += 1
        recs.append({**k, 'outcome': 'ok', 'untouched': True, 'res': r, **({'right': k['right'] + 1} if k['kind'] == 'search' else {})})
    return recs

def exact(v):
    return [x // 10000 if x % 10000 == 0 else 2000000000 for x in v]

def graph(rng):
    n = rng.randint(2, 5)
    fmt = rng.choice('mve')
    c = {'kind': 'graph', 'fmt': fmt, 'n': n, 'edges': [], 'rows': [], 'coords': [], 'noise': rng.random() < .6}
    if fmt == 'm':
        c['rows'] = [[rng.randint(0, 1) for _ in range(n)] for _ in range(n)]
    elif fmt == 'v':
        c['rows'] = [sorted(rng.sample(range(n), rng.randint(0, n - 1))) for _ in range(n)]
    else:
        es = {(i, rng.choice([j for j in range(1, n + 1) if j != i])) for i in range(1, n + 1)}
        c['edges'] = [list(e) for e in sorted(es)]
        rng.shuffle(c['edges'])
    if rng.random() < .5:
        c['coords'] = [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(n)]
    return c

def run_case(case):
    import numpy, random, tempfile
    import pyclustering.utils as u
    k = case['kind']
    rec = dict(case)
    rec['untouched'] = True
    if k == 'reservoir':
        from pyclustering.utils import sampling
        f = getattr(sampling, case['f'])
        outs = set()
        for _ in range(case['runs']):
            data = [10 * (i + 1) for i in range(case['n'])]
            given = numpy.array(data) if case['cont'] == 'numpy' else list(data)
            r = f(given, case['k'])
            outs.add(tuple(sorted(int(x) // 10 for x in r)))
            rec['untouched'] = rec['untouched'] and [int(x) for x in given] == data
        rec['outs'] = sorted(list(o) for o in outs)
    elif k == 'search':
        rec['right'] = case['right'] + 1
        s = list(case['list'])
        rec['res'] = u.find_left_element(s, case['right'], lambda a, b: a < b) + 1
        rec['untouched'] = s == case['list']
    elif k in ('two', 'num', 'div'):
        mk = {'list': list, 'tuple': tuple, 'numpy': lambda a: numpy.array(a, dtype=float)}[case['cont']]
        a = mk(case['a'])
        if k == 'two':
            b = mk(case['b'])
            r = {'add': u.list_math_addition, 'sub': u.list_math_subtraction, 'mul': u.list_math_multiplication}[case['op']](a, b)
            rec['res'] = whole(r)
        elif k == 'num':
            r = {'addn': u.list_math_addition_number, 'subn': u.list_math_substraction_number, 'muln': u.list_math_multiplication_number}[case['op']](a, case['x'])
            rec['res'] = whole(r)
        else:
            b = case['b']
            rec['res'] = fxs(u.list_math_division_number(a, b[0]) if len(set(b)) == 1 else u.list_math_division(a, mk(b)))
        rec['untouched'] = list(a) == case['a']
    elif k == 'sums':
        d = as_data(case['pts'], case['data'])
        rec.update(lin=whole(u.linear_sum(d)), sq=whole([u.square_sum(d)])[0], norm=fx(u.norm_vector(d[0])), untouched=snapshot(d) == case['pts'])
        if len(case['pts'][0]) == 1:
            assert whole([u.linear_sum([float(p[0]) for p in case['pts']]), u.square_sum([float(p[0]) for p in case['pts']])]) == [rec['lin'][0], rec['sq']], 'sums of scalars differ'
    elif k == 'corners':
        d = as_data(case['pts'], case['data'])
        lo, hi = u.data_corners(d, case['filter'] or None)
        rec.update(low=whole(lo), high=whole(hi), untouched=snapshot(d) == case['pts'])
    elif k == 'dims':
        from pyclustering.utils.dimension import dimension_info
        d = as_data(case['pts'], case['data'])
        i = dimension_info(d)
        calls = [('dim', i.get_dimensions), ('low', i.get_minimum_coordinate), ('high', i.get_maximum_coordinate), ('width', i.get_width), ('center', i.get_center)]
        got = {}
        for j in case['order']:
            got[calls[j][0]] = calls[j][1]()
        rec.update(dim=int(got['dim']), low=whole(got['low']), high=whole(got['high']), width=whole(got['width']), center2=whole([2 * x for x in got['center']]), untouched=snapshot(d) == case['pts'])
    elif k == 'matrix':
        from pyclustering.utils.metric import distance_metric, type_metric
        d = as_data(case['pts'], case['data'])
        rec.update(res=[whole(r) for r in u.calculate_distance_matrix(d, distance_metric({'sq': type_metric.EUCLIDEAN_SQUARE, 'manhattan': type_metric.MANHATTAN}[case['metric']]))], untouched=snapshot(d) == case['pts'])
    elif k == 'between':
        a, b = [[float(x) for x in p] for p in case['a']], [[float(x) for x in p] for p in case['b']]
        args = (list(range(len(a))), list(range(len(a), len(a) + len(b))), a + b) if case['byindex'] else (a, b)
        one = len(a) + len(b) > 1
        rec.update(inter=fx(u.average_inter_cluster_distance(*args)), intra=fx(u.average_intra_cluster_distance(*args)), var=fx(u.variance_increase_distance(*args)))
    elif k == 'nearest':
        rec['res'] = [fx(u.average_neighbor_distance([[float(x)] for x in case['x']], case['num'])), fx(u.average_neighbor_distance([[float(x), 3.0] for x in case['x']], case['num']))]
    elif k == 'generate':
        from pyclustering.cluster.generator import data_generator
        K, dim = case['k'], case['dim']
        sizes = case['sizes'] if isinstance(case['sizes'], list) else [case['sizes']] * K
        width = [0.0] * K if case['width'] == 'list' else case['width']
        centers = [[float(100 * i + 7)] * dim for i in range(K)] if case['given'] else None
        if not case['given'] and not (width == 0.001):
            width = 0.001
        g = data_generator(K, dim, case['sizes'], centers, width).generate()
        label = (lambda p: int(round((p[0] - 7) / 100))) if case['given'] else (lambda p: int(round(p[0] / (4 * 0.001))))
        rec.update(labels=[label(p) for p in g] if case['given'] else [i for i, s in enumerate(sizes) for _ in range(s)] if len(g) == sum(sizes) else [], want=[i for i, s in enumerate(sizes) for _ in range(s)], dims=[len(p) for p in g])
    elif k == 'graph':
        from pyclustering.utils.graph import read_graph, type_graph_descr as G
        ls = []
        for i, p in enumerate(case['coords']):
            ls.append('r %d %d' % tuple(p))
        for r in case['rows']:
            ls.append(case['fmt'] + ' ' + ' '.join(map(str, r)))
        for e in case['edges']:
            ls.append('e %d %d' % tuple(e))
        if case['noise']:
            ls = ['c comment', ''] + ls + ['', 'p more']
        g = written('\n'.join(ls) + '\n', read_graph)
        rec.update(data=[whole(r) for r in g.data], space=[whole(p) for p in g.space_description or []], descr={G.GRAPH_MATRIX_DESCR: 'matrix', G.GRAPH_VECTOR_DESCR: 'vector'}.get(g.type_graph_descr, '?'), len=len(g))
    elif k == 'sample':
        ls = [case['sep'].join('%.1f' % x for x in r) for r in case['rows']]
        for b in case['blank']:
            ls.insert(min(b, len(ls)), '')
        rec['data'] = [whole(r) for r in written('\n'.join(ls) + ('\n' if case['end'] else ''), lambda f: u.read_sample(f, return_type=case['ret']))]
    elif k == 'borders':
        from PIL import Image
        im = Image.new('RGB', (case['w'], case['h']), (255, 255, 255))
        for x, y in case['dark']:
            im.putpixel((x, y), (0, 0, 0))
        p, s = u.stretch_pattern(im)
        rec.update(res=[int(x) for x in u.gray_pattern_borders(im)], stretched=len(p), pattern=fxs(p), pixels=[list(x) for x in s.getdata()], size=[int(x) for x in s.size], dark=[list(x) for x in case['dark']])
    elif k == 'gray':
        from PIL import Image
        im = Image.new(case['mode'], (case['w'], case['h']))
        im.putdata([tuple(p) for p in case['pix']])
        fd, name = tempfile.mkstemp(dir=os.environ['VERIF_SCRATCH'], suffix='.png')
        os.close(fd)
        im.save(name)
        got = u.read_image(name)
        os.unlink(name)
        t, r = u.timedcall(u.heaviside, case['v'])
        rec.update(read=[ints(p) for p in got], gray=fxs(u.rgb2gray(got)), step=whole([r])[0] if t >= 0 else -1)
    else:
        dyn = [[0.0, float(v)] for v in case['y']]
        rec['res'] = int(u.extract_number_oscillations(dyn, 1, float(case['th'])))
    return rec

def written(text, f):
    import tempfile
    fd, name = tempfile.mkstemp(dir=os.environ['VERIF_SCRATCH'])
    try:
        with os.fdopen(fd, 'w') as h:
            h.write(text)
        return f(name)
    finally:
        os.unlink(name)

def whole(v):
    r = [int(round(float(x))) for x in v]
    assert all(abs(float(x) - y) < 1e-6 for x, y in zip(v, r)), 'not the expected whole number'
    return r

def kind(case, rec):
    return case['kind']

def nontrivial(case, rec):
    return case['kind'] not in ('search', 'reservoir') or case.get('n', 2) > 1 and len(case.get('list', [1, 1])) > 1
STALL = 20
