from vgen import *
import ctypes, math, os, shutil, subprocess, sys, json
PROP = 'C23'
SPECS = {'package': ('CrossingTrace', 'Trace.cfg'), 'cores': ('CrossingTrace', 'Trace.cfg'), 'loader': ('CrossingTrace', 'Trace.cfg')}
NEED_CORE = True
STALL = 120
MC = [('Crossing', 'CrossingMC.cfg', ('quick', 'thorough')), ('Crossing', 'CrossingMCBig.cfg', ('thorough',))]
RULE = ('package: nested values (flat, rows of different lengths, empty rows, deep) in lists, tuples, ranges, arrays and matrices, six scalar types with extreme values, built and extracted by Python or sent through vectors of the '
        'core; cores: random data without ties given to each deterministic algorithm with and without the core; loader: library files that are there, missing, damaged, foreign or of another version; non-trivial: rows or several clusters')
CT = {'double': ctypes.c_double, 'float': ctypes.c_float, 'long': ctypes.c_long, 'int': ctypes.c_int, 'unsigned': ctypes.c_uint, 'size_t': ctypes.c_size_t}
EDGE = {'double': [0.0, -0.0, 1e300, -1e-300, math.inf, 0.1, -2.5, 3, 7], 'float': [0.0, -2.5, 0.5, 1.25e10, 3], 'long': [0, -1, 2**63 - 1, -2**63, 5], 'int': [0, -1, 2**31 - 1, -2**31, 9], 'unsigned': [0, 2**32 - 1, 6], 'size_t': [0, 2**64 - 1, 2**63, 4]}
TYPES = {0: 'int', 1: 'unsigned', 2: 'float', 3: 'double', 4: 'long', 6: 'list', 7: 'size_t', 9: 'undefined'}
CORES = ['agglomerative/SINGLE_LINK', 'agglomerative/COMPLETE_LINK', 'agglomerative/AVERAGE_LINK', 'agglomerative/CENTROID_LINK', 'clique', 'cure', 'dbscan', 'dbscan/matrix', 'fcm', 'kmeans', 'kmeans/manhattan', 'kmedians', 'kmedoids', 'kmedoids/matrix',
         'optics', 'optics/matrix', 'rock', 'silhouette', 'metric']
FILES = {'good': [1, 1, 1, 1, 1], 'platform': [0, 0, 0, 0, 0], 'missing': [1, 0, 0, 0, 0], 'garbage': [1, 1, 0, 0, 0], 'empty': [1, 1, 0, 0, 0], 'truncated': [1, 1, 0, 0, 0], 'foreign': [1, 1, 1, 0, 0], 'silent': [1, 1, 1, 0, 0], 'old': [1, 1, 1, 1, 0], 'unversioned': [1, 1, 1, 1, 0]}
STUBS = {'foreign': 'extern "C" int hello() { return 1; }', 'silent': 'extern "C" const char * get_interface_description() { return ""; } extern "C" const char * get_interface_version() { return "%s"; }',
         'old': 'extern "C" const char * get_interface_description() { return "core"; } extern "C" const char * get_interface_version() { return "0.0.1"; }', 'unversioned': 'extern "C" const char * get_interface_description() { return "core"; }'}

def gen(c):
    rng, q = c.rng, c.quick
    package = []
    for k in range(900 if q else 12000):
        s = rng.choice(list(CT))
        def scalar():
            x = rng.choice(EDGE[s]) if rng.random() < .4 else rng.randint(0, 50)
            return x if s in ('double', 'float') else int(x)
        def row():
            return [scalar() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        how = rng.choice(['flat', 'rows', 'rows', 'even', 'deep'])
        path = 'python' if how == 'deep' else rng.choice(['python', 'core', 'core'])
        if how == 'flat':
            v = row()
        elif how == 'even':
            w = rng.randint(1, 4)
            v = [[scalar() for _ in range(w)] for _ in range(rng.randint(1, 5))]
        else:
            v = [row() for _ in range(rng.randint(1, 5))]
            if how == 'deep':
                v = [v, [], [row()]][:rng.randint(1, 3)]
        box = rng.choice(['list', 'list', 'tuple', 'array', 'mixed'] + (['matrix', 'array'] if how == 'even' else []))
        if box == 'array' and how not in ('flat', 'even') or box == 'matrix' and how != 'even':
            box = 'list'
        via = 'one' if how == 'flat' else rng.choice(['two', 'two', 'ptr', 'elem'])
        auto = box in ('list', 'tuple') and path == 'python' and s in ('double', 'long')
        if auto and s == 'double':
            fl = lambda x: [fl(y) for y in x] if isinstance(x, list) else float(x)
            v = fl(v)
        package.append({'kind': 'package', 'value': enc(v), 'scalar': s, 'box': box, 'path': path, 'via': via, 'auto': auto})
    for k in range(20 if q else 200):
        package.append({'kind': 'text', 'value': ''.join(rng.choice('abc xyz:;()') for _ in range(rng.choice([0, 1, 5, 40, 200]))), 'via': rng.choice(['text', 'raw'])})
    cores = []
    for k in range(40 * len(CORES) if q else 400 * len(CORES)):
        n, dim = rng.choice([2, 3, 5, 8, 12, 20, 30]), rng.choice([1, 2, 3])
        cs = [[rng.uniform(0, 40) for _ in range(dim)] for _ in range(rng.randint(1, 4))]
        pts = [[round(x + rng.gauss(0, 3), 6) for x in rng.choice(cs)] for _ in range(n)]
        kk = rng.randint(1, min(n, 4))
        if CORES[k % len(CORES)] == 'fcm':
            kk = min(kk, n - 1)                 # centers stay off the objects
        cores.append({'kind': 'cores', 'alg': CORES[k % len(CORES)], 'pts': pts, 'k': kk, 'r': rng.choice([1.01, 2.03, 4.07, 8.11]), 'mp': rng.choice([1, 2, 3]), 'm': rng.choice([1, 2, 3, 4]), 'idx': rng.sample(range(n), min(n, 4)), 'box': rng.choice(['list', 'numpy'])})
    loader = [{'kind': 'loader', 'name': f, 'pts': [[rng.uniform(0, 9), rng.uniform(0, 9)] for _ in range(8)], 'again': b} for f in FILES for b in ((0,) if q else range(4))]
    return {'package': package, 'cores': cores, 'loader': loader}

def enc(v):
    """values that JSON keeps: scalars as text"""
    return [enc(x) for x in v] if isinstance(v, list) else repr(v)

def dec(v):
    return [dec(x) for x in v] if isinstance(v, list) else (math.inf if v == 'inf' else float(v) if '.' in v or 'e' in v else int(v))

def setup(c):
    b = c.build
    objs = b.compile([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/cpp/echo.cpp', b.cc + '/src/interface/pyclustering_package.cpp'], tag='echo.o')
    subprocess.run(['g++-10', '-shared', '-pthread'] + objs + ['-o', b.dir + '/libecho.so'], check=True)
    rel = os.path.relpath(b.so, b.py)
    for name in FILES:
        d = '%s/loader/%s' % (b.dir, name)
        shutil.copytree(b.py + '/pyclustering', d + '/pyclustering', ignore=shutil.ignore_patterns('*.so'))
        so = d + '/' + rel
        os.makedirs(os.path.dirname(so), exist_ok=True)
        if name in ('good', 'platform'):
            shutil.copy(b.so, so)
        elif name == 'garbage':
            open(so, 'w').write('this is not a library\n' * 20)
        elif name == 'empty':
            open(so, 'w').close()
        elif name == 'truncated':
            open(so, 'wb').write(open(b.so, 'rb').read(40))
        elif name in STUBS:
            ver = 'x'
            if name == 'silent':
                ver = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import pyclustering.core.wrapper as w; print(w.ccore_library_version)'], env=b.env(), capture_output=True, text=True).stdout.strip()
            src = '%s/%s.cpp' % (b.dir, name)
            open(src, 'w').write(STUBS[name].replace('%s', ver))
            subprocess.run(['g++-10', '-shared', '-fPIC', src, '-o', so], check=True)

def token(x, s):
    return repr(ctypes.c_float(x).value) if s == 'float' else repr(float(x)) if s == 'double' else str(int(x))

def tree(v, s):
    """the value as the specification sees it"""
    if hasattr(v, '__len__') or isinstance(v, range):
        return {'list': True, 'v': [tree(x, s) for x in v]}
    return {'list': False, 'v': token(v, s)}

def walk(p, s):
    """the package as it lies in memory"""
    from pyclustering.core.pyclustering_package import pyclustering_package
    q = p[0]
    t = TYPES.get(q.type, str(q.type))
    if q.size == 0:
        return {'type': t, 'size': 0, 'data': []}
    if t == 'list':
        a = ctypes.cast(q.data, ctypes.POINTER(ctypes.POINTER(pyclustering_package)))
        return {'type': t, 'size': q.size, 'data': [walk(a[i], s) for i in range(q.size)]}
    a = ctypes.cast(q.data, ctypes.POINTER(CT[t]))
    return {'type': t, 'size': q.size, 'data': [token(a[i], t) for i in range(q.size)]}

def run_case(case):
    return {'package': run_package, 'text': run_package, 'cores': run_cores, 'loader': run_loader}[case['kind']](case)

def run_package(case):
    import numpy
    from pyclustering.core.pyclustering_package import package_builder, package_extractor, pyclustering_package
    lib = ctypes.CDLL(os.environ['VERIF_SCRATCH'] + '/libecho.so')
    P = ctypes.POINTER(pyclustering_package)
    if case['kind'] == 'text':
        f = getattr(lib, case['via'])
        f.restype = P
        p = f(ctypes.c_char_p(case['value'].encode()))
        out = package_extractor(p).extract()
        lib.release(p)
        return {'kind': 'text', 'value': case['value'], 'out': out.decode() if isinstance(out, bytes) else str(out)}
    s, v = case['scalar'], dec(case['value'])
    np = {'double': numpy.float64, 'float': numpy.float32, 'long': numpy.int64, 'int': numpy.int32, 'unsigned': numpy.uint32, 'size_t': numpy.uint64}[s]
    tup = lambda x: tuple(tup(y) for y in x) if isinstance(x, list) else x
    box = {'list': lambda: v, 'tuple': lambda: tup(v), 'array': lambda: numpy.array(v, dtype=np), 'matrix': lambda: numpy.matrix(v, dtype=np), 'mixed': lambda: [numpy.array(x, dtype=np) if i % 2 else tuple(x) for i, x in enumerate(v)] if v and isinstance(v[0], list) and not any(isinstance(y, list) for x in v for y in x) else v}[case['box']]()
    p = package_builder(box, None if case['auto'] else CT[s]).create()
    rec = {'kind': 'package', 'value': tree(v, s), 'scalar': s, 'path': case['path'], 'pack': walk(p, s)}
    if case['path'] == 'core':
        f = getattr(lib, '%s_%s' % (case['via'] if v and isinstance(v[0], list) else 'one', s))
        f.restype = P
        r = f(p)
        if not r:
            raise RuntimeError('the core cannot read the package')
        out = package_extractor(r).extract()
        if case['via'] == 'two' and s == 'double' and v and isinstance(v[0], list):
            lib.both_double.restype = P
            t = lib.both_double(p)
            if package_extractor(t).extract() != [out, out]:
                out = ['container']
            lib.release(t)
        lib.release(r)
    else:
        out = package_extractor(p).extract()
    rec['out'] = tree(out, s) if out != ['container'] else {'list': True, 'v': [{'list': False, 'v': 'container'}] * 99}
    return rec

def run_cores(case):
    import numpy
    name, _, opt = case['alg'].partition('/')
    pts = case['pts']
    dt = 'points'
    if opt == 'matrix':
        pts = [[math.dist(a, b) for b in pts] for a in pts]
        dt = 'distance_matrix'
    data = pts if case['box'] == 'list' else numpy.array(pts)
    init = [[x + .0013 * (i + 1) for x in case['pts'][i]] for i in case['idx'][:case['k']]]
    def go(cc):
        import importlib
        from pyclustering.utils.metric import distance_metric, type_metric
        if name == 'metric':
            return metrics(case, cc)
        m = importlib.import_module('pyclustering.cluster.' + name)
        num = []
        if name == 'agglomerative':
            a = m.agglomerative(data, case['k'], getattr(m.type_link, opt), cc).process()
        elif name == 'clique':
            a = m.clique(data, case['m'], case['mp'] - 1, ccore=cc).process()
        elif name == 'cure':
            a = m.cure(data, case['k'], 3, .5, cc).process()
        elif name == 'dbscan':
            a = m.dbscan(data, case['r'], case['mp'], cc, data_type=dt).process()
        elif name == 'fcm':
            a = m.fcm(data, init, tolerance=1e-7, ccore=cc).process()
            num = [x for r in a.get_centers() for x in r]
        elif name == 'kmeans':
            a = m.kmeans(data, init, 1e-7, cc, metric=distance_metric(type_metric.MANHATTAN if opt else type_metric.EUCLIDEAN_SQUARE)).process()
            num = [x for r in a.get_centers() for x in r] + [a.get_total_wce()]
        elif name == 'kmedians':
            a = m.kmedians(data, init, 1e-7, cc).process()
            num = [x for r in a.get_medians() for x in r]
        elif name == 'kmedoids':
            a = m.kmedoids(data, case['idx'][:case['k']], 1e-7, cc, data_type=dt).process()
            num = list(a.get_medoids()) + [a.get_total_deviation()]
        elif name == 'optics':
            a = m.optics(data, case['r'], case['mp'], None, cc, data_type=dt).process()
            num = list(a.get_ordering())
        elif name == 'rock':
            a = m.rock(data, case['r'], case['k'], .5, cc).process()
        elif name == 'silhouette':
            cl = [[i for i in range(len(pts)) if i % 2 == j] for j in (0, 1)]
            return {'clusters': [], 'noise': [], 'numbers': fxs(m.silhouette(data, cl, ccore=cc).process().get_score(), 100000)}
        return {'clusters': lists(a.get_clusters()), 'noise': ints(a.get_noise()) if hasattr(a, 'get_noise') else [], 'numbers': fxs(num)}
    return {'kind': 'cores', 'alg': case['alg'], 'py': go(False), 'cpp': go(True)}

def metrics(case, cc):
    import numpy
    from pyclustering.utils.metric import distance_metric, type_metric
    from pyclustering.core.metric_wrapper import metric_wrapper
    pts, num = [[abs(x) for x in p] for p in case['pts']], []
    for t, kw in (('EUCLIDEAN', {}), ('EUCLIDEAN_SQUARE', {}), ('MANHATTAN', {}), ('CHEBYSHEV', {}), ('MINKOWSKI', {'degree': 4}), ('CANBERRA', {}), ('CHI_SQUARE', {}), ('GOWER', {'max_range': [50.0] * len(pts[0])})):
        kw = {k: numpy.array(v) if k == 'max_range' and not cc else v for k, v in kw.items()}
        m = distance_metric(getattr(type_metric, t), **kw)
        if cc:
            m = metric_wrapper.create_instance(m)
        num += [m(pts[0], pts[1]), m(pts[1], pts[0])]
    return {'clusters': [], 'noise': [], 'numbers': fxs(num)}

SCRIPT = '''
import sys, json, warnings
warnings.simplefilter('ignore')
import numpy, scipy.spatial, scipy.integrate, matplotlib, matplotlib.pyplot, matplotlib.animation, mpl_toolkits.mplot3d
try:
    import PIL.Image
except ImportError:
    pass
if sys.argv[1] == 'platform':
    sys.platform = 'sunos5'
pts = json.loads(sys.argv[2])
import importlib
def go(cc):
    r = {}
    def get(name):
        return importlib.import_module('pyclustering.cluster.' + name)
    r['agglomerative'] = get('agglomerative').agglomerative(pts, 2, None, cc).process().get_clusters()
    r['bsas'] = get('bsas').bsas(pts, 1, 1.0, cc).process().get_clusters()
    r['mbsas'] = get('mbsas').mbsas(pts, 1, 1.0, cc).process().get_clusters()
    r['clique'] = get('clique').clique(pts, 3, 0, ccore=cc).process().get_clusters()
    r['cure'] = get('cure').cure(pts, 2, ccore=cc).process().get_clusters()
    r['dbscan'] = get('dbscan').dbscan(pts, 2.0, 2, cc).process().get_clusters()
    r['fcm'] = get('fcm').fcm(pts, [[1.0, 1.1], [7.0, 8.0]], ccore=cc).process().get_clusters()
    r['gmeans'] = [sorted(i for c in get('gmeans').gmeans(pts, 1, cc).process().get_clusters() for i in c)]
    r['kmeans'] = get('kmeans').kmeans(pts, [[1.0, 1.1], [7.0, 8.0]], ccore=cc).process().get_clusters()
    r['kmedians'] = get('kmedians').kmedians(pts, [[1.0, 1.1], [7.0, 8.0]], ccore=cc).process().get_clusters()
    r['kmedoids'] = get('kmedoids').kmedoids(pts, [0, 1], ccore=cc).process().get_clusters()
    r['build'] = [sorted(get('kmedoids').build(pts, 2, ccore=cc).initialize())]
    r['optics'] = get('optics').optics(pts, 2.0, 2, None, cc).process().get_clusters()
    r['rock'] = get('rock').rock(pts, 2.0, 2, .5, cc).process().get_clusters()
    r['somsc'] = [sorted(i for c in get('somsc').somsc(pts, 2, 10, cc).process().get_clusters() for i in c)]
    r['syncnet'] = [sorted(i for c in get('syncnet').syncnet(pts, 3.0, ccore=cc).process().allocate_clusters(.1) for i in c)]
    r['hsyncnet'] = [sorted(i for c in get('hsyncnet').hsyncnet(pts, 2, ccore=cc).process().allocate_clusters(.1) for i in c)]
    r['xmeans'] = [sorted(i for c in get('xmeans').xmeans(pts, [[1.0, 1.1], [7.0, 8.0]], 2, ccore=cc).process().get_clusters() for i in c)]
    r['silhouette'] = [[round(1000 * x) for x in get('silhouette').silhouette(pts, [[0, 1, 2, 3], [4, 5, 6, 7]], ccore=cc).process().get_score()]]
    r['elbow'] = [[1]] if get('elbow').elbow(pts, 1, 5, ccore=cc).process().get_amount() > 0 else []
    from pyclustering.nnet.som import som, type_conn
    s = som(1, 2, type_conn.grid_four, ccore=cc); s.train(pts, 5)
    r['som'] = [sorted(i for c in s.capture_objects for i in c)]
    from pyclustering.nnet.sync import sync_network
    r['sync'] = [[len(sync_network(3, ccore=cc).simulate_static(4, 1))]]
    from pyclustering.nnet.syncpr import syncpr
    t = syncpr(3, .1, .1, ccore=cc); t.train([[1, -1, 1]]); r['syncpr'] = [[len(t.simulate_static(4, 1, [1, -1, 1]))]]
    from pyclustering.nnet.pcnn import pcnn_network
    r['pcnn'] = [[len(pcnn_network(3, ccore=cc).simulate(4, [1, 0, 1]))]]
    from pyclustering.nnet.legion import legion_network
    legion_network(3, ccore=cc).simulate(4, 1, [1, 0, 1])
    from pyclustering.nnet.hhn import hhn_network
    h = hhn_network(2, [0, 1], ccore=cc); h.simulate(4, 1)
    return r
a, b = go(True), go(False)
from pyclustering.core.wrapper import ccore_library
print(json.dumps({'workable': bool(ccore_library.workable()), 'asked': a, 'python': b}, default=int))
'''

def run_loader(case):
    d = os.environ['VERIF_SCRATCH'] + '/loader/' + case['name']
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT, case['name'], json.dumps(case['pts'])], env=dict(os.environ, PYTHONPATH=d), cwd=d, capture_output=True, text=True, timeout=110)
    rec = {'kind': 'loader', 'name': case['name'], 'file': dict(zip(['supported', 'there', 'loads', 'interface', 'version'], [bool(x) for x in FILES[case['name']]])), 'crash': p.returncode != 0, 'workable': False, 'runs': [], 'error': p.stderr[-300:]}
    if p.returncode == 0:
        r = json.loads(p.stdout.splitlines()[-1])
        rec['workable'] = r['workable']
        rec['runs'] = [{'alg': a, 'asked': lists(r['asked'][a]), 'python': lists(r['python'][a])} for a in r['asked']]
    return rec

def kind(case, rec):
    return '%s/%s' % (case['kind'], {'package': lambda: case['path'] + '/' + case['box'], 'text': lambda: case['via'], 'cores': lambda: case['alg'], 'loader': lambda: case['name']}[case['kind']]())

def nontrivial(case, rec):
    return case['kind'] == 'loader' or case['kind'] == 'cores' and (len(rec['py']['clusters']) > 1 or bool(rec['py']['numbers'])) or case['kind'] == 'package' and rec['pack']['type'] == 'list'
