from vgen import *
import ctrl
import math
PROP = 'C27'
SPECS = {'pcnn': ('PcnnTrace', 'Trace.cfg'), 'ens': ('EnsemblesTrace', 'Trace.cfg'), 'core': ('EnsemblesTrace', 'Trace.cfg'), 'osc': ('OscillatoryTrace', 'Trace.cfg')}
OWN = ('core',)
MC = [('Pcnn', 'PcnnMC.cfg', ('quick', 'thorough')), ('Pcnn', 'PcnnMCBig.cfg', ('thorough',)), ('Ensembles', 'EnsemblesMC.cfg', ('quick', 'thorough')), ('Ensembles', 'EnsemblesMCBig.cfg', ('thorough',)),
      ('Oscillatory', 'OscillatoryMC.cfg', ('quick', 'thorough')), ('Oscillatory', 'OscillatoryMCBig.cfg', ('thorough',))]
RULE = ('pcnn: networks up to 12 neurons (five structures, rectangular grids), seeded stimuli and parameters in thousandths, with and without fast linking, several simulations in a row, both cores; '
        'non-trivial: some neuron fired and some did not at the same step')
TYPES = ['none', 'all', 'four', 'eight', 'list']
PN = ['VF', 'VL', 'VT', 'AF', 'AL', 'AT', 'W', 'M', 'B']

def gen_pcnn(c):
    rng = c.rng
    cases = []
    while len(cases) < (650 if c.quick else 14000):
        py = rng.random() < .5
        t = rng.choice(TYPES)
        dance = len(cases) % 4 == 3                     # outputs that depend on each other and alternate under fast linking
        wave = len(cases) % 8 == 5                      # one neuron activates its neighbours one after the other
        if wave:
            t = rng.choice(['list', 'list', 'four'])
        fast = dance or wave or rng.random() < .45
        if t in ('four', 'eight'):
            h, w = rng.choice([(1, 1), (2, 2), (1, 3), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (3, 4)])
            n = h * w
        else:
            h, w, n = 0, 0, rng.choice([1, 2, 3, 4, 5, 8])
        P = dict(zip(PN, [1000, 1000, 10000, 100, 100, 500, 1000, 1000, 100]))
        if rng.random() < .75:
            P.update(VF=rng.choice([1000, 300, 0, 100]), VL=rng.choice([1000, 500, 200]) - rng.randint(0, 40), VT=rng.choice([10000, 1000, 3000, 400]) + rng.randint(0, 90), AF=rng.choice([100, 500, 0, 700]), AL=rng.choice([100, 500, 800, 0]),
                     AT=rng.choice([500, 800, 900, 100]) - rng.randint(0, 17), W=rng.choice([1000, 300, 700]), M=rng.choice([1000, 250, 0]), B=rng.choice([100, 500, 1000, 250, 0]))
        if dance:
            P.update(VF=rng.choice([0, 100]), VL=rng.choice([1000, 2000]), VT=rng.choice([300, 700, 1500]), AF=rng.choice([0, 300]), AL=rng.choice([0, 500, 900]), AT=rng.choice([100, 400, 700]), W=1000, B=rng.choice([500, 1000, 2000]))
        if wave:
            n = n if t == 'four' else rng.choice([4, 5, 6, 8])
            P.update(VF=0, VL=1000, VT=rng.choice([10000, 15000]), AF=0, AL=100, AT=rng.choice([500, 700]), W=1000, B=rng.choice([1000, 1500, 2000]))
        P['fast'] = fast
        sts = [[rng.choice([0, 10000, 5000, rng.randint(0, 12000), 10000 * rng.randint(0, 1)]) for _ in range(n)] for _ in range(2)]
        if dance:
            sts = [[rng.choice([200, 500, 900, 1500, 3000]) + rng.randint(0, 97) for _ in range(n)] for _ in range(2)]
        if wave:
            sts = [[rng.choice([2400, 3000]) + rng.randint(0, 300) for _ in range(n)] for _ in range(2)]
            for s in sts:
                s[rng.choice([n - 1, n - 1, 0, n // 2])] = rng.randint(4200, 5200)
        runs = [{'steps': 20 if wave else rng.choice([1, 2, 5, 12, 20]), 'st': sts[0] if rng.random() < .6 else sts[1]} for _ in range(rng.choice([1, 1, 2, 3]))]
        if (wave or dance) and py and n > 2:            # initial thresholds are random: without stimulus they vanish first
            runs = [{'steps': 12 if P['AT'] < 600 else 24, 'st': [0] * n}] + runs
        # quantities stay small enough for the integers of TLC
        k = {'none': 0, 'all': n - 1, 'four': 4, 'eight': 8, 'list': 2}[t]
        if k * P['VF'] * P['M'] / 1e6 / (1 - P['AF'] / 1000) > 15 or 1 + P['B'] * k * P['VL'] * P['W'] / 1e9 / (1 - P['AL'] / 1000) > 10:
            continue
        cases.append({'n': n, 'type': t, 'h': h, 'w': w, 'P': P, 'runs': runs, 'py': py, 'seed': rng.randint(0, 10**6), 'repr': rng.choice(['MATRIX', 'LIST'])})
    return cases

def run_pcnn(case):
    import random
    from pyclustering.nnet import conn_type, conn_represent
    from pyclustering.nnet.pcnn import pcnn_network, pcnn_parameters
    random.seed(case['seed'])
    ct = dict(zip(TYPES, [conn_type.NONE, conn_type.ALL_TO_ALL, conn_type.GRID_FOUR, conn_type.GRID_EIGHT, conn_type.LIST_BIDIR]))[case['type']]
    p = pcnn_parameters()
    for a in PN:
        setattr(p, a, case['P'][a] / 1000)
    p.FAST_LINKING = case['P']['fast']
    kw = {'height': case['h'], 'width': case['w']} if case['h'] and (case['h'] != case['w'] or case['seed'] % 2) else {}
    rp = 'MATRIX' if case['type'] == 'eight' and 2 in (case['w'], round(case['n'] ** .5)) else case['repr']      # lists of a grid of two columns repeat neighbours (finding py-grid-rows)
    net = pcnn_network(case['n'], p, ct, getattr(conn_represent, rp), ccore=not case['py'], **kw)
    runs = []
    for r in case['runs']:
        d = net.simulate(r['steps'], [x / 10000 for x in r['st']])
        outs = [[int(x) if x in (0, 1) else -1 for x in s] for s in d.output]
        runs.append({'st': r['st'], 'steps': r['steps'], 'outs': outs, 'sync': lists(d.allocate_sync_ensembles()), 'spike': lists(d.allocate_spike_ensembles()), 'sig': ints(d.allocate_time_signal()),
                     'time': ints(d.time), 'len': len(d)})
    return {'n': case['n'], 'type': case['type'], 'w': case['w'], 'py': case['py'], 'P': case['P'], 'lo': 0, 'hi': 10000 if case['py'] else 0, 'size': len(net), 'runs': runs}

def spiking(rng, T, n, thr):
    """states of n oscillators over T times around a threshold: spikes of several shapes, groups in unison, shifts"""
    cols, v = [], [thr - 900, thr - 1, thr, thr + 1, thr + 700]
    for i in range(n):
        how = rng.randrange(5)
        if cols and how == 0:
            cols.append(list(rng.choice(cols)))
        elif cols and how == 1:
            k = rng.choice([1, 1, 2, 3])
            b = rng.choice(cols)
            cols.append((b[k:] + b[:k]) if rng.random() < .5 else (b[-k:] + b[:-k]))
        elif how == 2:
            cols.append([rng.choice(v) for _ in range(T)])
        else:
            c, up = [], rng.random() < .4
            while len(c) < T:
                c += [rng.choice(v[3:] if up else v[:2]) if rng.random() < .93 else thr for _ in range(rng.randint(1, max(1, T // 3)))]
                up = not up
            cols.append(c[:T])
    return [[c[t] for c in cols] for t in range(T)]

def gen_ens(c):
    rng = c.rng
    cases = []
    N = 250 if c.quick else 4000
    for k in range(N):
        T, n, thr = rng.choice([1, 2, 3, 5, 8, 12, 20, 40]), rng.choice([1, 2, 3, 4, 6]), 1000
        how = rng.choice(['legion', 'utils', 'utils'])
        cases.append({'kind': 'spike', 'how': how, 'thr': thr if how == 'legion' else rng.choice([1000, 0, -500]), 'tol': rng.choice([10, 10, 20, 50, 100, 1, 30]), 'dyn': None,
                      'ignore': [] if how == 'legion' else [i for i in range(n) if rng.random() < .15]})
        cases[-1]['dyn'] = spiking(rng, T, n, cases[-1]['thr'])
        cases.append({'kind': 'cnn', 'steps': rng.choice([1, 2, 3, 5, 50]), 'dyn': spiking(rng, T, n, 0)})
        cases.append({'kind': 'hyst', 'steps': rng.choice([1, 2, 3, 5, 50]), 'tol': rng.choice([100, 2, 800, 1600]), 'dyn': spiking(rng, T, n, 0)})
    for k in range(40 if c.quick else 600):
        n = rng.choice([2, 3, 4, 6])
        cases.append({'kind': 'spike', 'how': 'run', 'thr': 1, 'tol': rng.choice([10, 30]), 'ignore': [], 'n': n, 'type': rng.choice(['none', 'all', 'list']), 'st': [rng.randint(0, 1) for _ in range(n)],
                      'steps': rng.choice([60, 150]), 'time': rng.choice([60, 100]), 'ccore': k % 4 != 0, 'collect': rng.random() < .8})
    return cases

def gen_core(c):
    rng = c.rng
    cases = []
    for k in range(500 if c.quick else 8000):
        T, n, thr = rng.choice([1, 2, 3, 5, 8, 12, 20, 40]), rng.choice([1, 2, 3, 4, 6]), rng.choice([0, 1000, -40000])
        cases.append({'kind': 'core', 'thr': thr, 'tol': rng.choice([10, 20, 50, 100, 1, 200]), 'm': rng.choice([1, 1, 2, 3]), 'dyn': spiking(rng, T, n, thr)})
    return cases

def execute(c, group, cases):
    exe = ctrl.build(c, 'spikes', ['nnet/dynamic_analyser'], shim=False)
    out = ctrl.run(exe, ['%r %r %d %d %d %s' % (k['thr'] / 1000, k['tol'] / 100, k['m'], len(k['dyn']), len(k['dyn'][0]), ' '.join('%r' % (x / 1000) for s in k['dyn'] for x in s)) for k in cases], 4, c.scratch)
    return [{'outcome': 'crash', 'detail': str(o['crash'])} if 'crash' in o else dict(k, ans=o['ans'], dead=o['dead'], len=len(k['dyn']), outcome='ok') for k, o in zip(cases, out)]

def run_ens(case):
    from pyclustering.utils import allocate_sync_ensembles
    from pyclustering.nnet.legion import legion_dynamic, legion_network
    from pyclustering.nnet.cnn import cnn_dynamic
    from pyclustering.nnet.hysteresis import hysteresis_dynamic
    from pyclustering.nnet import conn_type
    rec = dict(case)
    if case['kind'] == 'spike' and case['how'] == 'run':
        net = legion_network(case['n'], None, dict(zip(TYPES, [conn_type.NONE, conn_type.ALL_TO_ALL, conn_type.GRID_FOUR, conn_type.GRID_EIGHT, conn_type.LIST_BIDIR]))[case['type']], ccore=case['ccore'])
        d = net.simulate(case['steps'], case['time'], case['st'], collect_dynamic=case['collect'])
        rec['dyn'] = [[1 + int(x > 1.0) - int(x < 1.0) for x in s] for s in d.output]
        rec['ans'], rec['len'] = lists(d.allocate_sync_ensembles(case['tol'] / 100)), len(d)
        if len(d.time) != len(d) or len(d.inhibitor) != len(d):
            rec['len'] = -1
        return rec
    dyn = [[x / 1000 for x in s] for s in case['dyn']]
    rec['len'] = len(dyn)
    if case['kind'] == 'spike':
        if case['how'] == 'legion':
            d = legion_dynamic(dyn, [0.0] * len(dyn), list(range(len(dyn))))
            rec['len'] = len(d)
            rec['ans'] = lists(d.allocate_sync_ensembles(case['tol'] / 100))
        else:
            rec['ans'] = lists(allocate_sync_ensembles(dyn, case['tol'] / 100, case['thr'] / 1000, case['ignore'] or None))
    elif case['kind'] == 'cnn':
        d = cnn_dynamic(dyn, list(range(len(dyn))))
        rec['len'] = len(d)
        rec['obs'] = [ints(s) for s in d.allocate_observation_matrix()]
        rec['ans'] = lists(d.allocate_sync_ensembles(case['steps']))
    else:
        d = hysteresis_dynamic(dyn, list(range(len(dyn))))
        rec['len'] = len(d)
        rec['ans'] = lists(d.allocate_sync_ensembles(case['tol'] / 1000, case['steps']))
    return rec

def general(pts):
    n = len(pts)
    cr = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    if any(cr(*t) == 0 for t in itertools.combinations(pts, 3)):
        return False
    for a, b, c, p in itertools.combinations(pts, 4):
        m = [(q[0] - p[0], q[1] - p[1]) for q in (a, b, c)]
        d = [x * x + y * y for x, y in m]
        if d[0] * (m[1][0] * m[2][1] - m[2][0] * m[1][1]) - d[1] * (m[0][0] * m[2][1] - m[2][0] * m[0][1]) + d[2] * (m[0][0] * m[1][1] - m[1][0] * m[0][1]) == 0:
            return False
    return True

LN = {'eps': 'eps', 'alpha': 'alpha', 'gamma': 'gamma', 'betta': 'betta', 'lamda': 'lamda', 'teta': 'teta', 'tx': 'teta_x', 'tp': 'teta_p', 'xz': 'teta_xz', 'zx': 'teta_zx', 'T': 'T', 'mu': 'mu', 'Wz': 'Wz', 'Wt': 'Wt',
      'fi': 'fi', 'ro': 'ro', 'I': 'I'}

def gen_osc(c):
    rng = c.rng
    cases = []
    k = 0
    while len(cases) < (360 if c.quick else 6000):
        k += 1
        how = ['cnn', 'hyst', 'legion', 'legion'][k % 4]
        if how == 'cnn':
            n, dl = rng.choice([2, 3, 4, 5, 7, 10]), k % 8 >= 4
            pts = [[rng.randint(0, 7 if n < 7 else 12) for _ in range(2 if dl else rng.choice([1, 2, 2, 3]))] for _ in range(n)] if dl else points(rng, n, rng.choice([1, 2, 3]), rng.choice([3, 7]))
            if len({tuple(p) for p in pts}) < 2 or (dl and (n < 3 or not general(pts))):
                continue
            nb = rng.choice([x for x in (1, 2, 3) if x < n])
            near = [sorted(math.dist(p, q) for q in pts)[1:nb + 1] for p in pts]
            if sum(map(sum, near)) / n / nb < .25:
                continue
            cases.append({'osc': 'cnn', 'pts': pts, 'k': nb, 'del': dl, 'steps': rng.choice([1, 2, 6, 15]), 'more': rng.choice([0, 0, 3]), 'data': rng.choice(['float', 'numpy'])})
            continue
        t = rng.choice(TYPES)
        n = rng.choice([4, 9] if t in ('four', 'eight') else [1, 2, 3, 4, 5])
        w = int(n ** .5)
        if how == 'hyst':
            cases.append({'osc': 'hyst', 'type': t, 'n': n, 'w': w, 'own': rng.choice([-40000, -20000, 15000, -5000]), 'neigh': rng.choice([-10000, 5000, -2500]), 'x0': [rng.choice([0, rng.randint(-19000, 19000)]) for _ in range(n)],
                          'out0': [rng.choice([-1, 1]) for _ in range(n)], 'steps': rng.choice([1, 5, 20, 40]), 'h': rng.choice([1000, 2000, 5000]), 'repr': rng.choice(['MATRIX', 'LIST'])})
            continue
        py = k % 16 in (2, 3)
        P = {'eps': 200, 'alpha': 50, 'gamma': 60000, 'betta': 1000, 'lamda': 1000, 'teta': 9000, 'tx': -15000, 'tp': 15000, 'xz': 1000, 'zx': 1000, 'T': 20000, 'mu': 100, 'Wz': 15000, 'Wt': 80000, 'fi': 30000, 'ro': 200, 'I': 2000}
        if rng.random() < .7:
            P.update(eps=rng.choice([200, 1000, 3000]), gamma=rng.choice([60000, 40000]), betta=rng.choice([1000, 3000, 6000]), lamda=rng.choice([1000, 4000]), teta=rng.choice([9000, 9700, 9990]), alpha=rng.choice([50, 2000, 6000]),
                     tx=rng.choice([-15000, -3000] if py else [-15000, -3000, 4000, 13000]), tp=rng.choice([15000, 30000, 500]), xz=rng.choice([1000, 4000]), zx=rng.choice([1000, 12000, -3000, 17000]), T=rng.choice([20000, 8000]), mu=rng.choice([100, 1500]),
                     Wz=rng.choice([15000, 8000, 40000]), Wt=rng.choice([80000, 30000]), fi=rng.choice([30000, 12000]), ro=rng.choice([200, 0]), I=rng.choice([2000, 9000]))
        P['pot'] = rng.random() < .75
        steps = rng.choice([60, 120]) if py else rng.choice([100, 250])
        cases.append({'osc': 'legion', 'type': t, 'n': n, 'w': w, 'py': py, 'P': P, 'st': [rng.choice([0, 1, 1]) for _ in range(n)], 'h': 200, 'steps': steps, 'solver': 'RK4' if py or rng.random() < .7 else 'RKF45', 'steps2': 30 if py else rng.choice([40, 120]), 'st2': [rng.choice([0, 1, 1]) for _ in range(n)] if rng.random() < .5 else [], 'repr': rng.choice(['MATRIX', 'LIST'])})
    return cases

def run_osc(case):
    from pyclustering.nnet import conn_type, conn_represent, solve_type
    ct = dict(zip(TYPES, [conn_type.NONE, conn_type.ALL_TO_ALL, conn_type.GRID_FOUR, conn_type.GRID_EIGHT, conn_type.LIST_BIDIR])).get(case.get('type'))
    rp = getattr(conn_represent, 'MATRIX' if case.get('type') == 'eight' and case.get('w') == 2 else case.get('repr', 'MATRIX'))    # lists of a grid of two columns repeat neighbours (finding py-grid-rows)
    rec = dict(case, kind=case['osc'])
    if case['osc'] == 'cnn':
        from pyclustering.nnet.cnn import cnn_network, type_conn
        net = cnn_network(len(case['pts']), type_conn.TRIANGULATION_DELAUNAY if case['del'] else type_conn.ALL_TO_ALL, case['k'])
        data = as_data(case['pts'], case['data'])
        d = net.simulate(case['steps'], data)
        out, tm = [list(s) for s in d.output], list(d.time)
        rec['steps'] = case['steps']
        if case['more']:
            d = net.simulate(case['more'], data)             # continues from the last state
            if [float(x) for x in d.output[0]] != [float(x) for x in out[-1]] or len(d) != case['more']:
                tm = []
            out, tm = out + [list(s) for s in d.output[1:]], tm and list(range(len(out) + len(d) - 1))
            rec['steps'] += case['more'] - 1
        rec.update(n=len(net), ys=[fxs(s) for s in out], time=fxs(tm), h=10000, len=len(out))
        return rec
    if case['osc'] == 'hyst':
        from pyclustering.nnet.hysteresis import hysteresis_network
        net = hysteresis_network(case['n'], case['own'] / 10000, case['neigh'] / 10000, ct, rp)
        net.states = [x / 10000 for x in case['x0']]
        net.outputs = case['out0']
        d = net.simulate(case['steps'], case['steps'] * case['h'] / 10000)
        rec.update(py=True, xs=[fxs(s) for s in d.output], time=fxs(d.time), len=len(d), out=ints(net.outputs))
        return rec
    from pyclustering.nnet.legion import legion_network, legion_parameters
    p = legion_parameters()
    for a, b in LN.items():
        setattr(p, b, case['P'][a] / 10000)
    p.ENABLE_POTENTIONAL = case['P']['pot']
    net = legion_network(case['n'], p, ct, rp, ccore=not case['py'])
    d = net.simulate(case['steps'], case['steps'] * case['h'] / 10000, case['st'], getattr(solve_type, case['solver']))
    xs, zs, tm, cut = [fxs(s) for s in d.output], fxs(d.inhibitor), fxs(d.time), 0
    total = len(d)
    if case['st2']:                                         # again, with another stimulus: goes on from the last state
        cut, skip = len(xs), 0 if case['py'] else 1
        d = net.simulate(case['steps2'], case['steps2'] * case['h'] / 10000, case['st2'], getattr(solve_type, case['solver']))
        if skip and [fxs(s) for s in d.output][:1] != xs[-1:]:
            tm = []
        xs, zs, tm, total = xs + [fxs(s) for s in d.output][skip:], zs + fxs(d.inhibitor)[skip:], tm and tm + fxs(d.time)[skip:], total + len(d) - skip
    rec.update(xs=xs, zs=zs, time=tm, len=total, cut=cut)
    return rec

def gen(c):
    return {'pcnn': gen_pcnn(c), 'ens': gen_ens(c), 'core': gen_core(c), 'osc': gen_osc(c)}

def run_case(case):
    return run_ens(case) if 'kind' in case else run_osc(case) if 'osc' in case else run_pcnn(case)

def kind(case, rec):
    if 'kind' in case:
        return 'ensembles/' + case['kind'] + ('/' + case['how'] if 'how' in case else '')
    if 'osc' in case:
        return case['osc'] + ('/python' if case.get('py') else '/c++' if 'py' in case else '')
    return 'pcnn/%s/%s%s' % (case['type'], 'python' if case['py'] else 'c++', '/fast' if case['P']['fast'] else '')

def nontrivial(case, rec):
    if 'kind' in case:
        return any(len(e) > 1 for e in rec['ans'])
    if 'osc' in case:
        return rec['len'] > 2 and (rec['kind'] != 'hyst' or rec['out'] != rec['out0'])
    return any(0 < s < case['n'] for r in rec['runs'] for s in r['sig'])
