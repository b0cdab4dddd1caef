from vgen import *
import math
PROP = 'C31'
SPECS = {'hh': ('NeuronTrace', 'Trace.cfg'), 'ls': ('NeuronTrace', 'Trace.cfg')}
NEED_CORE = True
PER_SHARD = 40
MC = [('Neuron', 'NeuronMC.cfg', ('quick', 'thorough')), ('Neuron', 'NeuronMCBig.cfg', ('thorough',))]
RULE = ('hh: Hodgkin-Huxley networks of 1 to 4 neurons with stimuli (silent and strong), weights, thresholds, delays and conductances of all kinds, in both cores and with both solvers, some with all gates collected and written to '
        'a file; ls: Landau-Stuart networks of every structure with equal and different frequencies and radii, simulated twice; non-trivial: pulses or links appear, oscillators are coupled')

def gen(c):
    rng, q = c.rng, c.quick
    hh, ls = [], []
    for k in range(100 if q else 2500):
        n = rng.choice([1, 2, 2, 3, 4])
        long = rng.random() < .25
        step = rng.choice([50, 50, 100]) if not long else 100
        steps = rng.choice([10, 25, 40]) if not long else (80 if q else 160)
        par = {'gNa': rng.choice([1200, 1200, 900]), 'gK': rng.choice([360, 360, 200]), 'gL': rng.choice([30, 30, 90]), 'vNa': rng.choice([500, 500, 400]), 'vK': rng.choice([-770, -770, -600]), 'vL': rng.choice([-544, -544, -400]), 'vRest': rng.choice([-650, -650, -600]),
               'i1': rng.choice([50, 50, 300, 400]), 'i2': rng.choice([300, 300, 0, 500]), 'Vinh': rng.choice([-800, -800, -500]), 'Vexc': rng.choice([0, 0, 200]), 'ai': rng.choice([60, 60, 30]), 'bi': rng.choice([3, 3, 10]), 'ae': rng.choice([400, 400, 100]), 'be': rng.choice([20, 20, 5]),
               'w1': rng.choice([1, 1, 3]), 'w2': rng.choice([90, 90, 0, 20]), 'w3': rng.choice([50, 50, 10, 90]), 'thr': rng.choice([-100, -100, 0, 60, -300]), 'eps': rng.choice([7, 13, 30, 33, 70, 3]), 'deltah': rng.choice([53, 131, 273, 65001])}
        hh.append({'kind': 'hh', 'n': n, 'par': par, 'stim': [rng.choice([0, 300, 400, 500, 700]) for _ in range(n)], 'step': step, 'steps': steps, 'how': rng.choice(['python', 'python', 'core', 'gates', 'gates']), 'solver': rng.choice(['RK4', 'RK4', 'RKF45']),
                   'collect': rng.choice([[1, 1, 1, 1], [1, 1, 1, 1], [1, 0, 1, 1], [1, 0, 0, 1], [1, 1, 0, 0], [1, 0, 0, 0]]), 'seed': rng.randint(0, 10**6)})
    for k in range(100 if q else 2500):
        t = rng.choice(['none', 'all', 'all', 'four', 'eight', 'list'])
        n = rng.choice([4, 9]) if t in ('four', 'eight') else rng.choice([1, 2, 3, 4, 5])
        ls.append({'kind': 'ls', 'n': n, 'type': t, 'repr': rng.choice(['MATRIX', 'LIST']), 'w': rng.choice([[10], [0], [25], [rng.choice([0, 5, 10, 30]) for _ in range(n)]]), 'r': rng.choice([[10], [5], [15], [rng.choice([3, 10, 14]) for _ in range(n)]]),
                   'kk': rng.choice([0, 10, 10, 30, 50]), 'runs': [[True, rng.choice([1, 5, 15, 25]), rng.choice([50, 100])]] + [[rng.random() < .5, rng.choice([1, 4, 10]), rng.choice([20, 50, 100])] for _ in range(rng.choice([0, 1, 1, 2]))], 'seed': rng.randint(0, 10**6)})
    return {'hh': hh, 'ls': ls}

TENTH = {'gNa': 'gNa', 'gK': 'gK', 'vNa': 'vNa', 'vK': 'vK', 'vL': 'vL', 'vRest': 'vRest', 'i1': 'Icn1', 'i2': 'Icn2', 'Vinh': 'Vsyninh', 'Vexc': 'Vsynexc', 'ai': 'alfa_inhibitory', 'bi': 'betta_inhibitory', 'ae': 'alfa_excitatory', 'be': 'betta_excitatory',
         'w1': 'w1', 'w2': 'w2', 'w3': 'w3', 'thr': 'threshold', 'eps': 'eps'}

def run_case(case):
    import random
    random.seed(case['seed'])
    return run_hh(case) if case['kind'] == 'hh' else run_ls(case)

def run_hh(case):
    from pyclustering.nnet.hhn import hhn_network, hhn_parameters
    from pyclustering.nnet import solve_type
    import pyclustering.core.hhn_wrapper as w
    import os, tempfile
    p = hhn_parameters()
    p.nu = 0.0
    for a, b in TENTH.items():
        setattr(p, b, case['par'][a] / 10)
    p.gL, p.deltah = case['par']['gL'] / 100, case['par']['deltah'] / 100
    n, steps, time = case['n'], case['steps'], case['steps'] * case['step'] / 1000
    stim = [x / 10 for x in case['stim']]
    py = case['how'] == 'python'
    solver = solve_type.RK4 if py else getattr(solve_type, case['solver'])
    rec = {'kind': 'hh', 'n': n, 'par': case['par'], 'stim': case['stim'], 'step': case['step'], 'steps': steps, 'gates': [], 'file': [], 'dyn': []}
    if case['how'] != 'gates':
        t, per, cen = hhn_network(n, stim, p, ccore=not py).simulate(steps, time, solver)
        rows = [list(a) + list(b) for a, b in zip(per, cen)]
        if len(per) != len(cen):
            rows.append([])
    else:
        net, dyn = w.hhn_create(n, p), w.hhn_dynamic_create(*[bool(x) for x in case['collect']])
        w.hhn_simulate(net, steps, time, solver, stim, dyn)
        def read(d):
            return [[list(a) + list(b) for a, b in zip(w.hhn_dynamic_get_peripheral_evolution(d, i), w.hhn_dynamic_get_central_evolution(d, i))] for i in range(4)], w.hhn_dynamic_get_time(d)
        every, t = read(dyn)
        f = tempfile.NamedTemporaryFile(suffix='.dynamic', delete=False)
        f.close()
        w.hhn_dynamic_write(dyn, f.name)
        back = w.hhn_dynamic_read(f.name)
        os.unlink(f.name)
        again, at = read(back)
        flat = lambda e: [fxs(x) for g in e for x in g]
        rec['dyn'] = flat(every)
        rec['file'] = [flat(again), fxs(at, 1000)]
        for d in (dyn, back):
            w.hhn_dynamic_destroy(d)
        w.hhn_destroy(net)
        rows = every[0]
        if case['collect'] == [1, 1, 1, 1]:
            rec['gates'] = [[fxs(x, 1000000) for x in zip(*r)] for r in zip(every[1], every[2], every[3])]
    thr = p.threshold
    rec.update(v=[fxs(r) for r in rows], t=fxs(t, 1000), pos=[[bool(x >= 0) for x in r] for r in rows], above=[[bool(x > thr) for x in r] for r in rows])
    rec['events'] = any(any(r) for r in rec['pos'] + rec['above'])
    return rec

def run_ls(case):
    from pyclustering.nnet.fsync import fsync_network
    from pyclustering.nnet import conn_type, conn_represent
    n = case['n']
    num = lambda x: [y / 10 for y in x] if len(x) == n and n > 1 else x[0] / 10
    net = fsync_network(n, num(case['w']), num(case['r']), case['kk'] / 10, {'none': conn_type.NONE, 'all': conn_type.ALL_TO_ALL, 'four': conn_type.GRID_FOUR, 'eight': conn_type.GRID_EIGHT, 'list': conn_type.LIST_BIDIR}[case['type']], getattr(conn_represent, case['repr']))
    full = lambda x: x if len(x) == n else x * n
    rec = {'kind': 'ls', 'n': n, 'w': full(case['w']), 'r': full(case['r']), 'kk': case['kk'], 'near': [[j + 1 for j in range(n) if net.has_connection(i, j)] for i in range(n)], 'runs': [], 'tol': 60}
    for collect, steps, step in case['runs']:
        d = net.simulate(steps, steps * step / 1000, collect)
        assert len(d) == len(d.time) and fxs(d[0]) == fxs(d.time) and [fxs(r) for r in d[1]] == [fxs(r) for r in d.output], 'the dynamic is indexed wrongly'
        rec['runs'].append({'collect': collect, 'steps': steps, 'step': step * 1000, 'out': [fxs(r) for r in d.output], 't': fxs(d.time, 1000000)})
    return rec

def kind(case, rec):
    return case['kind'] + '/' + (case['how'] + ('' if case['how'] == 'python' else '/' + case['solver']) if case['kind'] == 'hh' else case['type'])

def nontrivial(case, rec):
    return rec['events'] if case['kind'] == 'hh' else case['kk'] > 0 and case['n'] > 1
