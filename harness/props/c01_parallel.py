import itertools, random
import ctrl, vlib
PROP = 'C01'
SPECS = {'main': ('ParallelTrace', 'Trace.cfg')}
OWN = ('main',)
NEED_CORE = False
MC = [('Parallel', 'ParallelMC.cfg', ('quick', 'thorough'))]
RULE = ('every range start 0..2, length 0..9 (thorough: 0..24), step 1..4, 1..6 threads for three index types, plus seeded larger ranges, element '
        'sequences of two containers, default threads on machines with 1, 2, 4 and 9 hardware threads; for each, schedules are explored depth-first with '
        'bounded preemptions and at random by a controlled scheduler; non-trivial: more than one distinct interleaving')

def gen(c):
    rng = c.rng
    cases = []
    top = 9 if c.quick else 24
    nd, nr = (40, 15) if c.quick else (150, 60)
    for n in range(0, top + 1):
        for step in (1, 2, 3, 4):
            for th in range(1, 7):
                if c.quick and rng.random() < 0.3:
                    continue
                cases.append({'kind': rng.choice([0, 1, 2]), 'a': rng.randint(0, 2), 'n': n, 's': step, 'th': th, 'hw': 4})
    for n in range(0, top + 5):
        for th in range(1, 8):
            cases.append({'kind': rng.choice([4, 5]), 'a': rng.randint(0, 2), 'n': n, 's': 1, 'th': th, 'hw': 4})
    for hw in (1, 2, 4, 9):
        for n in range(0, 12):
            cases.append({'kind': 3, 'a': 0, 'n': n, 's': 1, 'th': 0, 'hw': hw})
            cases.append({'kind': 6, 'a': 0, 'n': n, 's': 1, 'th': 0, 'hw': hw})
    for k in range(60 if c.quick else 600):
        cases.append({'kind': rng.choice([0, 1, 2, 4, 5]), 'a': rng.randint(0, 5), 'n': rng.randint(10, 70), 's': rng.choice([1, 1, 1, 2, 3, 5, 7, 16]),
                      'th': rng.randint(1, 16), 'hw': 4})
    for k in cases:
        if k['kind'] >= 4:
            k['s'] = 1
        k['nd'], k['b'], k['nr'], k['seed'] = nd, 2, nr, rng.randint(1, 1 << 30)
    return cases

def execute(c, group, cases):
    exe = ctrl.build(c, 'par')
    res = [None] * len(cases)
    for hw in sorted({k['hw'] for k in cases}):
        idx = [i for i, k in enumerate(cases) if k['hw'] == hw]
        out = ctrl.run(exe, ['%d %d %d %d %d %d %d %d %d' % (cases[i]['kind'], cases[i]['a'], cases[i]['a'] + cases[i]['n'], cases[i]['s'], cases[i]['th'],
                                                            cases[i]['nd'], cases[i]['b'], cases[i]['nr'], cases[i]['seed']) for i in idx], hw, c.scratch)
        for i, o in zip(idx, out):
            k = cases[i]
            res[i] = {'start': k['a'], 'end': k['a'] + k['n'], 'step': k['s'], 'runs': o['runs'], 'schedules': o['count'], 'outcome': 'ok'}
            if o['status'] == 'crash':
                res[i] = {'outcome': 'crash', 'detail': str(o['code'])}
    return res

def nontrivial(case, rec):
    return len(rec['runs']) > 1
