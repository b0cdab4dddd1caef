import ctrl, vlib
PROP = 'C02'
SPECS = {'main': ('ThreadPoolTrace', 'Trace.cfg')}
OWN = ('main',)
NEED_CORE = False
MC = [('ThreadPool', 'ThreadPoolMC.cfg', ('quick', 'thorough')), ('ThreadPool', 'ThreadPoolMCFree.cfg', ('quick', 'thorough')), ('ThreadPool', 'ThreadPoolMCBig.cfg', ('thorough',))]
RULE = ('pools of 1..4 threads, 1..3 clients with 0..4 tasks each, seven waiting patterns (after all, one by one, reversed, twice, submission of some or all tasks only if a thread is free, tasks that wait for each other); '
        'schedules explored depth-first with bounded preemptions and at random by a controlled scheduler; non-trivial: more than one distinct interleaving')

def gen(c):
    rng = c.rng
    cases = []
    for size in (1, 2, 3, 4):
        for w in (0, 1, 2, 3, 5, 6, 7):
            for nt in ([0], [1], [2], [3], [4], [1, 1], [2, 1], [2, 2], [0, 2], [1, 1, 1], [3, 2, 1]):
                if c.quick and size == 4 and len(nt) > 1:
                    continue
                cases.append({'size': size, 'w': w, 'nt': nt, 'nd': 700 if c.quick else 6000, 'b': 2 if c.quick else 3, 'nr': 200 if c.quick else 1500, 'seed': rng.randint(1, 1 << 30),
                              'keep': 250 if c.quick else 3000})
    return cases

def execute(c, group, cases):
    exe = ctrl.build(c, 'pool', ['parallel/'])
    out = ctrl.run(exe, ['%d %d %d %d %d %d %d %s' % (k['size'], len(k['nt']), k['w'], k['nd'], k['b'], k['nr'], k['seed'], ' '.join(map(str, k['nt']))) for k in cases], 4, c.scratch)
    res = []
    for k, o in zip(cases, out):
        runs = o['runs']
        if len(runs) > k['keep']:            # every distinct history was executed; a seeded selection is validated
            import random
            runs = random.Random(k['seed']).sample(runs, k['keep'])
        res.append({'outcome': 'crash', 'detail': str(o['code'])} if o['status'] == 'crash' else
                   {'size': k['size'], 'runs': runs, 'schedules': o['count'], 'histories': len(o['runs']), 'outcome': 'ok'})
    return res

def nontrivial(case, rec):
    return len(rec['runs']) > 1
