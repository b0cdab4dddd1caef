from vgen import *
import itertools
PROP = 'C19'
SPEC, CFG = 'EncoderTrace', 'Trace.cfg'
NEED_CORE = False
MC = [('Encoder', 'EncoderMC.cfg', ('quick', 'thorough')), ('Encoder', 'EncoderMCBig.cfg', ('thorough',))]
RULE = ('all clusterings of up to 4 objects in up to 3 clusters or none (noise) with one conversion, and seeded clusterings of up to 9 objects with histories of up to 8 conversions; objects are numbers, lists or tuples, '
        'with duplicates (also 1 and 1.0); every starting representation, empty clusters; non-trivial: a conversion between different representations')
FORMS = ['label', 'index', 'object']

def lists_of(rng, lab, m):
    cl = [[i for i in range(len(lab)) if lab[i] == c] for c in range(1, m + 1)]
    if rng:
        for c in cl:
            rng.shuffle(c)
    return cl

def gen(c):
    rng = c.rng
    cases = []
    for n in (1, 2, 3, 4):
        for lab in itertools.product(range(4), repeat=n):
            if not c.quick or n < 4 or rng.random() < .4:
                f = rng.choice(FORMS)
                vals = rng.choice([list(range(n)), [0] * n, [rng.randrange(2) for _ in range(n)]])
                cases.append({'vals': vals, 'lab': list(lab), 'm': max(lab), 'cl': lists_of(None, lab, max(lab)), 'form': f, 'ops': [g for g in FORMS if g != f] + [f], 'obj': rng.choice(['num', 'list', 'tuple', 'mixed'])})
    for k in range(1500 if c.quick else 20000):
        n = rng.randint(1, 9)
        m = rng.randint(1, 4)
        lab = [rng.randint(0, m) if rng.random() < .8 else 0 for _ in range(n)]
        if rng.random() < .3:
            lab = [max(1, x) for x in lab]
        vals = rng.choice([list(range(n)), [rng.randrange(3) for _ in range(n)], [rng.randrange(n) for _ in range(n)]])
        f = rng.choice(FORMS)
        mm = m if f != 'label' and rng.random() < .3 else max(lab)
        cases.append({'vals': vals, 'lab': lab, 'm': mm, 'cl': lists_of(rng, lab, mm), 'form': f, 'ops': [rng.choice(FORMS) for _ in range(rng.randint(1, 8))], 'obj': rng.choice(['num', 'list', 'tuple', 'mixed'])})
    return cases

def run_case(case):
    from pyclustering.cluster.encoder import cluster_encoder, type_encoding as T
    code = {'label': T.CLUSTER_INDEX_LABELING, 'index': T.CLUSTER_INDEX_LIST_SEPARATION, 'object': T.CLUSTER_OBJECT_LIST_SEPARATION}
    def obj(i, v):
        if case['obj'] == 'num':
            return float(v)
        if case['obj'] == 'tuple':
            return (float(v), 2.5)
        if case['obj'] == 'mixed':
            return [v, 1] if i % 2 else [float(v), 1.0]
        return [float(v), -1.0]
    def val(o):
        return int(round(o if case['obj'] == 'num' else o[0])) + 1
    data = [obj(i, v) for i, v in enumerate(case['vals'])]
    before = snapshot(data)
    f = case['form']
    given = [float('NaN') if x == 0 else x - 1 for x in case['lab']] if f == 'label' else [list(x) for x in case['cl']] if f == 'index' else [[data[i] for i in x] for x in case['cl']]
    def enc(form, cl):
        if form == 'label':
            return [0 if x != x else int(x) + 1 for x in cl]
        if form == 'index':
            return [[int(i) + 1 for i in x] for x in cl]
        return [[val(o) for o in x] for x in cl]
    first = enc(f, given)
    e = cluster_encoder(code[f], given, data)
    ev = []
    for g in case['ops']:
        r = e.set_encoding(code[g])
        assert r is e or r is None, 'set_encoding returns something else'
        said = {v: k for k, v in code.items()}[e.get_encoding]
        ev.append({'to': g, 'said': said, 'cl': enc(said, e.get_clusters())})
    return {'data': [v + 1 for v in case['vals']], 'form': f, 'cl': first, 'ev': ev, 'untouched': snapshot(data) == before and e.get_data() is data}

def kind(case, rec):
    return case['form'] + '/' + case['obj']

def nontrivial(case, rec):
    return any(g != case['form'] for g in case['ops'])
