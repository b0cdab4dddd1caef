import random
from vgen import *
import ctrl
PROP = 'C03'
SPECS = {'py': ('KdTreeTrace', 'Trace.cfg'), 'cpp': ('KdTreeTrace', 'Trace.cfg')}
OWN = ('cpp',)
NEED_CORE = False
MC = [('KdTree', 'KdTreeMC.cfg', ('quick', 'thorough')), ('KdTree', 'KdTreeMCBig.cfg', ('thorough',))]
RULE = ('seeded histories of insertions and removals (by coordinates, by payload, of absent points, down to the empty tree and up again) over small lattices in '
        '1-3 dimensions with duplicates, starting from an empty tree or from a data set, with lookups and radius queries in between; Python tree (list and array '
        'points) and C++ tree, plus balanced trees; non-trivial: at least three removals of contained points or ten queries')
CODES = {'ins': 1, 'del': 2, 'delw': 3, 'find': 4, 'findw': 5, 'near': 6, 'best': 7, 'near2': 8}

def history(rng, quick):
    dim = rng.choice([1, 2, 2, 2, 3])
    hi = rng.choice([1, 2, 3, 5, 9])
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 12, 18])
    pt = lambda: [rng.randint(0, hi) for _ in range(dim)]
    havepay = rng.random() < 0.6
    same = rng.random() < 0.3
    nxt = [0]
    def pay():
        nxt[0] += 1
        return rng.randint(1, 2) if same else nxt[0]
    init = [[p, pay() if havepay else 0] for p in points(rng, n, dim, hi)] if n else []
    balanced = n > 0 and rng.random() < 0.15
    bag = [list(x) for x in init]
    ops = []
    style = rng.random()
    for k in range(rng.choice([4, 8, 14, 22, 30])):
        x = rng.random()
        if balanced:
            x = 0.7 + 0.3 * x
        grow = 0.45 if style < 0.5 else (0.2 if style < 0.8 else 0.32)
        if x < grow:
            p, w = pt(), pay()
            ops.append(['ins', p, w]); bag.append([p, w])
        elif x < 0.7:
            if bag and rng.random() < 0.9:
                b = rng.choice(bag)
                ops.append(['del', b[0], 0] if rng.random() < 0.5 else ['delw', b[0], b[1]])
                if ops[-1][0] == 'delw': bag.remove(b)
                else:
                    # which of the equal points goes is the tree's choice; keep the generator's bag approximate
                    bag.remove(b)
            else:
                ops.append(['del', pt(), 0] if rng.random() < 0.5 else ['delw', pt(), rng.randint(0, 3)])
        else:
            q = rng.choice(bag)[0] if bag and rng.random() < 0.4 else [rng.randint(-1, hi + 1) for _ in range(dim)]
            kind = rng.choice(['find', 'findw', 'near', 'near', 'best', 'best', 'near2'])
            arg = 0 if kind == 'find' else (rng.choice(bag)[1] if bag and rng.random() < .6 else rng.randint(0, 3)) if kind == 'findw' else rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12])
            if kind == 'findw' and bag and rng.random() < 0.5:
                b = rng.choice(bag); q, arg = b[0], b[1]
            ops.append([kind, q, arg])
    return {'dim': dim, 'init': init, 'havepay': havepay, 'balanced': balanced, 'ops': ops, 'kind': rng.choice(['float', 'float', 'numpy'])}

def gen(c):
    n = 700 if c.quick else 12000
    return {'py': [history(c.rng, c.quick) for _ in range(n)], 'cpp': [history(c.rng, c.quick) for _ in range(n)]}

def record(case, answers):
    ops = []
    for (op, a, w), r in zip([['init', [], 0]] + case['ops'], answers):
        op = 'near' if op == 'near2' else op
        e = {'op': op}
        if op != 'init': e['a'] = a
        if op in ('ins', 'delw', 'findw'): e['w'] = w
        if op in ('near', 'best'): e['r2'] = w
        e.update(r)
        ops.append(e)
    return {'dim': case['dim'], 'init': [[p, w] for p, w in case['init']], 'ops': ops, 'outcome': 'ok'}

def run_case(case):
    from pyclustering.container.kdtree import kdtree, kdtree_balanced
    import numpy
    mk = (lambda p: numpy.array([float(x) for x in p])) if case['kind'] == 'numpy' else (lambda p: [float(x) for x in p])
    cls = kdtree_balanced if case['balanced'] else kdtree
    pts = [mk(p) for p, w in case['init']]
    pays = [w for p, w in case['init']] if case['havepay'] else None
    t = cls(pts, pays) if pts else kdtree()
    pos = {}
    def dump():
        pos.clear()
        v = []
        def walk(n):
            if n is None or len(v) > 1000: return
            v.append(n); pos[id(n)] = len(v)
            walk(n.left); walk(n.right)
        walk(t.get_root())
        ix = lambda n: 0 if n is None else pos.get(id(n), -1)
        return {'size': len(t), 'nodes': [{'p': [int(round(x)) for x in n.data], 'w': n.payload or 0, 'd': n.disc, 'l': ix(n.left), 'r': ix(n.right), 'u': ix(n.parent)} for n in v]}
    ix = lambda n: 0 if n is None else pos.get(id(n), -1)
    ans = [dump()]
    for op, a, w in case['ops']:
        p = mk(a)
        if op == 'ins': t.insert(p, w); ans.append(dump())
        elif op == 'del': t.remove(p); ans.append(dump())
        elif op == 'delw': t.remove(p, payload=(w or None)); ans.append(dump())
        elif op == 'find': ans.append({'res': ix(t.find_node(p))})
        elif op == 'findw': ans.append({'res': ix(t.find_node_with_payload(p, w or None))})
        elif op in ('near', 'near2'):
            r = t.find_nearest_dist_nodes(p, w / 2.0)
            ans.append({'res': [ix(n) for d, n in r], 'dist': [int(round(d)) for d, n in r]})
        else:
            n = t.find_nearest_dist_node(p, w / 2.0)
            n2 = t.find_nearest_dist_node(p, w / 2.0, True)
            assert (n is None) == (n2 is None) and (n is None or n2[1].data is not None), 'distance variant of the nearest node differs'
            ans.append({'res': [] if n is None else [ix(n)]})
    return record(case, ans)

def execute(c, group, cases):
    exe = ctrl.build(c, 'kd', ['container/kd', 'utils/metric'], shim=False)
    f = lambda p: ' '.join(map(str, p))
    lines = []
    for k in cases:
        lines.append('%d %d %d %s %d %d %s' % (k['dim'], len(k['init']), k['havepay'], ' '.join('%s %d' % (f(p), w) for p, w in k['init']), k['balanced'], len(k['ops']),
                                               ' '.join('%d %s %d' % (CODES[o], f(a), w) for o, a, w in k['ops'])))
    return [{'outcome': 'crash', 'detail': str(o['crash'])} if isinstance(o, dict) else record(k, o) for k, o in zip(cases, ctrl.run(exe, lines, 4, c.scratch))]

def nontrivial(case, rec):
    return sum(o[0] in ('del', 'delw') for o in case['ops']) >= 3 or sum(o[0] not in ('del', 'delw', 'ins') for o in case['ops']) >= 10
