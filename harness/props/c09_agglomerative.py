from vgen import *
PROP = 'C09'
SPEC, CFG = 'AgglomerativeTrace', 'Trace.cfg'
MC = [('Agglomerative', 'AgglomerativeMC.cfg', ('quick', 'thorough')), ('Agglomerative', 'AgglomerativeMCBig.cfg', ('thorough',))]
RULE = ('seeded lattice data (1-3 dimensions; duplicates, lines, blobs, ties), each clustered into n, n-1, ..., 1 clusters by every link and both cores, lists and arrays; '
        'every step of the hierarchy is a merge of a closest pair; non-trivial: at least three objects')
LINKS = ['single', 'complete', 'average', 'centroid']

def gen(c):
    rng = c.rng
    cases = []
    for k in range(800 if c.quick else 10000):
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10] if c.quick or rng.random() < .8 else [11, 12])
        pts = points(rng, n, dim, rng.choice([3, 7, 15]))
        cases.append({'pts': pts, 'link': LINKS[k % 4], 'ccore': k // 4 % 2 == 0, 'data': rng.choice(['float', 'int', 'numpy'])})
    return cases

def run_case(case):
    from pyclustering.cluster.agglomerative import agglomerative, type_link
    link = {'single': type_link.SINGLE_LINK, 'complete': type_link.COMPLETE_LINK, 'average': type_link.AVERAGE_LINK, 'centroid': type_link.CENTROID_LINK}[case['link']]
    parts = []
    for k in range(len(case['pts']), 0, -1):
        data = as_data(case['pts'], case['data'])
        before = snapshot(data)
        parts.append(lists(agglomerative(data, k, link if case['link'] != 'centroid' or k % 2 else None, case['ccore']).process().get_clusters()))
        assert snapshot(data) == before, 'input data modified'
    return {'pts': case['pts'], 'link': case['link'], 'parts': parts}

def kind(case, rec):
    return '%s/%s' % (case['link'], 'c++' if case['ccore'] else 'python')

def nontrivial(case, rec):
    return len(case['pts']) > 2
