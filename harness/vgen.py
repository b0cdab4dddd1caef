"""Input generators shared by the drivers: small integer lattices, with duplicates, ties, lines, blobs."""
import random, itertools, math

def points(rng, n, dim, hi, style=None):
    style = style or rng.choice(['uniform', 'uniform', 'blobs', 'dups', 'line', 'same', 'blobs'])
    if style == 'same' and rng.random() < 0.7:
        style = 'uniform'
    if style == 'same':
        p = [rng.randint(0, hi) for _ in range(dim)]
        return [list(p) for _ in range(n)]
    if style == 'uniform':
        return [[rng.randint(0, hi) for _ in range(dim)] for _ in range(n)]
    if style == 'blobs':
        k = rng.randint(1, 3)
        cs = [[rng.randint(0, hi) for _ in range(dim)] for _ in range(k)]
        return [[min(hi, max(0, c + rng.randint(-1, 1))) for c in rng.choice(cs)] for _ in range(n)]
    if style == 'dups':
        k = max(1, n // 2)
        base = [[rng.randint(0, hi) for _ in range(dim)] for _ in range(k)]
        return [list(rng.choice(base)) for _ in range(n)]
    if style == 'line':
        d = rng.randrange(dim)
        base = [rng.randint(0, hi) for _ in range(dim)]
        r = []
        for _ in range(n):
            p = list(base); p[d] = rng.randint(0, hi); r.append(p)
        return r
    raise ValueError(style)

def as_data(pts, kind):
    """kind: 'float' lists, 'int' lists, 'numpy' array, 'tuple'"""
    if kind == 'int':
        return [list(p) for p in pts]
    if kind == 'numpy':
        import numpy
        return numpy.array([[float(x) for x in p] for p in pts])
    return [[float(x) for x in p] for p in pts]

def snapshot(data):
    try:
        return data.tolist()
    except AttributeError:
        return [list(p) if hasattr(p, '__len__') else p for p in data]

def fx(v, scale=10000):
    """fixed point, clamped into 31 bits; not-a-number and infinities are mapped to out-of-range sentinels"""
    v = float(v)
    if v != v:
        return 2000000003
    if v == float('inf') or v * scale > 2000000000:
        return 2000000001
    if v == float('-inf') or v * scale < -2000000000:
        return -2000000001
    return int(math.floor(v * scale + 0.5))

def fxs(vs, scale=10000):
    return [fx(v, scale) for v in vs]

def ints(s):
    return [int(x) for x in s]

def lists(cs):
    return [[int(x) for x in c] for c in cs]
