"""C18: pmi."""
import math, random
from fractions import Fraction
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix
from common import *
from soynlp.word import pmi
from soynlp.word._pmi import pmi_memory_friendly
MODELS = [{'module': 'MC_Pmi', 'cfg': 'MC_Pmi.cfg', 'cfg_thorough': 'MC_Pmi_t.cfg', 'cases': True,
           'actions': ['DoBegin', 'DoGiven', 'DoRow', 'Finish']}]
TRACES = [{'module': 'TR_Pmi'}]
ASSUMPTIONS = ['the matrix has a positive total', 'alpha is a multiple of 1/16', 'beta is 1, or 1/2 with square context weights (exact roots)',
               'a value equal to the minimum may be kept or dropped (rounding)']


def loud(X, **kw):
    return pmi_memory_friendly(X, verbose=True, **kw)


def frac(x, limit):
    q = Fraction(float(x)).limit_denominator(limit)
    if abs(float(q) - float(x)) > 1e-9 * max(1, abs(float(x))): raise Unencodable('not a small fraction: %r' % x)
    return [q.numerator, q.denominator]


def run(m, given, half, whole, alpha, least, kind=csr_matrix, dtype=int, explicit=True, f=pmi):
    X = kind(np.array(m, dtype=dtype))
    kw = {}
    py = None
    if given:
        py = np.array([given], dtype=float) / whole
        kw['py'] = py
    if half: kw['beta'] = 0.5
    if alpha or explicit: kw['alpha'] = alpha / 16
    if least != [1, 1]: kw['min_pmi'] = math.log(least[0] / least[1])
    keepX, keepy = X.toarray().tolist(), None if py is None else py.tolist()
    g = call(f, X, **kw)
    if X.toarray().tolist() != keepX: raise Unencodable('the count matrix was changed')
    if py is not None and py.tolist() != keepy: raise Unencodable('the given probabilities were changed')
    return g


def observe(g):
    p, px, py = g
    q = p.tocoo()
    return ([int(x) for x in p.shape],
            [[int(i) + 1, int(j) + 1, frac(math.exp(v), 40000)] for i, j, v in zip(q.row, q.col, q.data) if v != 0],
            [frac(x, 2000) for x in np.asarray(px).reshape(-1)], [frac(x, 2000) for x in np.asarray(py).reshape(-1)])


def one(r):
    n, k = r.randint(1, 4), r.randint(1, 4)
    if r.random() < 0.03: n, k = r.choice([(11, 2), (2, 11), (17, 3), (8, 8)])
    half = r.random() < 0.3
    given, whole = [], 0
    if r.random() < 0.25:
        given = [r.choice([0, 1, 4, 9] if half else [0, 1, 2, 3, 5]) for _ in range(k)]
        if not sum(given): given[0] = 1
        whole = sum(given) + r.choice([0, 0, 2])
    cols = []
    for j in range(k):
        tot = r.choice([0, 1, 4, 4, 9, 16]) if half and not given else r.choice([0, 1, 2, 3, 5, 7, 12])
        col = [0] * n
        for _ in range(tot): col[r.choice([r.randrange(n), 0])] += 1
        cols.append(col)
    m = [[cols[j][i] for j in range(k)] for i in range(n)]
    if not sum(map(sum, m)):
        m[0][0] = 1
    alpha = r.choice([0, 0, 1, 4, 16])
    least = r.choice([[1, 1], [1, 1], [2, 1], [3, 2], [1, 2], [1, 50], [5, 4]])
    g = run(m, given, half, whole, alpha, least, r.choice([csr_matrix, csr_matrix, csc_matrix, coo_matrix]), r.choice([int, float]), r.random() < 0.5, r.choice([pmi, pmi, pmi_memory_friendly, loud]))
    c = dict(m=m, given=given, half=half, whole=whole, alpha=alpha, least=least, exc='', shape=[], cells=[], px=[], py=[])
    if isinstance(g, Exc): c['exc'] = g.name
    else: c['shape'], c['cells'], c['px'], c['py'] = observe(g)
    return c


def history(seed):
    r = random.Random(seed)
    cs = [one(r) for _ in range(r.randint(1, 4))]
    return {'calls': cs, 'readable': [[c['m'], 'py', c['given'], 'beta', .5 if c['half'] else 1, 'alpha', c['alpha'] / 16, 'min', c['least'], c['exc'], c['cells']] for c in cs]}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['cells']]
    if not cs: return None
    r.choice(r.choice(cs)['cells'])[2][0] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    f = pmi if sum(map(sum, case['m'])) % 3 else pmi_memory_friendly
    g = run(case['m'], case['g'], case['half'], case['whole'], case['alpha'], case['least'], f=f)
    rd = {k: case[k] for k in ('m', 'g', 'half', 'whole', 'alpha', 'least')}
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'call'}
    A = g[0].toarray()
    want = {(i - 1, j - 1): Fraction(*q) for i, j, q in case['kept']}
    low = Fraction(*case['least'])
    ok = A.shape == (len(case['m']), len(case['m'][0]))
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            q = want.get((i, j))
            v = A[i, j]
            zero, right = abs(v) < 1e-9, q is not None and abs(v - math.log(q)) < 1e-9
            ok = ok and (right or (zero and (q is None or q == low)))
    py = np.asarray(g[2]).reshape(-1)
    ok = ok and all(abs(p - w / case['W']) < 1e-12 for p, w in zip(py, case['w']))
    return {'ok': bool(ok), 'got': repr((A.tolist(), py.tolist())), 'readable': rd, 'clause': 'pmi'}
