"""C31: helper functions of soynlp.utils."""
import os, random
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix
from common import *
from gen import *
from soynlp.utils import check_dirs, sort_by_alphabet, most_similar, check_corpus, svd, DoublespaceLineCorpus
MODELS = [{'module': 'MC_Utils', 'cfg': 'MC_Utils.cfg', 'cfg_thorough': 'MC_Utils_t.cfg', 'cases': True, 'kind': 'kind',
           'actions': ['files', 'similar', 'svd']}]
TRACES = [{'module': 'TR_Utils'}]
ASSUMPTIONS = ['vectors have whole lengths, so that similarities are fractions', 'matrices to be decomposed have one value at most in every row and column',
               'no file is in the place of a directory to be created']
TRIPLES = [[3, 4], [4, 3], [5, 0], [0, 5], [0, 0], [-3, 4], [6, 8], [8, 6], [1, 0], [0, 2], [-4, -3], [12, 5], [-5, -12]]
THREES = [[1, 2, 2], [2, 1, 2], [2, 2, 1], [0, 3, 4], [3, 0, 4], [0, 0, 0], [1, 0, 0], [-1, 2, 2], [2, 4, 4], [0, -1, 0], [2, 3, 6], [6, -3, 2]]


def listing(d):
    dirs, files = [], []
    for b, ds, fs in os.walk(d):
        rel = [] if b == d else os.path.relpath(b, d).split(os.sep)
        dirs += [rel + [x] for x in ds]
        for x in fs:
            with open(os.path.join(b, x), encoding='utf-8', newline='') as f: files.append([rel + [x], cps(f.read())])
    return sorted(dirs), sorted(files)


def text(r):
    out = ''
    for _ in range(r.choice([0, 1, 2, 4, 9]) if r.random() > 0.03 else r.choice([30, 120])):
        out += r.choice(['', '', ' ', '\t', '\u3000']) + word(r, '가나ab ', 0, 3) + r.choice(['', '', ' ', '  ']) + r.choice(['\n', '\n', '\n', '\r\n', '\r'])
    return out if r.random() < 0.6 else out.rstrip('\r\n')


class Lens:
    def __init__(self, n): self.n = n
    def __len__(self): return self.n


class Iters:
    def __iter__(self): return iter(['a'])


def corpora(r, d):
    n = r.choice([0, 0, 1, 2, 5])
    k = r.randint(0, 8)
    xs = [['가 나', 'a', '', 'b', 'c'][i] for i in range(n)]
    if k == 0: return Lens(n), (False, True, n)
    if k == 1: return (x for x in xs), (True, False, 0)
    if k == 2: return 7, (False, False, 0)
    if k == 3: return Iters(), (True, False, 0)
    if k == 4:
        p = os.path.join(d, 'corpus')
        with open(p, 'w', encoding='utf-8') as f: f.write(''.join(x + '\n' for x in xs))
        c = DoublespaceLineCorpus(p)
        return c, (True, True, n)
    return r.choice([list, tuple, set, np.array, lambda x: {a: 1 for a in x}])(xs), (True, True, n)


def shown(x):
    return int(round(float(x) * 1000000))


def similar(r):
    pool = r.choice([TRIPLES, THREES])
    n = r.choice([1, 2, 3, 5, 9, 13]) if r.random() > 0.03 else 26
    m = [r.choice(pool) for _ in range(n)]
    words = [w + str(i) for i, w in enumerate((r.choice(['가나다라마바사아자차카타파', 'abcdefghijklm']) * 2)[:n])]
    q = r.randint(1, n) if r.random() < 0.9 else 0
    k = r.choice([10, 10, -1, 0, 1, 2, 3, n - 1, n, 100])
    M = r.choice([np.array, lambda x: np.array(x, dtype=float), csr_matrix, lambda x: csr_matrix(np.array(x, dtype=float))])(m)
    back = words if r.random() < 0.7 else dict(enumerate(words))
    to = {w: i for i, w in enumerate(words)}
    a = (words[q - 1] if q else 'x', M, to, back)
    g = call(most_similar, *a) if k == 10 and r.random() < 0.5 else call(most_similar, *a, k) if r.random() < 0.5 else call(most_similar, *a, topk=k)
    ev = {'op': 'similar', 'm': m, 'q': q, 'k': k, 'exc': g.name if isinstance(g, Exc) else ''}
    if not ev['exc']: ev['ranks'], ev['sims'] = [to[w] + 1 for w, _ in g], [shown(s) for _, s in g]
    return ev, [q, k, ev['exc'] or repr(g)]


def spread(r):
    n, w = r.randint(1, 6), r.randint(2, 7)
    m = [[0] * w for _ in range(n)]
    k = r.randint(1, min(n, w))
    for v, i, j in zip(r.sample(range(1, 30), k), r.sample(range(n), k), r.sample(range(w), k)): m[i][j] = v * r.choice([1, 1, -1])
    return m


def decompose(m, k, seed, iters, dense):
    M = np.array(m, dtype=float) if dense else csr_matrix(np.array(m, dtype=float))
    kw = {} if iters is None else {'n_iter': iters}
    g, h = (call(svd, M, k, random_state=seed, **kw) for _ in range(2))
    if isinstance(g, Exc): return g
    return ([list(map(int, np.shape(x))) for x in g], [shown(x) for x in g[1]], [[shown(x) for x in row] for row in (g[0] * g[1]).dot(g[2])],
            not isinstance(h, Exc) and all(np.array_equal(a, b) for a, b in zip(g, h)))


def history(seed):
    r = random.Random(seed)
    evs, rd = [], []
    back = os.getcwd()
    with scratch() as d:
        try:
            os.chdir(d)
            known = []
            where = lambda p: r.choice(['', '', './', d + '/']) + '/'.join(p)
            for _ in range(r.randint(2, 12)):
                op = r.choice(['write', 'dirs', 'dirs', 'sort', 'sort', 'similar', 'similar', 'corpus', 'svd'])
                ev, note = {'op': op, 'exc': ''}, ''
                if op == 'similar': ev, note = similar(r)
                elif op == 'corpus':
                    with scratch() as e:
                        c, (i, l, n) = corpora(r, e)
                        g = call(check_corpus, c)
                    ev.update(o={'iter': i, 'len': l, 'n': n}, answer=g is True, exc=g.name if isinstance(g, Exc) else '')
                    note = [repr(c)[:80], repr(g)]
                elif op == 'svd':
                    m = spread(r)
                    k = r.randint(1, min(len(m), len(m[0])))
                    if r.random() < 0.1: k = len(m[0]) + r.choice([0, 1])
                    g = decompose(m, k, r.randint(0, 99), r.choice([None, 3, 7]), r.random() < 0.3)
                    ev.update(m=m, k=k)
                    if isinstance(g, Exc): ev['exc'] = g.name
                    else: ev['shapes'], ev['s'], ev['p'], ev['again'] = g
                    note = [m, k, repr(g)]
                else:
                    ds, fs = listing(d)
                    if op == 'sort' and not fs: continue
                    p = r.choice(fs)[0] if op == 'sort' else [word(r, 'ab', 1, 1) for _ in range(r.randint(1, 4))] if op == 'dirs' else \
                        r.choice(ds + [[]]) + [r.choice(['a', 'f', 'b.txt'])]
                    taken = [f[0] for f in fs]
                    if op == 'write' and p in ds: continue
                    if op == 'dirs' and any(p[:i] in taken for i in range(1, len(p))): continue
                    ev['p'] = p
                    if op == 'write':
                        s = text(r)
                        ev['text'] = cps(s)
                        with open('/'.join(p), 'w', encoding='utf-8', newline='') as f: f.write(s)
                        note = [p, s]
                    else:
                        w = where(p)
                        if op == 'dirs' and r.random() < 0.2 and len(p) > 1: w, note = w[:w.rindex('/') + 1], 'dir'
                        g = call(check_dirs if op == 'dirs' else sort_by_alphabet, w)
                        if isinstance(g, Exc): ev['exc'] = g.name
                        note = [w, repr(g)]
                    ev['dirs'], ev['files'] = listing(d)
                evs.append(ev); rd.append([op, note])
                if ev['exc'] and op not in ('corpus', 'svd'): break
        finally:
            os.chdir(back)
    return {'events': evs, 'readable': rd}


def corrupt(rec, r):
    if not rec['events']: return None
    e = r.choice(rec['events'])
    if e['op'] in ('write', 'dirs', 'sort'): e['dirs'].append(['zz'])
    elif e['op'] == 'corpus': e['exc'] = '' if e['exc'] else 'ValueError'; e['answer'] = True
    elif e['exc']: e['exc'] = 'KeyError'
    elif e['op'] == 'svd': e['s'][0] += 7000
    elif e['ranks']: e['sims'][-1] += 500
    else: e['ranks'], e['sims'] = [1], [1000000]
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(500 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    k = case['kind']
    if k == 'files':
        rd = [[o[0], '/'.join(o[1])] + [uncps(x) for x in o[2:]] for o in case['ops']]
        with scratch() as d:
            for o in case['ops']:
                p = os.path.join(d, *o[1])
                if o[0] == 'write':
                    with open(p, 'w', encoding='utf-8', newline='') as f: f.write(uncps(o[2]))
                else:
                    g = call(check_dirs if o[0] == 'dirs' else sort_by_alphabet, p)
                    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': o[0]}
            ds, fs = listing(d)
        return {'ok': [ds, fs] == [sorted(case['dirs']), sorted(case['files'])], 'got': repr([ds, fs]), 'readable': rd, 'clause': 'files and directories'}
    if k == 'svd':
        g = decompose(case['m'], case['k'], 0, None, False)
        near = lambda a, b: abs(a - 1000000 * b) <= 5
        ok = not isinstance(g, Exc) and all(map(near, g[1], case['s'])) and all(near(x, y) for u, v in zip(g[2], case['p']) for x, y in zip(u, v))
        return {'ok': ok, 'got': repr(g), 'readable': [case['m'], case['k']], 'clause': 'singular value decomposition'}
    n = len(case['m'])
    g = call(most_similar, '0', np.array(case['m'], dtype=float), {str(i): i for i in range(n)}, [str(i) for i in range(n)], case['k'])
    ok = not isinstance(g, Exc) and [int(w) + 1 for w, _ in g] in case['rankings'] and \
        all(abs(s * case['sims'][int(w)][1] - case['sims'][int(w)][0]) < 1e-6 * case['sims'][int(w)][1] for w, s in g)
    return {'ok': ok, 'got': repr(g), 'readable': [case['m'], case['k']], 'clause': 'most similar'}
