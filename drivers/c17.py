"""C17: sent_to_word_contexts_matrix."""
import random
from common import *
from gen import *
from soynlp.vectorizer import sent_to_word_contexts_matrix
MODELS = [{'module': 'MC_WordContext', 'cfg': 'MC_WordContext.cfg', 'cfg_thorough': 'MC_WordContext_t.cfg', 'cases': True,
           'actions': ['DoBegin', 'SkipBlank', 'CountWord', 'StartScan', 'ScanWord', 'End']}]
TRACES = [{'module': 'TR_WordContext'}]
ASSUMPTIONS = ['at least one sentence', 'weights are compared as multiples of 1/windows up to 1e-6']


def near(x, k):
    z = int(round(float(x) * k))
    if abs(float(x) * k - z) > 1e-6: raise Unencodable('not a multiple of 1/%d: %r' % (k, x))
    return z


def cells_of(m, k):
    m = m.tocoo()
    return [[int(i), int(j), near(v, k)] for i, j, v in zip(m.row, m.col, m.data) if v != 0]


def run(sents, win, mintf, dyn, tok, r=None):
    kw = dict(verbose=bool(r and r.random() < 0.15))
    if win != 3 or (r and r.random() < 0.5): kw['windows'] = win
    if mintf != 10 or (r and r.random() < 0.5): kw['min_tf'] = mintf
    if dyn: kw['dynamic_weight'] = True
    if tok == 'chars': kw['tokenizer'] = lambda s: [c for c in s if not c.isspace()]
    return call(sent_to_word_contexts_matrix, sents, **kw)


def one(r, many=False):
    alpha = r.choice(['ab', '가나다', 'abcde', '가나'])
    long = r.random() < 0.2
    sents = [sentence(r, alpha, r.randint(0, 16 if long else 8), 1, r.choice([1, 1, 2])) for _ in range(r.randint(1, 5))]
    win, mintf, dyn = r.choice([1, 2, 3, 3, 4, 6, 9]), r.choice([0, 1, 1, 2, 3, 4, 10]), r.random() < 0.4
    if r.random() < 0.1:      # wide windows
        win = r.choice([10, 11, 12, 15, 20, 33])
        sents.append(sentence(r, alpha, r.randint(win - 2, win + 12), 1, 1))
    if r.random() < 0.03:     # large counts
        q = r.choice(alpha)
        sents.append(' '.join([q, r.choice(alpha)] * r.choice([64, 70, 129, 140])))
        win = min(win, 4)
    if many:                  # many sentences
        sents = [sentence(r, alpha, r.choice([0, 1, 1, 1, 2]), 1, 1) for _ in range(r.choice([1005, 1100, 2050]))]
        sents[:3] = [r.choice(['나 z', 'z 나']), 'z', '나']      # a pair met once
        mintf, win = r.choice([0, 1, 2]), r.choice([1, 2, 3])
    tok = r.choice(['white', 'white', 'chars'])
    g = run(sents, win, mintf, dyn, tok, r)
    c = dict(texts=[cps(s) for s in sents], win=win, mintf=mintf, dyn=dyn, tok=tok, exc='', vocab=[], shape=[], cells=[])
    if isinstance(g, Exc): c['exc'] = g.name
    else:
        x, v = g
        c['vocab'], c['shape'], c['cells'] = [cps(w) for w in v], [int(n) for n in x.shape], cells_of(x, win if dyn else 1)
    return c, [sents, win, mintf, dyn, tok, c['exc'], [uncps(w) for w in c['vocab']], c['cells']]


def history(seed, many=False):
    r = random.Random(seed)
    if many:
        c, x = one(r, True)
        return {'calls': [c], 'readable': [x]}
    cs = [one(r) for _ in range(r.randint(1, 4))]
    return {'calls': [c for c, _ in cs], 'readable': [x for _, x in cs]}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['cells']]
    if not cs: return None
    r.choice(r.choice(cs)['cells'])[2] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(300 if tier == 'quick' else 4000):
        seed = rng.random()
        yield lambda: history(seed, i % 150 == 149)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    sents = [' '.join(uncps(w) for w in s) for s in case['sents']]
    g = run(sents, case['win'], case['mintf'], case['dyn'], 'white')
    rd = [sents, case['win'], case['mintf'], case['dyn']]
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'call'}
    x, v = g
    freq = {uncps(w): n for w, n in case['freq']}
    ok = sorted(v) == sorted(freq) and [freq[w] for w in v] == sorted(freq.values(), reverse=True) and x.shape == (len(v), len(v))
    got = sorted([v[i], v[j], n] for i, j, n in cells_of(x, case['win'] if case['dyn'] else 1)) if ok else None
    ok = ok and got == sorted([uncps(a), uncps(b), n] for a, b, n in case['cells'])
    return {'ok': ok, 'got': repr((v, got)), 'readable': rd, 'clause': 'vocabulary or matrix'}
