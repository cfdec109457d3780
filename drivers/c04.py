"""C04: LTokenizer."""
import copy, random
from common import *
from gen import *
from soynlp.tokenizer import LTokenizer
MODELS = [{'module': 'MC_LTok', 'cfg': 'MC_LTok.cfg', 'cfg_thorough': 'MC_LTok_t.cfg', 'cases': True,
           'actions': ['Begin', 'DoCut']}]
TRACES = [{'module': 'TR_LTok'}]
ASSUMPTIONS = ['scores and tolerances are multiples of 1/16 in the traces (exact in the model)']
K = 16


def run(tok, text, tol, form, via):
    f = tok if via else tok.tokenize
    kw = {}
    if tol: kw['tolerance'] = tol / K
    if form == 'pairs': kw['flatten'] = False
    if form == 'L': kw['remove_r'] = True
    if form == 'L2': kw.update(remove_r=True, flatten=False)
    return call(f, text, **kw)


def history(seed):
    r = random.Random(seed)
    alpha = r.choice([KO[:2], KO[:3], KO, 'ab', SYL, 'a1,가'])
    texts = [sentence(r, alpha, r.randint(0, 5), 1, r.choice([3, 6, 12, 40])) for _ in range(r.randint(1, 4))]
    if r.random() < 0.3: texts.append(texts[0])
    if r.random() < 0.04: texts.append(sentence(r, alpha, r.choice([25, 60]), 1, 6))
    dic = {}
    ws = [w for t in texts for w in t.split()]
    for _ in range(r.randint(0, 14)):
        if ws:
            w = r.choice(ws)
            dic[w[:r.randint(1, len(w))]] = r.choice([16, 16, 8, 8, 12, 0, -8, 1, r.randint(-20, 40)])
    ds = r.choice([0, 0, 0, 8, -4, 20])
    if r.random() < 0.08: dic = {}
    tok = r.choice([LTokenizer, lambda: LTokenizer(None)])() if not dic and not ds else LTokenizer({w: s / K for w, s in dic.items()}) if not ds else LTokenizer(scores={w: s / K for w, s in dic.items()}, default_score=ds / K)
    calls, text = [], []
    for t in texts:
        tol = r.choice([0, 0, 0, 1, 4, 8, 16, 40])
        form = r.choice(['words', 'pairs', 'pairs', 'L', 'L2'])
        via = r.random() < 0.4
        g = run(tok, t, tol, form, via)
        c = {'text': cps(t), 'tol': tol, 'form': 'L' if form == 'L2' else form, 'exc': '', 'words': [], 'pairs': []}
        if isinstance(g, Exc): c['exc'] = g.name
        elif form == 'pairs': c['pairs'] = [[cps(a), cps(b)] for a, b in g]
        else: c['words'] = [cps(w) for w in g]
        calls.append(c)
        text.append([t, tol / K, form, repr(g)])
    return {'dict': [[cps(w), s] for w, s in dic.items()], 'ds': ds, 'calls': calls,
            'readable': {'scores': {w: s / K for w, s in dic.items()}, 'default': ds / K, 'calls': text}}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['words'] or c['pairs']]
    if not cs: return None
    c = r.choice(cs)
    if c['words']: c['words'].pop()
    else:
        p = r.choice(c['pairs'])
        p[0], p[1] = p[0][:-1], p[0][-1:] + p[1]
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(320 if tier == 'quick' else 3200):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    tok = LTokenizer({uncps(w): s / K for w, s in case['dict']}, default_score=case['ds'] / K)
    g = run(tok, uncps(case['text']), case['tol'], 'pairs', False)
    got = None if isinstance(g, Exc) else [[cps(a), cps(b)] for a, b in g]
    return {'ok': got == case['out'], 'got': repr(g), 'readable': [case['dict'], uncps(case['text']), case['tol']]}
