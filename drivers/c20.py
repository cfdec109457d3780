"""C20: WordExtractor counts."""
import random
from common import *
from gen import *
import wx
MODELS = [{'module': 'MC_WordExtract', 'cfg': 'MC_WordExtract.cfg', 'cfg_thorough': 'MC_WordExtract_t.cfg', 'cases': True,
           'actions': ['DoCreate', 'DoTrain', 'DoAdd', 'DoEnd']}]
TRACES = [{'module': 'TR_WordExtract'}]
ASSUMPTIONS = ['sentences are strings, the corpus is sized']


def counts(r, we, asked, text):
    ask = asked if len(asked) < 60 else r.sample(asked, 60)
    def f():
        fr = [[cps(w), *we.frequency(w)] for w in ask + ['없다', '']]
        return {'words': [cps(w) for w in we.words()], 'freq': fr, 'cf': wx.settings(we)}
    yield wx.watch('counts', f)


def corrupt(rec, r):
    evs = [e for e in rec['events'] if e['op'] == 'counts' and not e['exc']]
    if not evs: return None
    e = r.choice(evs)
    if e['words'] and r.random() < 0.4: e['words'].pop(r.randrange(len(e['words'])))
    else: r.choice(e['freq'])[r.choice([1, 2])] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(260 if tier == 'quick' else 4000):
        seed = rng.random()
        yield lambda: wx.history(seed, counts, i % 130 == 60)
        if i % 25 == 7:
            yield lambda: corrupt(wx.history(seed, counts), random.Random(seed))


def replay(module, case):
    cf = {k: v for k, v in case['cf'].items()}
    we = wx.make(cf, None, True)
    rd = [cf['L'], cf['R'], cf['min']]
    for c in case['corpus']:
        sents = [' '.join(uncps(w) for w in s) for s in c['ss']]
        rd.append([sents, c['every'], c['again']])
        g = call(we.train, sents, num_for_pruning=c['every'], cumulate=c['again'])
        if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'train'}
    want = {uncps(w): [n, 0] for w, n in case['left']}
    for w, n in case['right']: want.setdefault(uncps(w), [0, 0])[1] = n
    ask = set(want)
    for c in case['corpus']: ask |= wx.stock([' '.join(uncps(w) for w in s) for s in c['ss']])
    got = {w: list(we.frequency(w)) for w in ask}
    ok = all(got[w] == want.get(w, [0, 0]) for w in ask) and sorted(we.words()) == sorted(uncps(x[0]) for x in case['scores'])
    return {'ok': ok, 'got': repr(got), 'readable': rd, 'clause': 'counts'}
