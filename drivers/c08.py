"""C08: NounLMatchTokenizer and NounMatchTokenizer."""
import random
from common import *
from gen import *
from soynlp.tokenizer import NounLMatchTokenizer, NounMatchTokenizer
MODELS = [{'module': 'MC_NounTok', 'cfg': 'MC_NounTok.cfg', 'cfg_thorough': 'MC_NounTok_t.cfg', 'cases': True,
           'actions': ['Begin', 'DoTake', 'DoExtend', 'DoStop', 'DoMatch']}]
TRACES = [{'module': 'TR_NounTok'}]
ASSUMPTIONS = ['noun scores are multiples of 1/16', 'the empty string is not a noun']
K = 16


def make(kind, dic, r=None):
    if kind == 'M':
        return NounMatchTokenizer({w: s / K for w, s in dic.items()})
    conv = [set, list, tuple, lambda d: {w: s / K for w, s in d.items()}, frozenset]
    return NounLMatchTokenizer((r.choice(conv) if r else set)(dic))


def run(tok, kind, text, compose, form, via):
    f = tok if via else tok.tokenize
    kw = {}
    if not compose: kw['compose_compound'] = False
    if kind == 'M' and form == 'full': kw['flatten'] = False
    return call(f, text, **kw)


def enc(g):
    return [[[cps(w), b, e, scaled(s, K), n] for w, b, e, s, n in eo] for eo in g]


def history(seed):
    r = random.Random(seed)
    kind = r.choice('LM')
    alpha = r.choice([KO[:2], KO[:3], KO, 'ab', SYL])
    texts = [sentence(r, alpha, r.randint(0, 4), 1, r.choice([3, 6, 12, 22])) for _ in range(r.randint(1, 4))]
    if r.random() < 0.04: texts.append(sentence(r, alpha, *r.choice([(25, 1, 3), (2, 25, 45)])))
    if r.random() < 0.3: texts.append(texts[0])
    dic = {w: r.choice([16, 16, 8, 12, 4, 0, -8, r.randint(1, 40)]) for w in subwords(r, texts, r.randint(0, 12), 1, r.choice([2, 4, 12]))}
    tok = make(kind, dic, r)
    calls, text = [], []
    for s in texts:
        compose = r.random() < 0.6
        form = r.choice(['full', 'words']) if kind == 'M' else 'words'
        g = run(tok, kind, s, compose, form, r.random() < 0.4)
        c = {'text': cps(s), 'compose': compose, 'form': form, 'exc': '', 'words': [], 'full': []}
        if isinstance(g, Exc): c['exc'] = g.name
        elif form == 'full': c['full'] = enc(g)
        else: c['words'] = [cps(w) for w in g]
        calls.append(c)
        text.append([s, compose, form, repr(g)])
    return {'kind': kind, 'dict': [[cps(w), s] for w, s in dic.items()], 'calls': calls,
            'readable': {'kind': kind, 'nouns': {w: s / K for w, s in dic.items()}, 'calls': text}}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['words'] or any(c['full'])]
    if not cs: return None
    c = r.choice(cs)
    if c['words']: c['words'].pop(r.randrange(len(c['words'])))
    else: [e for e in c['full'] if e][0][0][3] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 4000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    tok = make(case['kind'], {uncps(w): s for w, s in case['dict']})
    g = run(tok, case['kind'], uncps(case['text']), case['compose'], 'full', False)
    if isinstance(g, Exc):
        return {'ok': False, 'got': repr(g), 'readable': uncps(case['text'])}
    if case['kind'] == 'M':
        ok = enc(g) == case['out']
    else:
        ok = [cps(w) for w in g] == [x[0] for e in case['out'] for x in e]
    return {'ok': ok, 'got': repr(g), 'readable': [uncps(case['text']), case['dict'], case['compose']]}
