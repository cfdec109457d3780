"""C05 MaxScoreTokenizer."""
import copy
from common import *
from gen import *
from soynlp.tokenizer import MaxScoreTokenizer

MODELS = [{'module': 'MC_MaxScore', 'cfg': 'MC_MaxScore.cfg', 'cfg_thorough': 'MC_MaxScore_t.cfg', 'cases': True,
           'actions': ['AnyCall', 'DoShort', 'DoLong', 'DoPick', 'DoFill']}]
TRACES = [{'module': 'TR_MaxScore'}]
ASSUMPTIONS = [
    'scores are multiples of 1/16 in the traces (exact in the model); max_length >= 2',
    'white space is what str.split() splits on',
]
K = 16


def enc_toks(toks):
    return [[[cps(w), b, e, scaled(s, K), n] for (w, b, e, s, n) in eo] for eo in toks]


def make(dic, maxlen, ds):
    kw = {}
    if maxlen != 10:
        kw['max_length'] = maxlen
    if ds != 0:
        kw['default_score'] = ds / K
    if not dic and maxlen % 2: return MaxScoreTokenizer(**kw)
    return MaxScoreTokenizer(scores={w: s / K for w, s in dic.items()}, **kw)


def run(tok, text, form):
    if form == 'flat':
        return call(tok.tokenize, text)
    if form == 'callflat':
        return call(tok, text)
    if form == 'callfull':
        return call(tok, text, flatten=False)
    return call(tok.tokenize, text, flatten=False)


def observe(got, text, form):
    flat = form.endswith('flat')
    c = {'text': cps(text), 'form': 'flat' if flat else 'full', 'exc': '', 'words': [], 'toks': []}
    if isinstance(got, Exc):
        c['exc'] = got.name
    elif flat:
        c['words'] = [cps(w) for w in got]
    else:
        c['toks'] = enc_toks(got)
    return c


def build(dic, maxlen, ds, texts, forms):
    tok = make(dic, maxlen, ds)
    got = [run(tok, t, f) for t, f in zip(texts, forms)]
    def rec():
        return {'dict': [[cps(w), s] for w, s in dic.items()], 'maxlen': maxlen, 'ds': ds,
                'calls': [observe(g, t, f) for g, t, f in zip(got, texts, forms)],
                'readable': {'scores': {w: s / K for w, s in dic.items()}, 'max_length': maxlen,
                             'default_score': ds / K, 'calls': list(zip(texts, forms)), 'results': repr(got)[:3000]}}
    return rec


def corrupt(rec, rng):
    r = copy.deepcopy(rec)
    c = rng.choice([x for x in r['calls'] if x['words'] or x['toks']])
    if c['words']:
        c['words'][rng.randrange(len(c['words']))].append(97)
    else:
        tk = rng.choice(rng.choice(c['toks']))
        tk[rng.choice([1, 2, 3, 4])] += 1
    r['canary'] = True
    return r


def record(module, rng, tier):
    n = 260 if tier == 'quick' else 2500
    canaries = 0
    forms = ['flat', 'full', 'full', 'callflat', 'callfull']
    for i in range(n):
        if i % 50 == 24:          # long eojeols: more than a hundred words
            alpha = KO + 'xyz'
            texts = [word(rng, alpha, 201, 240) + rng.choice(['', ' ab', ' ' + word(rng, alpha, 2, 40)])]
            ml = rng.choice([2, 2, 3])
        else:
            alpha = rng.choice([KO[:2], KO[:3], KO, 'ab', SYL, 'a1,가', 'é가\U0001F600b'])
            big = i % 10 == 9
            texts = [sentence(rng, alpha, rng.randint(1, 4), 1, rng.choice([3, 6, 14] if not big else [24]))
                     for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.04:
                texts.append(sentence(rng, alpha, rng.choice([25, 40]), 1, 5))
            if rng.random() < 0.05:
                texts.append(rng.choice(['', ' ', '\t\n']))
            ml = rng.choice([2, 3, 4, 5, 10, 10, 10, 12, 15])
        dic = {}
        for w in subwords(rng, texts, rng.randint(0, 14), 1, rng.choice([3, 5, 16])):
            dic[w] = rng.choice([16, 16, 8, 12, 4, 1, 0, -8, rng.randint(-40, 60)])
        for w in [word(rng, alpha, 1, 5) for _ in range(rng.randint(0, 4))]:
            dic[w] = rng.randint(-16, 32)
        ds = rng.choice([0, 0, 0, 8, -8, 20])
        fs = [rng.choice(forms) for _ in texts]
        item = build(dic, ml, ds, texts, fs)
        yield item
        if i % 30 == 5:
            def can(item=item):
                return corrupt(item(), rng)
            yield can
    # one object, the same sentence again after others
    t1, t2 = '아이스크림을좋아해', '크림파스타는 맛있다'
    yield build({'아이스': 8, '크림': 8, '아이스크림': 16, '파스타': 12}, 10, 0, [t1, t2, t1, t1], ['full', 'flat', 'full', 'callflat'])
    yield build({}, 10, 0, [t1], ['full'])
    yield build({}, 10, 8, ['가나다라마바사아자차카타파하' * 3], ['full'])


def replay(module, case):
    dic = {uncps(w): s for w, s in case['dict']}
    text = uncps(case['text'])
    tok = make(dic, case['maxlen'], case['ds'])
    got = run(tok, text, 'full')
    want = case['out']
    obs = None if isinstance(got, Exc) else enc_toks(got)
    return {'ok': obs == want, 'got': repr(got), 'clause': 'tokens', 'readable': [text, dic, case['maxlen']]}
