"""C07: MaxLRScoreTokenizer."""
import copy, random
from common import *
from gen import *
from soynlp.tokenizer import MaxLRScoreTokenizer
MODELS = [{'module': 'MC_MaxLR', 'cfg': 'MC_MaxLR.cfg', 'cfg_thorough': 'MC_MaxLR_t.cfg', 'cases': True,
           'actions': ['Begin', 'DoTake', 'DoSubset', 'DoScore', 'DoPick', 'DoFill']}]
TRACES = [{'module': 'TR_MaxLR'}]
ASSUMPTIONS = ['scores are non-negative multiples of 1/16, thresholds multiples of 1/160; preferences may be negative',
               'a tokenizer_builder returns dictionaries of its own each time']
U = 160


def enc_entry(p):
    return [cps(p[0]), cps(p[1])] + [int(x) for x in p[2:8]] + [scaled(x, U) for x in p[8:]]


def table(d, as_list=False):
    return list(d) if as_list else {w: s / U for w, s in d.items()}


def make(dl, dr, pl, pr, th, lists=(False, False), built=None):
    kw = {}
    for k, name, default in (('diff', 'max_lscore_difference', 48), ('ratio', 'max_lscore_diffratio', 80),
                             ('ensl', 'ensurable_score_l', 80), ('ensd', 'ensurable_score_lr_diff', 48)):
        if th[k] != default:
            kw[name] = th[k] / U
    if pl: kw['preference_l'] = table(pl)
    if pr: kw['preference_r'] = table(pr)
    if len(dl) % 3 == 1: kw['lrgraph'] = {'가': {'나': 3, '': 1}, 'ab': {'a': 2}}      # has no say without a builder
    if built:
        def builder(graph):      # what it gets is what it was given
            same = graph == {'가': {'나': 3, '': 1}, 'ab': {'a': 2}}
            return tuple(table(x) for x in built) if same else ({}, {})
        kw.update(lrgraph={'가': {'나': 3, '': 1}, 'ab': {'a': 2}}, tokenizer_builder=builder)
    if not dl and not dr: return call(MaxLRScoreTokenizer, **kw)
    return call(MaxLRScoreTokenizer, table(dl, lists[0]) or None, table(dr, lists[1]) or None, **kw)


def run(tok, s, form, via):
    debug = form == 'detail'
    if via:
        return call(tok, s, debug, form == 'flat')
    return call(tok.tokenize, s, debug=debug, flatten=form == 'flat')


def observe(c, g, form):
    c.update(form=form, exc='', words=[], full=[], detail=[])
    if isinstance(g, Exc): c['exc'] = g.name
    elif form == 'detail': c['detail'] = [[enc_entry(p) for p in e] for e in g]
    elif form == 'flat': c['words'] = [[cps(w), tag] for w, tag in g]
    else: c['full'] = [[[cps(w), tag] for w, tag in e] for e in g]


def history(seed):
    r = random.Random(seed)
    alpha = r.choice([KO[:2], KO[:3], KO[:4], 'ab', SYL[:10]])
    texts = [sentence(r, alpha, r.randint(1, 3), 1, r.choice([3, 6, 10, 14])) for _ in range(r.randint(1, 4))]
    if r.random() < 0.04: texts.append(sentence(r, alpha, *r.choice([(25, 1, 3), (2, 20, 35)])))
    if r.random() < 0.3: texts.append(texts[0])
    dl = {w: 10 * r.choice([4, 8, 12, 16, 16, r.randint(0, 24)]) for w in subwords(r, texts, r.randint(0, 9), 1, r.choice([2, 4, 6]))}
    dr = {w: 10 * r.choice([4, 8, 12, 16, 16, r.randint(0, 24)]) for w in subwords(r, texts, r.randint(0, 6), 1, r.choice([1, 2, 4]))}
    if r.random() < 0.3:      # scores near the thresholds
        dl = {w: 10 * r.choice([4, 5, 6, 7, 8, 9, 12, 13]) for w in dl}
        dr = {w: 10 * r.choice([0, 1, 2, 3, 4, 8]) for w in dr}
    if r.random() < 0.06: dl = {}
    if r.random() < 0.06: dr = {}
    lists = (r.random() < 0.15, r.random() < 0.15)
    if lists[0]: dl = {w: U for w in dl}
    if lists[1]: dr = {w: U for w in dr}
    pl = {w: 10 * r.randint(-16, 32) for w in subwords(r, texts, r.choice([0, 0, 1, 2]), 1, 3)}
    pr = {w: 10 * r.randint(-16, 32) for w in subwords(r, texts, r.choice([0, 0, 1, 2]), 1, 2)}
    th = {'diff': 48, 'ratio': 80, 'ensl': 80, 'ensd': 48}
    if r.random() < 0.5:
        k = r.choice(sorted(th))
        th[k] = r.choice([0, 16, 32, 80, 160, 240, 320, 10, 100])
    built = None
    if r.random() < 0.15:      # dictionaries that are built are overridden by those given
        built = [{w: 10 * r.randint(0, 20) for w in subwords(r, texts, r.randint(0, 5), 1, 4)} for _ in range(2)]
        for b, x in zip(built, (dl, dr)):
            for w in list(x)[:1]: b[w] = 10 * r.randint(0, 20)
    tok = make(dl, dr, pl, pr, th, lists, built)
    if isinstance(tok, Exc):
        return {'unencodable': 'constructing raised ' + tok.name, 'readable': [dl, dr, pl, pr, th]}
    calls, text = [], []
    for s in texts:
        form = r.choice(['detail', 'detail', 'flat', 'full'])
        g = run(tok, s, form, r.random() < 0.4)
        c = {'text': cps(s)}
        observe(c, g, form)
        calls.append(c)
        text.append([s, form, repr(g)])
    enc = lambda d: [[cps(w), s] for w, s in d.items()]
    bl, br = built or ({}, {})
    return dict(th, dl=enc(dl), dr=enc(dr), pl=enc(pl), pr=enc(pr), bl=enc(bl), br=enc(br), calls=calls,
                readable={'built': built, 'Dl': dl, 'Dr': dr, 'Pl': pl, 'Pr': pr, 'thresholds': th, 'unit': U, 'calls': text})


def corrupt(rec, r):
    cs = [c for c in rec.get('calls', []) if c['words'] or c['detail']]
    if not cs: return None
    c = r.choice(cs)
    if c['words']: c['words'][0][1] = 'R' if c['words'][0][1] == 'L' else 'L'
    else: c['detail'][0][0][r.randint(2, 9)] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(420 if tier == 'quick' else 3500):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    dec = lambda t: {uncps(w): s for w, s in t}
    tok = make(dec(case['dl']), dec(case['dr']), {}, dec(case['pr']), {'diff': 48, 'ratio': 80, 'ensl': 80, 'ensd': 48})
    g = run(tok, uncps(case['text']), 'detail', False)
    got = None if isinstance(g, Exc) else [[enc_entry(p) for p in e] for e in g]
    return {'ok': got == case['out'], 'got': repr(g), 'readable': uncps(case['text'])}
