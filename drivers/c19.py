"""C19: Bigram."""
import math, random
from fractions import Fraction
from common import *
from gen import *
from soynlp.word import Bigram
MODELS = [{'module': 'MC_Bigram', 'cfg': 'MC_Bigram.cfg', 'cfg_thorough': 'MC_Bigram_t.cfg', 'cases': True,
           'actions': ['DoStart', 'CountSentence', 'EndTrain']}]
TRACES = [{'module': 'TR_Bigram'}]
ASSUMPTIONS = ['minimum frequency at least one',
               'a PMI value equal to the threshold may be kept or dropped (rounding)']


def make(o, chars, score, verbose):
    kw = dict(verbose=verbose)
    if o['min'] != 5: kw['min_frequency'] = o['min']
    if o['every'] or o['min'] in (1, 2): kw['filtering_checkpoint'] = o['every']
    if chars: kw['tokenizer'] = lambda s: [c for c in s if not c.isspace()]
    if score != 'frequency': kw['score'] = score
    return Bigram(**kw)


def frac(x, limit=4000):
    q = Fraction(float(x)).limit_denominator(limit)
    if abs(float(q) - float(x)) > 1e-8 * max(1, abs(float(x))): raise Unencodable('not a small fraction: %r' % x)
    return [q.numerator, q.denominator]


def observe(g, mode):
    out = []
    for (a, b), v in g.items():
        f, s = v.frequency, v.score
        out.append([cps(a), cps(b), f, frac(math.exp(s) if mode == 'pmi' else s)])
    return out


def history(seed, many=False):
    r = random.Random(seed)
    alpha = r.choice(['ab', '가나다', 'abcd', '가나'])
    chars = r.random() < 0.25
    events, text, b = [], [], None
    for step in range(r.randint(2, 7)):
        if b is None or r.random() < 0.2:
            o = {'min': r.choice([1, 1, 2, 2, 3, 5]), 'every': r.choice([0, 0, 1, 2, 3])}
            sents = [sentence(r, alpha, r.choice([0, 1, 2, 3, 5, 8]), 1, r.choice([1, 1, 2])) for _ in range(r.choice([0, 1, 2, 4, 7]) if r.random() < .9 else 12)]
            big = r.random() < 0.04
            if big: sents = [sentence(r, alpha, r.choice([3, 5, 20]), 1, 1) for _ in range(r.choice([30, 70]))]
            if many:              # the same bigrams a thousand sentences apart
                sents = [alpha[0] + ' ' + alpha[1]] + [r.choice(['', alpha[1]]) for _ in range(1010)] + [alpha[0] + ' ' + alpha[1]]
                o, many = {'min': 2, 'every': 0}, False
                big = True
            if b is None or r.random() < 0.5:
                mode0 = r.choice(['frequency', 'pmi', 'mikolov'])
                b = make(o, chars, mode0, r.random() < 0.2)
            else:
                b.min_frequency, b.filtering_checkpoint = o['min'], o['every']
            g = call(b.train, sents)
            events.append({'op': 'train', 'opt': o, 'texts': [cps(s) for s in sents], 'exc': g.name if isinstance(g, Exc) else ''})
            text.append(['train', sents, o])
            if isinstance(g, Exc): break
            continue
        mode = r.choice(['frequency', 'pmi', 'pmi', 'mikolov'])
        if r.random() < 0.5: mode = mode0
        else: b.score = mode0 = mode
        if big: b.score = mode0 = mode = 'frequency'      # the other scores would be fractions with large terms
        topk = r.choice([-1, -1, 0, 1, 2, 3, 50] if not big else [-1, -1, 1, 50])
        low = {'frequency': r.choice([[0, 1], [1, 1], [2, 1], [4, 1], [5, 2]]),
               'pmi': r.choice([[1, 1], [1, 1], [2, 1], [3, 2], [1, 4], [4, 1]]),
               'mikolov': r.choice([[0, 1], [0, 1], [1, 8], [1, 4], [-1, 4]])}[mode]
        kw = {}
        if topk != -1: kw['topk'] = topk
        if mode == 'pmi':
            if low != [1, 1]: kw['threshold'] = math.log(low[0] / low[1])
        elif low != [0, 1]: kw['threshold'] = low[0] / low[1]
        g = call(b.extract, **kw)
        ev = {'op': 'extract', 'mode': mode, 'topk': topk, 'low': low, 'exc': '', 'got': []}
        if isinstance(g, Exc): ev['exc'] = g.name
        else: ev['got'] = observe(g, mode)
        events.append(ev)
        text.append(['extract', mode, topk, low, ev['exc'] or [[uncps(x[0]), uncps(x[1])] + x[2:] for x in ev['got']]])
        if ev['exc']: break
    return {'chars': chars, 'events': events, 'ncalls': len(events), 'readable': text}


def corrupt(rec, r):
    evs = [e for e in rec['events'] if e.get('got')]
    if not evs: return None
    x = r.choice(r.choice(evs)['got'])
    if r.random() < 0.5: x[2] += 1
    else: x[3][0] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed, i % 130 == 60)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    sents = [' '.join(uncps(w) for w in s) for s in case['sents']]
    b = make(case['opt'], False, 'frequency', False)
    rd = [sents, case['opt']]
    g = call(b.train, sents)
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'train'}
    for mode, key in (('frequency', 'f'), ('pmi', 'p'), ('mikolov', 'm')):
        b.score = mode
        g = call(b.extract, threshold=-50)
        if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd + [mode], 'clause': 'extract'}
        want = {(uncps(a), uncps(c)): (n, Fraction(*q)) for a, c, n, q in case[key]}
        got = {k: (v.frequency, Fraction(*frac(math.exp(v.score) if mode == 'pmi' else v.score))) for k, v in g.items()}
        if got != want: return {'ok': False, 'got': repr(got), 'readable': rd + [mode], 'clause': mode}
    return {'ok': True, 'got': '', 'readable': rd, 'clause': ''}
