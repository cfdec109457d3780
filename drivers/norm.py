"""Shared by C09 and C10: calling the normalization functions."""
import random
from common import *
from gen import *
import soynlp.normalizer as SN
from soynlp.hangle import normalize as hangle_normalize
from soynlp.tokenizer import normalize as tokenizer_normalize


def apply(fn, o, s, r=None):
    explicit = r is None or r.random() < 0.7
    if fn == 'normalize':
        kw = dict(alphabet=o['a'], number=o['n'], punctuation=o['q'], symbol=o['s'], remove_repeat=o['r'])
        if not explicit: kw = {k: v for k, v in kw.items() if v}
        return call(SN.normalize, s, **kw)
    if fn == 'hangle.normalize':
        kw = dict(english=o['a'], number=o['n'], punctuation=o['q'], remove_repeat=o['r'], remains=set(uncps(o['x'])))
        if not explicit: kw = {k: v for k, v in kw.items() if v}
        return call(hangle_normalize, s, **kw)
    if fn == 'tokenizer.normalize':
        return call(tokenizer_normalize, s, o['r']) if explicit or o['r'] != 2 else call(tokenizer_normalize, s)
    if fn in ('repeat_normalize', 'emoticon_normalize'):
        f = getattr(SN, fn)
        return call(f, s, o['r']) if explicit or o['r'] != 2 else call(f, s)
    return call(getattr(SN, fn), s)


def is_word(c):
    return c == '_' or c.isalnum()


def history(seed, fns, text_of):
    r = random.Random(seed)
    calls, text = [], []
    for _ in range(r.randint(1, 6)):
        fn = r.choice(fns)
        o = dict(a=r.random() < 0.5, n=r.random() < 0.5, q=r.random() < 0.5, s=r.random() < 0.5,
                 r=r.choice([0, 1, 2, 2, 2, 3, 4, 5]), x=cps(r.choice(['', '', '-(', '_~', 'a\t'])))
        s = text_of(r)
        if calls and r.random() < 0.2: s = uncps(calls[-1]['out'])
        g = apply(fn, o, s, r)
        c = {'fn': fn, 'o': o, 'text': cps(s), 'exc': '', 'out': []}
        if isinstance(g, Exc): c['exc'] = g.name
        else: c['out'] = cps(g)
        calls.append(c)
        text.append([fn, o, s, repr(g)])
    chars = sorted(set(x for c in calls for x in c['text']))
    # the passes may make letters out of syllables: all Hangul letters are word characters
    word = sorted(set([x for x in chars if is_word(chr(x))]) | set(range(12593, 12644)) |
                  {44032 + 28 * ((x - 44032) // 28) for x in chars if 44032 <= x <= 55203})
    return {'calls': calls, 'word': word, 'readable': text}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['out']]
    if not cs: return None
    c = r.choice(cs)
    if r.random() < 0.5: c['out'].pop()
    else: c['out'].insert(0, 97)
    rec['canary'] = True
    return rec


def record(rng, n, fns, text_of):
    for i in range(n):
        seed = rng.random()
        yield lambda: history(seed, fns, text_of)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed, fns, text_of), random.Random(seed))


def replay(module, case):
    s = uncps(case['text'])
    g = apply(case['fn'], case['o'], s)
    return {'ok': not isinstance(g, Exc) and cps(g) == case['out'], 'got': repr(g), 'clause': 'result of ' + case['fn'],
            'readable': [case['fn'], case['o'], s]}
