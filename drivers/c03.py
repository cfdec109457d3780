"""C03: string distances."""
import random
from collections import Counter
from fractions import Fraction
from common import *
from gen import *
from soynlp.hangle import levenshtein, jamo_levenshtein, cosine_distance, jaccard_distance
MODELS = [{'module': 'MC_Distance', 'cfg': 'MC_Distance.cfg', 'cfg_thorough': 'MC_Distance_t.cfg', 'cases': True,
           'actions': ['Plainly', 'Jamo', 'Delete', 'Insert', 'Substitute']}]
TRACES = [{'module': 'TR_Distance'}]
ASSUMPTIONS = ['substitution costs are multiples of 1/16', 'cosine distance is compared to a thousandth',
               'strings have at least one unit for the unit function given']
POOLS = ['ab', 'abc', '가각나낙', '가갸거고구ㄱㄴㅏㅑ', 'a가ㄱㅏ!', '아이고어이쿠', '값갑가ㅂㅄ', '가힣ㄱㅎ1']


def near(x, k):
    z = int(round(float(x) * k))
    if abs(float(x) * k - z) > 1e-6:
        raise Unencodable('not a multiple of 1/%d: %r' % (k, x))
    return z


def pair(r, op):
    pool = r.choice(POOLS)
    long = op != 'cosine' and r.random() < 0.04
    top = 20 if op == 'jamo' else 50
    a = word(r, pool, 0, r.choice([2, 4, 6])) if not long else word(r, pool, 12, top)
    if long and r.random() < 0.4:      # a small part of it, far from the diagonal
        if r.random() < 0.7: a = ''.join(r.sample('강낟댜런멩볃쇼준칠퀴트풔헤쌔꼬뜀', r.randint(11, 14)))
        i = r.choice([0, len(a) - 1, len(a) - 2, r.randrange(len(a) - 2)])
        b = a[i:i + r.randint(1, 3)]
        if r.random() < 0.5: a, b = b, a
    elif r.random() < 0.5:
        b = list(a)
        for _ in range(r.randint(0, 3)):
            k = r.random()
            i = r.randint(0, len(b))
            if k < 0.35: b.insert(i, r.choice(pool))
            elif b and k < 0.7: b.pop(min(i, len(b) - 1))
            elif b: b[min(i, len(b) - 1)] = r.choice(pool)
        b = ''.join(b)[:6] if not long else ''.join(b)
    else:
        b = word(r, pool, 0, r.choice([2, 4, 6])) if not long else word(r, pool, 12, top)
    return a, b, pool


def one(r):
    op = r.choice(['lev', 'lev', 'jamo', 'jamo', 'cosine', 'jaccard'])
    a, b, pool = pair(r, op)
    c = {'op': op, 's1': cps(a), 's2': cps(b), 'tab': [], 'n': 1, 'got': 0, 'den': 1, 'exc': ''}
    tab = {}
    if op == 'lev':
        if r.random() < 0.7:
            for _ in range(r.randint(1, 6)):
                tab[r.choice(pool), r.choice(pool)] = r.choice([0, 1, 4, 8, 8, 12, 15, 16, 24, 31, 40]) / 16
        keep = dict(tab)
        g = call(levenshtein, a, b, tab) if tab else call(levenshtein, a, b)
        c['tab'] = [[ord(x), ord(y), scaled(v, 16)] for (x, y), v in keep.items()]
        if tab != keep: raise Unencodable('the cost table was changed')
    elif op == 'jamo':
        g = call(jamo_levenshtein, a, b)
    else:
        f = cosine_distance if op == 'cosine' else jaccard_distance
        if r.random() < 0.4 and len(a) != 1 and len(b) != 1:
            c['n'] = 2
            grams = lambda s: [s[i:i + 2] for i in range(len(s) - 1)]
            g = call(f, a, b, (lambda s: Counter(grams(s))) if op == 'cosine' else (lambda s: set(grams(s))))
        else:
            g = call(f, a, b)
    if isinstance(g, Exc): c['exc'] = g.name
    elif op == 'lev': c['got'] = near(g, 16)
    elif op == 'jamo': c['got'] = near(g, 3)
    elif op == 'cosine': c['got'] = int(round((1 - float(g)) * 1000))
    else:
        q = Fraction(float(g)).limit_denominator(300)
        if abs(float(q) - g) > 1e-9: raise Unencodable('not a small fraction: %r' % g)
        c['got'], c['den'] = q.numerator, q.denominator
    return c, [op, a, b, {''.join(k): v for k, v in tab.items()}, repr(g)]


def history(seed):
    r = random.Random(seed)
    cs = [one(r) for _ in range(r.randint(1, 8))]
    return {'calls': [c for c, _ in cs], 'readable': [x for _, x in cs]}


def corrupt(rec, r):
    r.choice(rec['calls'])['got'] += 7
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(800 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    a, b = uncps(case['s1']), uncps(case['s2'])
    tab = {(chr(x), chr(y)): v / 6 for x, y, v in case['tab']}
    if case['kind'] == 'jamo': g = call(jamo_levenshtein, a, b)
    else: g = call(levenshtein, a, b, tab)
    ok = not isinstance(g, Exc) and abs(g * 6 - case['paid']) < 1e-6
    cs = jc = None
    if a and b:
        cs, jc = call(cosine_distance, a, b), call(jaccard_distance, a, b)
        n1, n2, p = case['dot']
        both, either = case['sets']
        ok = ok and not isinstance(cs, Exc) and not isinstance(jc, Exc) and \
            abs(1 - cs - p / (n1 * n2) ** 0.5) < 1e-9 and abs(1 - jc - both / either) < 1e-9
    return {'ok': ok, 'got': repr((g, cs, jc)), 'readable': [a, b, case['kind'], repr(tab)], 'clause': 'distance'}
