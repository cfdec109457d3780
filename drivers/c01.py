"""C01: Hangul characters."""
import copy, random
from common import *
from soynlp import hangle as H
from soynlp.hangle import _hangle as HH
MODELS = [{'module': 'MC_Hangle', 'cfg': 'MC_Hangle.cfg', 'cfg_thorough': 'MC_Hangle_t.cfg', 'cases': True,
           'actions': ['DoExamine', 'TakeApart', 'PutTogether']}]
TRACES = [{'module': 'TR_Hangle'}]
ASSUMPTIONS = ['each call is given one character']
KINDS = [('korean', H.character_is_korean), ('complete', H.character_is_complete_korean), ('jaum', H.character_is_jaum),
         ('moum', H.character_is_moum), ('number', H.character_is_number), ('english', H.character_is_english),
         ('punct', HH.character_is_punctuation)]


def letters(c):
    d = H.decompose(chr(c))
    if d is None:
        return None
    d = tuple(d)
    back = -1
    if d[0] != ' ' and d[1] != ' ':
        back = ord(H.compose(*d))
    return [c, [ord(x) for x in d], back]


def chunk(lo, hi):
    rec = {'from': lo, 'to': hi, 'exc': '', 'accept': [], 'letters': [], 'readable': 'code points %d to %d' % (lo, hi)}
    for c in range(lo, hi + 1):
        for n, f in KINDS:
            g = call1(f, chr(c))
            if isinstance(g, Exc): rec['exc'] = '%s raised for code point %d' % (n, c)
            elif g is True: rec['accept'].append([n, c])
            elif g is not False: rec['exc'] = '%s is not a truth value' % n
        g = call1(letters, c)
        if isinstance(g, Exc): rec['exc'] = 'decompose or compose raised for code point %d' % c
        elif g is not None: rec['letters'].append(g)
    return rec


def call1(f, x):
    try:
        return f(x)
    except Exception as e:
        return Exc(type(e).__name__)


def corrupt(rec, r):
    if r.random() < 0.5: rec['accept'].pop()
    else: rec['letters'][r.randrange(len(rec['letters']))][1][r.choice([0, 1, 2])] ^= 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for lo in list(range(0, 0x10000, 256)) + list(range(0x10000, 0x110000, 4096)):
        hi = lo + (255 if lo < 0x10000 else 4095)
        yield lambda: chunk(lo, hi)
        if lo in (12544, 44032, 50176):
            yield lambda: corrupt(chunk(lo, hi), rng)


def replay(module, case):
    c = case['ch']
    g = call(letters, c)
    cl = [call(f, chr(c)) for n, f in [KINDS[0], KINDS[1], KINDS[2], KINDS[3], KINDS[4], KINDS[5], KINDS[6]]]
    ok = (g is None and case['parts'] == []) or (isinstance(g, list) and g[1] == case['parts'] and g[2] in (-1, c))
    return {'ok': ok and cl == case['classes'], 'got': repr((g, cl)), 'readable': 'code point %d' % c, 'clause': 'letters or classes'}
