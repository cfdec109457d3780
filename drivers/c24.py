"""C24: conjugation."""
import random
from conj import *
MODELS = [{'module': 'MC_Conj', 'cfg': 'MC_Conj.cfg', 'cfg_thorough': 'MC_Conj_t.cfg', 'kind': 'req.fn', 'cases': True,
           'actions': ['conj', 'conjchat', 'forms']}]
TRACES = [{'module': 'TR_Conj'}]
ASSUMPTIONS = ['a stem ends with a complete syllable', 'an ending begins with a complete syllable or a lone consonant other than ㅇ, in chat one that can be a final']
CHAT = LONE + 'ㄱㅋㅎㅌㄷㅅ'


def perform(fn, s, e, h, r=None):
    if fn == 'forms': return call(conjugate_stem, s)
    f = conjugate if fn == 'conj' else conjugate_chat
    if h or (r and r.random() < 0.2): return call(f, s, e, enforce_moum_harmoney=h)
    return call(f, s, e, debug=True) if r and r.random() < 0.1 else call(f, s, e)


def one(r):
    fn = r.choice(['conj'] * 5 + ['conjchat', 'forms'])
    s, e, h = stem(r), ending(r), r.random() < 0.3
    while not usable(e, CHAT): e = ending(r)
    if fn == 'conjchat' and r.random() < 0.5: e = r.choice(['', r.choice(CHAT) + r.choice(['', 'ㅋㅋ', '요'])])
    if fn != 'conjchat' and r.random() < 0.05: e = r.choice('ㄱㅋ') + e
    g = perform(fn, s, e, h, r)
    c = dict(fn=fn, s=cps(s), e=cps(e), harmony=h, exc='', got=[])
    if isinstance(g, Exc): c['exc'] = g.name
    else: c['got'] = [cps(x) for x in g]
    return c, [fn, s, e, h, c['exc'] or sorted(g)]


def history(seed):
    r = random.Random(seed)
    cs = [one(r) for _ in range(12)]
    return {'calls': [c for c, _ in cs], 'readable': [x for _, x in cs]}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['got']]
    if not cs: return None
    g = r.choice(cs)['got']
    if r.random() < 0.5: g.pop()
    else: g.append([44032, 44032, 44032])
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(900 if tier == 'quick' else 12000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 40 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    q = case['req']
    s, e = uncps(q['s']), uncps(q.get('e', []))
    g = perform(q['fn'], s, e, q.get('harmony', False))
    rd = [q['fn'], s, e, q.get('harmony', False)]
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'call'}
    return {'ok': g == {uncps(x) for x in case['out']}, 'got': repr(sorted(g)), 'readable': rd, 'clause': q['fn']}
