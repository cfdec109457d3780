"""C25: lemmatization."""
import random
from conj import *
MODELS = [{'module': 'MC_Lemma', 'cfg': 'MC_Lemma.cfg', 'cfg_thorough': 'MC_Lemma_t.cfg', 'kind': 'fn', 'cases': True,
           'actions': ['lemma', 'lemmachat', 'all', 'known']}]
TRACES = [{'module': 'TR_Conj'}]
ASSUMPTIONS = ['words, stems and endings consist of complete syllables (an ending may begin with a lone consonant)',
               'predefined lemmas are given per split, as (left, right) -> (stem, ending) pairs']


def perform(q, r=None):
    fn = q['fn']
    if fn in ('lemma', 'lemmachat'):
        f = lemma_candidate if fn == 'lemma' else lemma_candidate_chat
        if r and r.random() < 0.2: return call(f, q['l'], q['r'], q['pre'], True)      # what it prints is not looked at
        if q['pre'] is None: return call(f, q['l'], q['r'])
        return call(f, q['l'], q['r'], q['pre'])
    stems, endings = set(q.get('stems', ())), set(q.get('endings', ()))
    if q.get('ro'): stems, endings = frozenset(stems), list(endings)
    lem = q.get('lem') or (Lemmatizer(stems, endings, q['pre']) if q['pre'] else Lemmatizer(stems, endings))
    if 'lem' in q: q['lem'] = lem
    if fn == 'all': return call(lem.candidates, q['word'])
    return call(lem.lemmatize, q['word'], check_only_stem=q['only']) if q['only'] else call(lem.lemmatize, q['word'])


made = {}


def surface(r):
    """a word the lemmatizer may meet"""
    if r.random() < 0.25:
        return ''.join(syl(r) for _ in range(r.randint(1, 4)))
    for _ in range(20):
        s, e = stem(r), ending(r)
        if not usable(e): continue
        x = call(conjugate, s, e)
        x = sorted(w for w in x if all('가' <= c <= '힣' for c in w)) if not isinstance(x, Exc) else []
        if x:
            w = r.choice(x)
            made[w] = s, e
            return w
    return '구르다'


def pairs(w):
    """some readings of the splits of w, right and wrong"""
    out = []
    for i in range(1, len(w) + 1):
        g = call(lemma_candidate, w[:i], w[i:])
        if not isinstance(g, Exc): out += sorted(g)
    return out


def predefined(r, w, none=0.6):
    if r.random() < none: return None
    pre = {}
    for _ in range(r.randint(1, 3)):
        v = w if r.random() < 0.8 else surface(r)
        i = r.randint(1, len(v))
        e = ending(r)
        while not usable(e): e = ending(r)
        c = [(stem(r), e), (v[:i], v[i:]), (v[:i] + '르', '어'), (v[:max(1, i - 1)], v[max(1, i - 1):] or '어'), made.get(v, ('푸르', '어'))]
        pre[(v[:i], v[i:])] = tuple(r.sample(c, r.randint(1, 3)))
    return pre


def encode(pre):
    return [[[cps(l), cps(x)], [[cps(a), cps(b)] for a, b in v]] for (l, x), v in (pre or {}).items()]


def history(seed):
    r = random.Random(seed)
    words = [surface(r) for _ in range(r.randint(2, 4))]
    pre = predefined(r, words[0])
    ps = [p for w in words for p in pairs(w)] + [(stem(r), '다')]
    stems = sorted({p[0] for p in r.sample(ps, min(len(ps), r.randint(0, 12)))})
    endings = sorted({p[1] for p in r.sample(ps, min(len(ps), r.randint(0, 12))) if p[1]})
    calls, rd = [], [stems, endings, repr(pre)]
    kept = None      # most calls ask one lemmatizer
    for _ in range(8):
        w = r.choice(words)
        fn = r.choice(['lemma', 'lemmachat', 'all', 'known', 'known', 'known'])
        i = r.randint(1, len(w))
        # the table of the object is the same for all its words
        q = dict(fn=fn, pre=pre, word=w, l=w[:i], r=w[i:], stems=stems, endings=endings, only=r.random() < 0.4, ro=r.random() < 0.2)
        if fn == 'lemmachat' and r.random() < 0.5: q['l'], q['r'] = w, ''
        # other lemmatizers may have lemmas of their own for the same words
        if r.random() < 0.4: call(Lemmatizer, {'가'}, {'고'}, predefined(r, w, 0))
        if r.random() < 0.75: q['lem'] = kept
        g = perform(q, r)
        kept = q.get('lem') or kept
        c = dict(fn=fn, pre=encode(pre), word=cps(w), l=cps(q['l']), r=cps(q['r']), only=q['only'], exc='', got=[])
        if isinstance(g, Exc): c['exc'] = g.name
        else: c['got'] = [[cps(a), cps(b)] for a, b in g]
        calls.append(c)
        rd.append([fn, w, q['l'], q['r'], q['only'], c['exc'] or sorted(g)])
    return {'calls': calls, 'pre': encode(pre), 'stems': [cps(x) for x in stems], 'endings': [cps(x) for x in endings], 'readable': rd}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['got']]
    if not cs: return None
    g = r.choice(cs)['got']
    if r.random() < 0.5: g.pop()
    else: g.append([[44032], [44032, 44032]])
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(700 if tier == 'quick' else 9000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 40 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    q = case['req']
    d = dict(fn=q['fn'], word=uncps(q.get('word', [])), l=uncps(q.get('l', [])), r=uncps(q.get('r', [])), only=q.get('only', False),
             stems=[uncps(x) for x in q.get('stems', [])], endings=[uncps(x) for x in q.get('endings', [])],
             pre={(uncps(k[0]), uncps(k[1])): tuple((uncps(a), uncps(b)) for a, b in v) for k, v in q['pre']} or None)
    g = perform(d)
    rd = [q['fn'], d['word'], d['l'], d['r'], d['stems'], d['endings'], d['only'], repr(d['pre'])]
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'call'}
    return {'ok': g == {(uncps(a), uncps(b)) for a, b in case['out']}, 'got': repr(sorted(g)), 'readable': rd, 'clause': q['fn']}
