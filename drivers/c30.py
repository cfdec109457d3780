"""C30: NewsPOSExtractor and ChatPOSExtractor."""
import os, random
from common import *
from gen import *
import soynlp
from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor
from soynlp.predicator import Predicator
from soynlp.lemmatizer import conjugate
from pred import predicators, KNOWN, NEW, EOMI
MODELS = [{'module': 'MC_NewsPos', 'cfg': 'MC_NewsPos.cfg', 'cfg_thorough': 'MC_NewsPos_t.cfg', 'cases': True, 'kind': 'kind',
           'actions': ['news', 'chat']}]
TRACES = [{'module': 'TR_NewsPos'}]
ASSUMPTIONS = ['corpora consist of complete Hangul syllables and spaces; what the extractor is told directly may hold other characters',
               'lemmas of known predicators have a stem and an ending that are not empty',
               'the dictionaries that come with soynlp are taken as they are, and cut to the entries that can occur in the corpus',
               'when the mean score of an ending equals the limit up to rounding, what follows is not checked']
ROOT = os.path.dirname(soynlp.__file__)


def lines(name):
    with open(os.path.join(ROOT, name), encoding='utf-8') as f:
        return [x.strip() for x in f]


def often(name, n):
    return {x.split()[0] for x in lines(name) if int(x.split()[1]) >= n}

POS, NEG = set(lines('trained_models/noun_predictor_ver2_pos')), set(lines('trained_models/noun_predictor_ver2_neg'))
NJOSA, NSUFFIX = set(lines('noun/frequent_enrolled_josa.txt')), set(lines('noun/frequent_noun_suffix.txt'))
CHAT = set(lines('postagger/dictionary/default/Josa/josa_chat.txt'))
ADJ, VERB = often('lemmatizer/dictionary/default/Stem/Adjective.txt', 2), often('lemmatizer/dictionary/default/Stem/Verb.txt', 2)
ENDS = often('lemmatizer/dictionary/default/Eomi/Eomi.txt', 20)
ADVS = {x.split()[0] for x in lines('postagger/dictionary/default/Adverb/adverb.txt')}
KINDS = {'news': NewsPOSExtractor, 'chat': ChatPOSExtractor}


def substrings(words):
    return {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}


def hangul(w):
    return w and all('가' <= c <= '힣' for c in w)


def encode(x):
    return {'noun': [[cps(w), n] for w, n in x['Noun'].items()], 'confused': [[cps(w), n] for w, n in x['ConfusedNouns'].items()],
            'adv': [[cps(w), n] for w, n in x['Adverb'].items()], 'rest': [[cps(w), n] for w, n in x['Irrecognizable'].items()],
            'adj': [[cps(w), p.frequency, [[cps(s), cps(e)] for s, e in p.lemma or []]] for w, p in x['Adjective'].items()],
            'verb': [[cps(w), p.frequency, [[cps(s), cps(e)] for s, e in p.lemma or []]] for w, p in x['Verb'].items()]}


def learnt(r):
    """what an extractor may know, and the eojeols it has counted"""
    ws, stems, nouns, ends = predicators(r, odd=r.random() < 0.5)
    nouns = set(nouns) | set(r.sample(['사과', '너', '나무', '사과나무', '먹이', '학교', '고양', '가고', '나라', '큰집'], r.randint(1, 5)))
    josas = set(r.sample(['는', '은', '이', '가', '를', '에서', '고', '만', '이라는', '지만', '다'], r.randint(1, 6)))
    advs = set(r.sample(['잘', '매우', '빨리', '가고', '크다', '나'], r.randint(0, 3)))
    stems = list(dict.fromkeys(stems + r.sample(KNOWN + NEW, 2)))
    astems = {s for s in stems if r.random() < 0.5}
    vstems = {s for s in stems if s not in astems or r.random() < 0.2}
    if r.random() < 0.3: vstems |= {'업', '닿'}
    ends = set(ends) | set(r.sample(EOMI, r.randint(0, 3)))
    if r.random() < 0.3: ends |= {'ㅋ', 'ㄴ데', 'ㅂ니다'}
    known = []
    for base in (astems, vstems):
        d = {}
        for _ in range(r.randint(0, 7)):
            if not base: break
            s, e = r.choice(sorted(base)), r.choice(sorted(ends | set(EOMI[:6])))
            f = call(conjugate, s, e)
            if isinstance(f, Exc) or not f: continue
            w = r.choice(sorted(f))
            d.setdefault(w, set()).add((s, e))
        if r.random() < 0.2: d[word(r, '가고다먹ㅋ', 1, 3)] = {(r.choice(['가', '먹', '업', '쓰', '살']), r.choice(['ㅋ', 'ㄴ다', '고', '어', '아서', 'ㅁ']))}
        known.append(d)
    adjs, verbs = known
    if r.random() < 0.4:       # words that are an adjective and a verb, with lemmas of their own
        for a, b in ((adjs, verbs), (verbs, adjs)):
            for w in r.sample(sorted(a), min(len(a), r.randint(0, 2))):
                b.setdefault(w, set()).update({(r.choice(['크', '먹', '맑', '굽', s]), e) for s, e in a[w]})
    preds = sorted(adjs) + sorted(verbs)
    def put(w, n=None):
        if w: ws[w] = ws.get(w, 0) + (n or r.choice([1, 1, 2, 5]))
    N = sorted(nouns)
    for _ in range(r.randint(3, 14)):
        k = r.randint(0, 8)
        if k == 0: put(r.choice(N) + r.choice(sorted(josas)))
        elif k == 1 and preds: put(r.choice(N) + r.choice(preds))
        elif k == 2 and preds: put(r.choice(preds) + r.choice(preds))
        elif k == 3 and preds: put(r.choice('가나너집') + r.choice(preds))
        elif k == 4: put(r.choice('가나너집') + r.choice(sorted(josas)))
        elif k == 5: put(r.choice(N) + r.choice(N) + r.choice(['', r.choice(sorted(josas)), r.choice(preds or ['고'])]))
        elif k == 6: put(r.choice([r.choice(N), r.choice(sorted(josas)), r.choice(sorted(ends)), '가'] + sorted(advs)))
        elif k == 7 and preds: put(r.choice(preds))
        else: put(r.choice(N) + r.choice(['ㅋ', '7', '고', 'a']))
    if r.random() < 0.3:       # known nouns that end with a word found elsewhere
        for x in r.sample(N, min(2, len(N))):
            t = r.choice(sorted(josas) + preds) if r.random() < 0.6 else r.choice(sorted(josas))
            nouns.add(x + t); put(x + t); put(r.choice(N) + t)
    if preds and r.random() < 0.4:
        for p in preds[:4]: put(preds[0] + p, 1); put(preds[-1] + p, 2)
    for p in sorted(set(adjs) & set(verbs))[:3]:
        if r.random() < 0.6: put(r.choice(preds) + p)
    if preds and r.random() < 0.2:      # compounds whose stem is known already
        p = r.choice(preds)
        l, d = r.choice([x for x in ((p, adjs), (p, verbs)) if x[1]])
        w = r.choice(sorted(d))
        put(l + w)
        for s, _ in sorted(d[w])[:2]: r.choice([astems, vstems]).add(l + s)
    if preds and r.random() < 0.2:      # endings of a compound that begin with a consonant: their share, over several forms
        base, d = r.choice([(astems, adjs), (vstems, verbs)])
        s, p = r.choice(KNOWN), r.choice(preds)
        e1, e2 = r.choice(['ㄴ다', 'ㄹ', 'ㅋ']), r.choice(['고', '지', '어'])
        forms = [s + '나', s + '라', s + '다']
        a, b, c = r.choice([(5, 4, 1), (9, 9, 2), (9, 8, 2), (9, 1, 1), (1, 8, 1), (1, 9, 2), (4, 4, 1)])
        for f, e, n in zip(forms, (e1, e1, e2), (a, b, c)):
            d.setdefault(f, set()).add((s, e)); ws[p + f] = n
    if len(ws) > 40: ws = dict(r.sample(sorted(ws.items()), 40))
    return nouns, advs, josas, ends, astems, vstems, adjs, verbs, ws


def tell(r, kind, x):
    nouns, advs, josas, ends, astems, vstems, adjs, verbs, ws = x
    ext = KINDS[kind](verbose=r.random() < 0.1)
    ext.nouns = {n: 1 for n in nouns} if r.random() < 0.5 else set(nouns)
    ext.adverbs, ext.josas, ext.eomis = set(advs), set(josas), set(ends)
    ext.adjective_stems, ext.verb_stems = set(astems), set(vstems)
    f = r.choice([set, list])
    ext.adjectives = {w: Predicator(1, f(l)) for w, l in adjs.items()}
    ext.verbs = {w: Predicator(1, f(l)) for w, l in verbs.items()}
    ext.eojeols = dict(ws)
    return ext


def extract(ext, evs, rd, chars, keep, cut):
    g = call(ext.extract)
    ev = {'op': 'extract', 'exc': g.name if isinstance(g, Exc) else ''}
    if not ev['exc']:
        ev.update(encode(g))
        for k, name, allow in (('ends', 'Eomi', keep['ends']), ('astems', 'AdjectiveStem', keep['stems']), ('vstems', 'VerbStem', keep['stems']),
                               ('josas', 'Josa', keep['josas'])):
            ev[k] = [cps(w) for w in g[name] if not cut or allow(w)]
        g = {k: v for k, v in g.items() if not cut or k not in ('Eomi', 'Josa', 'AdjectiveStem', 'VerbStem')}
    evs.append(ev); rd.append(['extract', ev['exc'] or repr(g)[:1500]])
    return not ev['exc']


def history(seed):
    r = random.Random(seed)
    kind = r.choice(['news', 'chat'])
    evs, rd = [], [kind]
    x = learnt(r)
    ws = x[-1]
    U = substrings(ws)
    rec = {'kind': kind, 'chatjosas': [cps(w) for w in sorted(CHAT & U)], 'events': evs, 'readable': rd}
    ext = call(tell, r, kind, x)
    if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
    names = ('nouns', 'advs', 'josas', 'ends', 'astems', 'vstems')
    ev = {'op': 'learn', 'exc': ''}
    for k, v in zip(names, x): ev[k] = [cps(w) for w in sorted(v)]
    for k, v in (('adjs', x[6]), ('verbs', x[7])): ev[k] = [[cps(w), [[cps(s), cps(e)] for s, e in sorted(l)]] for w, l in v.items()]
    ev['words'] = [[cps(w), n] for w, n in ws.items()]
    evs.append(ev); rd.append(['learn', repr(dict(zip(names + ('adjs', 'verbs', 'words'), x)))])
    keep = {'ends': lambda w: True, 'stems': lambda w: True, 'josas': lambda w: kind == 'news' or w in U}
    for _ in range(r.choice([1, 1, 2])):
        if not extract(ext, evs, rd, '', keep, True): break
    return rec


def taught(seed):
    """trained on sentences"""
    r = random.Random(seed)
    kind = r.choice(['news', 'chat'])
    evs, rd = [], [kind]
    ws, _, _, _ = predicators(r, rich=r.random() < 0.3, odd=False)
    for _ in range(r.randint(2, 10)):
        n = r.choice(['사과', '학교', '고양이', '아이스크림', '덕질', '나무'])
        w = n + r.choice(['', '는', '은', '이', '가', '를', '에서', '까지', '한다', '하고', '먹고', '라는', '나무', '학교는'])
        ws[w] = ws.get(w, 0) + r.choice([1, 2, 3, 40])
    if r.random() < 0.3: ws['매우'] = 3
    if len(ws) > 35: ws = dict(r.sample(sorted(ws.items()), 35))
    ws = {w: n for w, n in ws.items() if hangul(w)} or {'사과는': 1}
    toks = [w for w, n in ws.items() for _ in range(n)]
    r.shuffle(toks)
    sents = []
    while toks:
        k = r.randint(1, 9)
        sents.append(' '.join(toks[:k])); toks = toks[k:]
    U = substrings(ws)
    tails = {w[i:] for w in ws for i in range(len(w) + 1)}
    first = {(ord(c) - 0xAC00) // 588 for w in ws for c in w}

    def stem(s):
        if len(s) == 1: return hangul(s) and (ord(s) - 0xAC00) // 588 in first
        return s[:-1] in U or (len(s) > 2 and s[:-2] in U) or (s[-1] == '르' and len(s) == 2 and hangul(s) and (ord(s[0]) - 0xAC00) // 588 in first)
    ending = lambda e: e[1:] in tails
    findends = r.random() < 0.7
    a = dict(features=r.choice([1, 1, 2]), maxend=r.choice([30, 30, 2]), nscore=r.choice([[3, 10], [3, 10], [1, 2]]), nfreq=r.choice([1, 1, 2]),
             minc=r.choice([1, 1, 2]), pfreq=r.choice([1, 1, 2]), efeatures=r.choice([5, 2, 1]), escore=r.choice([[3, 10], [1, 2]]), efreq=r.choice([1, 1, 2]))
    kw = dict(min_num_of_noun_features=a['features'], max_frequency_when_noun_is_eojeol=a['maxend'], min_noun_score=a['nscore'][0] / a['nscore'][1],
              min_noun_frequency=a['nfreq'], min_eojeol_frequency=a['minc'], min_predicator_frequency=a['pfreq'], min_num_of_eomi_features=a['efeatures'],
              min_eomi_score=a['escore'][0] / a['escore'][1], min_eomi_frequency=a['efreq'])
    ev = {'op': 'train', 'exc': '', 'a': a, 'sents': [cps(s) for s in sents], 'findends': findends,
          'pos': [cps(w) for w in sorted(POS & U)], 'neg': [cps(w) for w in sorted(NEG & U)], 'njosa': [cps(w) for w in sorted(NJOSA & U)],
          'nsuffix': [cps(w) for w in sorted(NSUFFIX & U)], 'astems': [cps(w) for w in sorted(ADJ) if stem(w)],
          'vstems': [cps(w) for w in sorted(VERB) if stem(w)], 'ends': [cps(w) for w in sorted(ENDS) if ending(w)],
          'advs': [cps(w) for w in sorted(ADVS & U)]}
    rec = {'kind': kind, 'chatjosas': [cps(w) for w in sorted(CHAT & U)], 'events': evs, 'readable': rd}
    ext = KINDS[kind](verbose=r.random() < 0.1, extract_eomi=findends)
    g = call(ext.train, sents, **kw)
    evs.append(ev)
    if isinstance(g, Exc): ev['exc'] = g.name
    else:
        ev['got'] = {'nouns': [cps(w) for w in ext.nouns], 'adjs': [cps(w) for w in ext.adjectives], 'verbs': [cps(w) for w in ext.verbs],
                     'ends': [cps(w) for w in ext.eomis if ending(w)], 'words': [[cps(w), n] for w, n in ext.eojeols.items()]}
    rd.append(['train', ws, kw, ev['exc'] or repr([list(ext.nouns), ext.adjectives, ext.verbs])[:1500]])
    if ev['exc']: return rec
    # endings found may be any, stems only grow by eojeols
    keep = {'ends': ending, 'stems': lambda w: stem(w), 'josas': lambda w: w in U}
    for _ in range(r.choice([1, 1, 2])):
        if not extract(ext, evs, rd, '', keep, True): break
    return rec


def corrupt(rec, r):
    es = [e for e in rec['events'] if e['op'] == 'extract' and not e['exc']]
    if not es: return None
    e = r.choice(es)
    k = r.choice(['noun', 'adj', 'verb', 'rest', 'confused'])
    if not e[k] or r.random() < 0.2: e[k].append([[45800, 45801], 1, [[[45800], [45801]]]] if k in ('adj', 'verb') else [[45800, 45801], 1])
    elif r.random() < 0.5: r.choice(e[k])[1] += 1
    else: e[k].pop()
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 6000):
        seed = rng.random()
        h = taught if i % 8 == 0 else history
        yield lambda: h(seed)
        if i % 25 == 7:
            yield lambda: corrupt(h(seed), random.Random(seed))


def replay(module, case):
    S = lambda k: {uncps(x) for x in case[k]}
    L = lambda k: {uncps(w): {(uncps(s), uncps(e)) for s, e in l} for w, l in case[k]}
    ext = KINDS[case['kind']](verbose=False)
    ext.nouns, ext.adverbs, ext.josas, ext.eomis, ext.adjective_stems, ext.verb_stems = S('nouns'), S('advs'), S('josas'), S('ends'), S('astems'), S('vstems')
    ext.adjectives, ext.verbs = ({w: Predicator(1, l) for w, l in L(k).items()} for k in ('adjs', 'verbs'))
    ext.eojeols = {uncps(w): n for w, n in case['words']}
    rd = [case['kind'], ext.eojeols, repr([S(k) for k in ('nouns', 'advs', 'josas', 'ends', 'astems', 'vstems')]), repr([L('adjs'), L('verbs')])]
    if case['kind'] == 'chat': use = S('given')
    for _ in range(case['rounds']): x = call(ext.extract)
    if isinstance(x, Exc): return {'ok': False, 'got': repr(x), 'readable': rd, 'clause': 'extract'}
    want = case['out']
    N = lambda f: {uncps(w): n for w, n in f}
    for k, name in (('noun', 'Noun'), ('confused', 'ConfusedNouns'), ('adv', 'Adverb'), ('rest', 'Irrecognizable')):
        if x[name] != N(want[k]): return {'ok': False, 'got': repr(x[name]), 'readable': rd, 'clause': name}
    for k, name in (('adj', 'Adjective'), ('verb', 'Verb')):
        got = {w: (p.frequency, set(p.lemma or [])) for w, p in x[name].items()}
        if got != {uncps(w): (n, {(uncps(s), uncps(e)) for s, e in l}) for w, n, l in want[k]}:
            return {'ok': False, 'got': repr(got), 'readable': rd, 'clause': name}
    for k, name in (('ends', 'Eomi'), ('astems', 'AdjectiveStem'), ('vstems', 'VerbStem')):
        if set(x[name]) != {uncps(w) for w in want[k]}: return {'ok': False, 'got': repr(x[name]), 'readable': rd, 'clause': name}
    return {'ok': True, 'got': '', 'readable': rd, 'clause': ''}
