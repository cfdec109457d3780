"""C29: PredicatorExtractor."""
import os, random
import soynlp
from common import *
from gen import *
from soynlp.utils import LRGraph, EojeolCounter, DoublespaceLineCorpus
from soynlp.predicator import PredicatorExtractor
from pred import *
MODELS = [{'module': 'MC_Predicator', 'cfg': 'MC_Predicator.cfg', 'cfg_thorough': 'MC_Predicator_t.cfg', 'cases': True, 'kind': 'known',
           'actions': ['0', '1']}]
TRACES = [{'module': 'TR_Predicator'}]
ASSUMPTIONS = ['stems and nouns consist of complete Hangul syllables; endings may begin with a lone ㄴ ㄹ ㅁ ㅂ ㅆ',
               'candidates given to extract consist of complete syllables',
               'when the mean score of an ending equals the limit up to rounding, what follows is not checked',
               'a counter given to train may be pruned to the frequency limit',
               'with the stem, ending and particle tables that come with soynlp, no endings or stems are looked for']
ADJ = ['푸르', '예쁘', '파랗', '크', '좋', '없', '맑', '덥', '착하', '기쁘', '높', '날카롭', '아름답', '같']
SHORT = ['가', '나', '지', '사', '하', '먹', '고', '보', '서', '이']


ROOT = os.path.dirname(soynlp.__file__)
_read = {}


def shipped(name, least):
    """a table that comes with soynlp, without what is too rare"""
    if (name, least) not in _read:
        with open(os.path.join(ROOT, name), encoding='utf-8') as f: rows = [l.split() for l in f]
        _read[name, least] = {x[0]: int(x[1]) for x in rows if int(x[1]) >= least} if least else {x[0] for x in rows if x}
    return _read[name, least]

STEM, EOMI_TABLE, JOSA_TABLE = 'lemmatizer/dictionary/default/Stem/%s.txt', 'lemmatizer/dictionary/default/Eomi/Eomi.txt', 'postagger/dictionary/default/Josa/josa_chat.txt'


def first(c):
    return (ord(c) - 0xAC00) // 588


def may_stem(words, nouns):
    """whether a stem may be part of a lemma of one of the words, or make a noun doubtful"""
    fronts = {(w[:i], first(w[i])) for w in words for i in range(len(w)) if '가' <= w[i] <= '힣'}
    return lambda s: s[:-1] in nouns or s[:-2] in nouns or any('가' <= s[i] <= '힣' and (s[:i], first(s[i])) in fronts for i in range(max(0, len(s) - 2), len(s)))


def may_end(words):
    tails = {w[i:] for w in words for i in range(1, len(w) + 1)}
    return lambda e: e in tails or e[1:] in tails


def default_tables(seed):
    """with the tables that come with soynlp, as far as they matter for the words"""
    r = random.Random(seed)
    own = r.random() < 0.3      # one of the two tables of stems is not enough
    ownends = r.sample(EOMI, 12) if r.random() < 0.3 else None
    adjs, verbs = shipped(STEM % 'Adjective', 2), shipped(STEM % 'Verb', 2)
    rare = [x for k in ('Adjective', 'Verb') for x, n in shipped(STEM % k, 1).items() if n < 4]
    ends = shipped(EOMI_TABLE, 20)
    edge = [x for x, n in shipped(EOMI_TABLE, 1).items() if 18 <= n <= 21]
    pool = r.sample(sorted(adjs), 3) + r.sample(sorted(verbs), 3) + r.sample(rare, 4)
    ws = {}
    for _ in range(r.randint(4, 9)):
        e = r.choice([r.choice(edge), r.choice(sorted(ends)), r.choice(ownends or sorted(ends)[:200])])
        x = call(conjugate, r.choice(pool), e)
        x = sorted(w for w in x if all('가' <= c <= '힣' for c in w) and len(w) < 6) if not isinstance(x, Exc) else []
        if x: ws[r.choice(x)] = r.choice([1, 2, 5])
    nouns = {x[:-r.randint(1, 2)] for x in r.sample(pool, 3)} | set(r.sample(NOUNS, 2))
    nouns = sorted(x for x in nouns if x)
    js = sorted(shipped(JOSA_TABLE, 0))
    for n in nouns[:3]: ws[n + r.choice(js)] = r.choice([1, 3])
    ws = {w: n for w, n in ws.items() if len(w) < 7} or {'가고': 1}
    ms, me = may_stem(ws, nouns), may_end(ws)
    kw = {'adjectives': {'가'}} if own and r.random() < 0.5 else {'verbs': {'가'}} if own else {}
    if ownends: kw['eomis'] = set(ownends)
    if r.random() < 0.3: kw['josas'] = set()
    ext = call(PredicatorExtractor, set(nouns), verbose=False, **kw)
    if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
    tails = {w[i:] for w in ws for i in range(len(w))}
    a = [x for x in adjs if ms(x)]; v = [x for x in verbs if ms(x)]; e = [x for x in (ownends or ends) if me(x)]; j = [x for x in js if x in tails]
    x = call(ext.extract, dict(ws))
    ev = {'op': 'extract', 'minf': 1, 'given': [[cps(w), c] for w, c in ws.items()], 'exc': '', 'kept': True}
    if isinstance(x, Exc): ev['exc'] = x.name
    else: ev['adjs'], ev['verbs'] = shown(x)
    return {'adjs': [cps(x) for x in a], 'verbs': [cps(x) for x in v], 'nouns': [cps(x) for x in nouns], 'ends': [cps(x) for x in e], 'josas': [cps(x) for x in j],
            'findends': False, 'findstems': False, 'norm': False, 'events': [ev], 'readable': [repr(kw), nouns, ws, repr(x)[:600]]}


def shown(x):
    return [[[cps(w), p.frequency, [[cps(s), cps(e)] for s, e in p.lemma]] for w, p in y.items()] for y in x]


def setup(r):
    ws, stems, nouns, ends = predicators(r, rich=r.random() < 0.25)
    if r.random() < 0.6:      # words of two and three syllables, some of them nouns
        for _ in range(r.randint(2, 7)):
            s, e = r.choice(SHORT), r.choice(['는', '지', '고', '아', 'ㄴ', 'ㄹ', '기', '자', 'ㄴ가', '지도', '어서'])
            if r.random() < 0.7: stems.append(s)
            if r.random() < 0.7: ends.append(e)
            for w in conjugate(s, e):
                if all('가' <= c <= '힣' for c in w):
                    ws[w] = ws.get(w, 0) + r.choice([1, 2, 3])
                    if r.random() < 0.6: nouns.append(w)
    if r.random() < 0.5:      # unknown stems with a final and what tells verbs from adjectives
        tell = ['는다', '는다고', '고있는', '어라', '아라', '자', '을까', 'ㄴ다', 'ㄴ다고', 'ㄹ까', 'ㄹ까봐', '을까봐', '까', '까봐']
        for s in r.sample(['가로막', '빼앗', '되찾', '내뱉', '짓밟', '달라붙', '드높', '맑', '꽃답', '새롭', '철없', '굼먹이', '아니', '볼만하', '출렁거리', '거절당하', '놀시키', '거절당허', '꿀같', '탐스럽', '어렵', '마렵', '걷어켜', '뒤엎'], r.randint(1, 3)):
            for e in r.sample(tell, r.randint(1, 3)) + r.sample(['고', '지만', '네', '지', '게', '거나'], r.randint(3, 6)):
                ends.append(e)
                for w in conjugate(s, e): ws[w] = r.choice([1, 2, 3])
                for w in conjugate(stems[0], e):
                    if all('가' <= c <= '힣' for c in w): ws[w] = r.choice([1, 2])
    if r.random() < 0.25:      # a noun of two syllables that is a form of two endings, one of them mostly in nouns
        e = r.choice(['서', '도', '라', '야', '요'])
        stems += ['가', '크', '쓰', '끄', '뜨'][:r.randint(2, 5)]
        nouns.append('가' + e)
        ends += [e, '어' + e] + r.sample(['아' + e], r.randint(0, 1))
        for w in ['가'] + r.sample(['커', '써', '꺼', '떠'], r.randint(1, 4)): ws[w + e] = r.choice([1, 2, 3])
    if r.random() < 0.15:      # an ending that is mostly in nouns of two syllables, and in longer words
        e = r.choice(['고', '는', '지', '자', '기', '지도'])
        ends += [e, '지', '도'][:r.randint(1, 3)]
        for u in r.sample(['공부하', '달리', '배우', '만지', '그리', '가', '나', '사', '보'], r.randint(3, 8)):
            stems.append(u)
            ws[u + e[0]] = ws[u + e] = r.choice([1, 2, 3])
            if r.random() < 0.7: nouns.append(u + e)
    if r.random() < 0.25:      # nouns that may be a stem without its end
        s = r.choice(['가지', '만지', '배우', '먹이', '나가'])
        if r.random() < 0.7: stems.append(s)
        nouns.append(s)
        if r.random() < 0.6: stems.append(s + r.choice(['하', '스럽', '되', '우']))
        for e in r.sample(JOSA, 3):
            ws[s + e] = r.choice([1, 2, 3])
            ends.append(e)
    stems = list(dict.fromkeys(stems))
    adjs = [s for s in stems if s in ADJ or r.random() < 0.1]
    verbs = [s for s in stems if s not in adjs or r.random() < 0.1]
    josas = r.sample(JOSA, r.randint(1, 6))
    return ws, adjs, verbs, sorted(set(nouns)), sorted(set(ends)), josas


def history(seed):
    r = random.Random(seed)
    with scratch() as d:
        ws, adjs, verbs, nouns, ends, josas = setup(r)
        fe, fs = r.choice([(False, False), (True, False), (False, True), (True, True)])
        norm = r.random() < 0.3
        forms = [r.choice([set, set, list, lambda x: {k: 1 for k in x}]) for _ in range(5)]
        given = [f(x) for f, x in zip(forms, (nouns, josas, adjs, verbs, ends))]
        kw = dict(nouns=given[0], josas=given[1], adjectives=given[2], verbs=given[3], eomis=given[4], extract_eomi=fe, extract_stem=fs,
                  verbose=r.random() < 0.1)
        if norm: kw['ensure_normalized'] = True
        evs, rd = [], [[adjs, verbs, nouns, ends, josas, fe, fs, norm]]
        rec = {'adjs': [cps(x) for x in adjs], 'verbs': [cps(x) for x in verbs], 'nouns': [cps(x) for x in nouns], 'ends': [cps(x) for x in ends],
               'josas': [cps(x) for x in josas], 'findends': fe, 'findstems': fs, 'norm': norm, 'events': evs, 'readable': rd}
        ext = call(PredicatorExtractor, **kw)
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)

        def did(ev, g, note):
            ev['exc'] = g.name if isinstance(g, Exc) else ''
            evs.append(ev); rd.append([ev['op'], note, ev['exc'] or repr(g)[:600]])
            return not ev['exc']

        a = dict(q=r.choice([[3, 10], [1, 2], [1, 10]]), minf=r.choice([1, 1, 2]), nmin=r.choice([1, 1, 2]), sq=r.choice([[7, 10], [1, 2]]),
                 sminf=r.choice([1, 1, 2, 4]), umin=r.choice([0, 1, 2]), hmin=r.choice([0, 0, 500000]))
        usual = r.random() < 0.06      # all limits as they are by default
        if usual:
            a = dict(q=[3, 10], minf=1, nmin=5, sq=[7, 10], sminf=100, umin=10, hmin=500000)
            ws = {w: n * 40 for w, n in ws.items()}
        tkw = dict(min_num_of_features=a['nmin'], min_eomi_score=a['q'][0] / a['q'][1], min_eomi_frequency=a['minf'], min_num_of_unique_R_char=a['umin'],
                   min_entropy_of_R_char=a['hmin'] / 1e6, min_stem_score=a['sq'][0] / a['sq'][1], min_stem_frequency=a['sminf'])
        if usual: tkw = {}
        kind = r.choice(['sents', 'sents', 'words', 'rel']) if not usual else r.choice(['words', 'rel'])
        ev = {'op': 'train', 'from': 'sents' if kind == 'sents' else 'words', 'a': a, 'minc': r.choice([1, 1, 1, 2])}
        if kind == 'sents':
            toks = [w for w, n in ws.items() for _ in range(n)]
            r.shuffle(toks)
            sents = []
            while toks:
                k = r.randint(1, 8)
                sents.append(r.choice([' ', '  ']).join(toks[:k]) + r.choice(['', '', '.'])); toks = toks[k:]
            ev['sents'] = [cps(s) for s in sents]
            src = sents
        else:
            ev['words'] = [[cps(w), n] for w, n in ws.items()]
            if kind == 'words':
                src = counter(ws)
            else: src = counter(ws).to_lrgraph()
        if ev['minc'] != 2 or r.random() < 0.5: tkw['min_eojeol_frequency'] = ev['minc']
        both = r.random() < 0.2
        n = r.randint(1, 3)
        for k in range(n + 1):
            x = None
            if k == 0:
                if both:
                    mf = r.choice([1, 1, 2, 3])
                    x = call(ext.train_extract, src, min_predicator_frequency=mf, **tkw)
                    ev['exc'] = x.name if isinstance(x, Exc) else ''
                    evs.append(ev); rd.append(['train_extract', kind, ws, tkw, ev['exc']])
                    if ev['exc']: return rec
                    ev = {'op': 'extract', 'given': [], 'minf': mf}
                    if not did(ev, x, mf): return rec
                else:
                    if not did(ev, call(ext.train, src, **tkw), [kind, ws, tkw]): return rec
                    continue
            else:
                ev = {'op': 'extract', 'minf': r.choice([1, 1, 1, 2, 3]), 'given': []}
                cand = None
                if r.random() < 0.25:
                    cand = {w: r.randint(1, 5) for w in ws if r.random() < 0.6 and all('가' <= c <= '힣' for c in w)}
                    if not (fe or fs) or r.random() < 0.5: cand['공부하고'] = 1
                    ev['given'] = [[cps(w), c] for w, c in cand.items()]
                x = call(ext.extract, cand, ev['minf']) if cand or r.random() < 0.5 else call(ext.extract, min_predicator_frequency=ev['minf'])
                if not did(ev, x, [cand or 'all', ev['minf']]): return rec
            ev['adjs'], ev['verbs'] = shown(x)
            ev['kept'] = given == [f(z) for f, z in zip(forms, (nouns, josas, adjs, verbs, ends))]
        return rec


def corrupt(rec, r):
    es = [e for e in rec['events'] if e['op'] == 'extract' and not e['exc']]
    if not es: return None
    e = r.choice(es)
    y = r.choice(['adjs', 'verbs'])
    if not e[y] or r.random() < 0.2: e[y].append([[45800, 45801], 1, [[[45800], [45801]]]])
    elif r.random() < 0.5: r.choice(e[y])[1] += 1
    else: r.choice(e[y])[2].pop()
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(300 if tier == 'quick' else 5000):
        seed = rng.random()
        yield lambda: default_tables(seed) if seed % 0.1 < 0.006 else history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    ws = {uncps(w): n for w, n in case['words']}
    S = lambda k: {uncps(x) for x in case[k]}
    ext = call(PredicatorExtractor, S('nouns'), S('josas'), S('adjs'), S('verbs'), S('ends'), case['findends'], case['findstems'], verbose=False)
    rd = [ws, repr([S(k) for k in ('nouns', 'josas', 'adjs', 'verbs', 'ends')]), case['findends'], case['findstems']]
    if isinstance(ext, Exc): return {'ok': False, 'got': repr(ext), 'readable': rd, 'clause': 'constructor'}
    a = case['a']
    ec = counter(ws)
    x = call(ext.train_extract, ec, 1, min_num_of_features=a['nmin'], min_eomi_score=a['q'][0] / a['q'][1], min_eomi_frequency=a['minf'],
             min_num_of_unique_R_char=a['umin'], min_entropy_of_R_char=a['hmin'] / 1e6, min_stem_score=a['sq'][0] / a['sq'][1], min_stem_frequency=a['sminf'])
    if isinstance(x, Exc): return {'ok': False, 'got': repr(x), 'readable': rd, 'clause': 'train_extract'}
    got = [{w: (p.frequency, p.lemma) for w, p in y.items()} for y in x]
    want = [{uncps(w): (n, {(uncps(s), uncps(e)) for s, e in l}) for w, n, l in case[k]} for k in ('foundadjs', 'foundverbs')]
    return {'ok': got == want, 'got': repr(got), 'readable': rd, 'clause': 'predicators'}
