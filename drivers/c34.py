"""C34: NewsNounExtractor."""
import copy, os, random
from common import *
from gen import *
import soynlp
from soynlp.noun import NewsNounExtractor
from soynlp.utils import DoublespaceLineCorpus
MODELS = [{'module': 'MC_NewsNoun', 'cfg': 'MC_NewsNoun.cfg', 'cfg_thorough': 'MC_NewsNoun_t.cfg', 'cases': True,
           'actions': ['DoMake', 'DoTrain', 'DoStart', 'DoFilter', 'DoLook', 'DoJoin', 'DoFinish']}]
TRACES = [{'module': 'TR_NewsNoun', 'hashseeds': {'quick': 4, 'thorough': 8}}]
ASSUMPTIONS = ['an extractor is trained before it is asked', 'scores and proportions are compared up to 0.000001',
               'where a mean of scores with decimals, or a sum of shares, equals a limit up to rounding, the extraction is not checked',
               'candidates are given in an order', 'the score table and the predicator dictionary that come with soynlp are taken as they are',
               'min_frequency is at least 1']
ROOT = os.path.dirname(soynlp.__file__)
def lines(name):
    with open(os.path.join(ROOT, name), encoding='utf-8') as f: return [x.strip().split('\t') for x in f]
SEJONG = lines('trained_models/noun_predictor_sejong')
PREDS = {x[0] for k in ('Verb', 'Adjective') for x in lines('postagger/dictionary/sejong/%s.txt' % k)}
JOSA = ['은', '는', '이', '가', '을', '를', '에', '에서', '의', '로', '으로', '과', '와', '도', '만', '까지', '들이', '로써', '로만', '로의', '들은']
ENDS = ['하다', '했다', '하는', '다', '고', '지만', '어서', '었다', '면', '한다', '할', '된다']
NOUNS = ['사과', '대학', '대학생', '폭행', '학교', '나무', '떡', '고양이', '뉴스', '성심', '교수', '사기', '이번', '공부', '지만']
VERBS = [w for w in ['먹는다', '있다', '했다', '갔다', '같은', '없다', '보는', '하는', '된다', '당했다', '당한', '하고', '없는', '없이'] if w in PREDS]


def corpus(r):
    ns = r.sample(NOUNS, r.randint(2, 4))
    js = r.sample(JOSA, r.randint(3, 8)) + r.sample(ENDS, r.randint(0, 4))
    ws = {}
    def put(w, n=None):
        if w and len(ws) < 22: ws[w] = min(60, ws.get(w, 0) + (n or r.choice([1, 1, 2, 3, 5])))
    for n in ns:
        for j in r.sample(js, min(len(js), r.randint(2, 4))): put(n + j)
        if r.random() < 0.3: put(n)
    for _ in range(r.randint(2, 9)):
        k, n, j = r.randint(0, 13), r.choice(ns), r.choice(js)
        if k == 0: put(n + r.choice(ns) + r.choice(['', '', j]))
        elif k == 1: put(n + r.choice(ns) + r.choice(ns) + r.choice(['', j]))
        elif k == 2: put(n + r.choice(VERBS))
        elif k == 3: put(n + '으' + r.choice(['로', '로', '로써', '로만', '로의', j])); put(n + '으로')
        elif k == 4:
            e = r.choice(['이', '은', '의', '와', '과', '인', '들이', '들은', '들도'])
            for _ in range(2): put(n + e + r.choice(js), r.choice([1, 2, 9]))
        elif k == 5:
            d, many = r.choice(['당', '당', '시키', '받']), r.choice([1, 12, 30])
            for x in r.sample(['했다', '한', '하고', '은', '이'], 2):
                put(n + d + x, r.choice([1, 1, 2])); put(d + x, 3)
                if d == '시키' and r.random() < 0.5: put(d[1:] + x, 4)
            put(n + r.choice(js), many); put(n + '은', many)
        elif k == 6: put(n + '지' + r.choice(['만', '만', j])); put(n + '지' + r.choice(js))
        elif k == 7: put(n + '없' + r.choice(['는', '이', '다', '었다', j]))
        elif k == 8: put(n + r.choice(['하다', '한다', '했다', '할']), r.choice([1, 4, 9]))
        elif k == 9: put(word(r, '사과대학생', 1, 4) + j, r.choice([1, 1, 11]))
        elif k == 10: put(r.choice(VERBS) + r.choice(['', j]))
        elif k == 11: put(r.choice(NOUNS) + r.choice(NOUNS) + r.choice(['', '', j]))
        elif k == 12: put(n + 'ㅎ' + r.choice(['ㅎ', '다'])); put(n + j, 7)
        else: put(word(r, '사과대학생은는이하다', 1, 18), 1)
    base, like = [], set()
    if r.random() < 0.6:
        for _ in range(r.randint(1, 3)): rule(r, lambda w, n: w and ws.update({w: min(100, ws.get(w, 0) + n)}), ns, base, like)
    if r.random() < (0.25 if like else 0.5): coef = None
    else:
        coef = [[x, r.choice([1000000, 1000000, 1000000, 500000, 750000, 250000, 125000, 0, -500000, -1000000])] for x in dict.fromkeys(js + r.sample(JOSA, 4) + ['로'])]
        if r.random() < 0.2: coef.append([r.choice(ns), r.choice([1000000, -500000])])
        if r.random() < 0.35:      # scored twice, in two files or in one
            for x in r.sample(coef, min(len(coef), 3)): coef.append([x[0], r.choice([1000000, -500000, 625000, 0])])
        if like and r.random() < 0.85:
            coef = [x for x in coef if x[0] not in like] + [[x, r.choice([1000000, 1000000, 1000000, 1000000, 500000])] for x in sorted(like)]
    return ws, coef, ns, base


def rule(r, put, ns, base, like):
    """words around one of the rules, with numbers next to its limits"""
    k, n, m = r.randint(0, 11), r.choice(ns), r.choice(NOUNS)
    good = r.sample(['은', '이', '로', '을'], r.randint(2, 3))
    def noun(w, a=(1, 2)):
        like.update(good)
        for j in good: put(w + j, r.choice(a))
    if k == 0:                                       # a noun with the beginning of a predicator
        d, many = r.choice(['당', '당', '시키']), r.choice([9, 10, 11, 30])
        if r.random() < 0.8: base.append(n)
        noun(n + d)
        for j in good:
            if r.random() < 0.85: put(d + j, r.choice([3, 7]))
            if r.random() < 0.25: put(d + j + r.choice('요다'), r.choice([1, 3]))
            if len(d) > 1 and r.random() < 0.5: put(d[1:] + j, 4)
        if r.random() < 0.9: noun(n, (many,))
    elif k == 1:                                     # three nouns
        x = r.sample(['사과', '학교', '나무', '뉴스', '교수', '대학생', '떡'], 3)
        put(''.join(x), r.choice([3, 5]))
        for w in x:
            if r.random() < 0.5: base.append(w)
            elif r.random() < 0.8: noun(w, (2, 3))
    elif k == 2:                                     # a noun and a predicator that is a noun as well
        v = r.choice(VERBS); put(n + v, r.choice([3, 4]))
        if r.random() < 0.7: base.append(v)
        if r.random() < 0.5: base.append(n)
        else: noun(n, (2, 3))
    elif k == 3:                                     # what often comes with words that begin with ㅎ
        x = n + r.choice(['화', '당', '당'])
        a = r.choice([1, 2, 3])
        for e in ('하다', '한'): like.add(e); put(x + e, a)
        put(x + good[0], r.choice([a, 2 * a, 3 * a])); like.add(good[0])
        if r.random() < 0.6: base.append(n)
        elif r.random() < 0.6: noun(n, (2, 3))
    elif k == 4:
        x = r.choice(['', n]) + r.choice(['이는', '보는', '갔다', '겠지', '가는'])
        noun(x); like.discard(x)
    elif k == 5:                                     # 으, 지, 없 and the particles that give them away
        e, fs = r.choice([('으', ['로', '로써', '로만', '로의']), ('지', ['만']), ('없', ['는', '이', '다', '었다'])])
        a = r.choice([1, 2, 3])
        for f in r.sample(fs, r.randint(1, len(fs))): like.add(f); put(n + e + f, a)
        o = r.choice(['을', '도', '가']); like.add(o); put(n + e + o, r.choice([a, a, a + 1, 2 * a, 3 * a, 4 * a, 4 * a + 1]))
    elif k == 6:                                     # a last syllable that is a particle: how much of the rest has it
        e = r.choice(['인', '은', '의', '와', '과', '들이', '들은', '들도', '들을'])
        noun(n + e, (4, 8))
        if r.random() < 0.8: put((n + e)[:-1] + r.choice(['만', '까지', '']), r.choice([1, 2, 3, 4]))
    elif k == 7:                                     # 으로
        x = r.choice([n, '사', m]) + '으로'
        noun(x)
        if r.random() < 0.5: base.append(x[:-2])
        elif r.random() < 0.6: noun(x[:-2], (1, 3))
    elif k == 8:                                     # a score, or a share, at its limit
        a, b = r.choice([(2, 3), (3, 2), (4, 6), (7, 3), (4, 1), (1, 1)])
        like.add('은'); put(n + '은', a); put(n + r.choice(['ㅋ', '먹']), b)
        put(m + '나' + '은', a); put(m + '나' + r.choice(['고', 'ㅋ']), b)
        if r.random() < 0.6: put(m + r.choice(VERBS), 3)
    elif k == 9:                                     # few kinds of particles
        x = n + r.choice(['수', '']); f = r.choice(['은', '로', '을'])
        like.add(f); put(x + f, r.choice([4, 5, 6, 9, 10, 11]))
        put(x + r.choice(['ㅋ', '먹', '하다', '들이', '이나']), r.choice([1, 4, 5, 6]))
        if r.random() < 0.2: like.add(r.choice(['을', '이나', '하다']))
    elif k == 10:                                    # a noun and a noun that ends before its particle
        x = n + r.choice(['생', '사', '으', '이']); a = r.choice([3, 7, 8])
        f = r.choice(['로', '은', '이']); like.add(f); put(x + f, a); put(x + r.choice('도만ㅋ'), r.choice([1, 2, a]))
        like.add(x[-1] + f) if r.random() < 0.7 else None
        put(n + r.choice(['은', '는']), r.choice([1, 3, 10 - a, 4])); like.add('은')
    else:                                            # not a whole eojeol, or nearly
        put(n + r.choice(VERBS), r.choice([1, 3, 98, 99, 100]))
        put(n + r.choice(VERBS) + r.choice('고요'), 1); noun(n, (2, 3))


def substrings(words):
    return {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}


def micro(x): return int(round(float(x) * 1000000))


def table(d, coef, name):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf-8') as f:
        for x, v in coef: f.write('%s\t%f\n' % (x, v / 1000000))
    return p


def enc(s):
    return [micro(s.score), s.frequency, micro(s.feature_proportion), micro(s.eojeol_proportion), s.n_positive_feature, micro(s.unique_positive_feature_proportion)]


def sentences(r, ws):
    ss = [w for w, n in ws.items() for _ in range(n)]
    if r.random() < 0.7: r.shuffle(ss)
    out = []
    while ss:
        k = r.randint(1, 8)
        out.append(r.choice([' ', ' ', '  ', '\t']).join(ss[:k])); ss = ss[k:]
    return out


def history(seed):
    r = random.Random(seed)
    with scratch() as d:
        ws, coef, nouns, known = corpus(r)
        lm, rm = (10, 7) if r.random() < 0.75 else (r.randint(2, 6), r.randint(1, 5))
        kw = dict(verbose=r.random() < 0.1)
        if (lm, rm) != (10, 7) or r.random() < 0.5: kw.update(max_left_length=lm, max_right_length=rm)
        if coef is not None:
            k = len(coef) // 2
            kw['predictor_fnames'] = [table(d, coef, 'a')] if r.random() < 0.6 else [table(d, coef[:k], 'a'), table(d, coef[k:], 'b')]
        base = list(dict.fromkeys((r.sample(NOUNS + nouns + nouns, r.randint(1, 5)) if r.random() < 0.25 + 0.15 * (not known) else []) + known))
        if base: kw['base_noun_dictionary'] = r.choice([set, list, lambda b: {x: 1 for x in b}])(base)
        ext = call(NewsNounExtractor, **kw)
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
        corpora = [ws]
        if r.random() < 0.3: corpora.append(corpus(r)[0] if r.random() < 0.5 else dict(list(ws.items())[2:] or ws))
        uni = set().union(*map(substrings, corpora))
        tb = coef if coef is not None else [[x, micro(v)] for x, v in SEJONG if x in uni]
        rd, evs = [kw, tb, base], []
        rec = {'lmax': lm, 'rmax': rm, 'exact': coef is not None, 'feats': [[cps(x), v] for x, v in tb], 'preds': [cps(w) for w in sorted(PREDS & uni)],
               'base': [cps(w) for w in sorted(set(base))], 'events': evs, 'readable': rd}

        def did(ev, g, note):
            ev['exc'] = g.name if isinstance(g, Exc) else ''
            evs.append(ev); rd.append([ev['op'], note, ev['exc'] or repr(g)[:600]])
            return not ev['exc']
        for n, c in enumerate(corpora):
            ss = sentences(r, c)
            ev = {'op': 'train', 'sents': [cps(s) for s in ss]}
            src = ss
            if r.random() < 0.1:
                p = os.path.join(d, 'corpus.txt')
                with open(p, 'w', encoding='utf-8') as f: f.write('\n'.join('  '.join(s.split()) for s in ss) + '\n')
                src = DoublespaceLineCorpus(p, iter_sent=True)
            q, pq, mf = r.choice([[2, 5], [2, 5], [2, 5], [1, 2], [0, 1], [9, 10]]), r.choice([[3, 5], [3, 5], [0, 1], [1, 5], [9, 10]]), r.choice([1, 1, 2, 3, 3, 5])
            k2 = {} if (q, pq, mf) == ([2, 5], [3, 5], 3) else dict(min_noun_score=q[0] / q[1], min_feature_proportion=pq[0] / pq[1], min_frequency=mf)
            if n == 0 and r.random() < 0.3:
                g = call(ext.train_extract, src, **k2)
                if not did(ev, g if isinstance(g, Exc) else 0, ss): return rec
                ev = {'op': 'extract', 'min': q, 'prop': pq, 'minf': mf, 'cands': []}
                did(ev, g, k2)
                ev['nouns'] = [[cps(w), enc(s)] for w, s in g.items()]
            elif not did(ev, call(ext.train, src), ss): return rec
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.35:
                    w = r.choice(sorted(uni) + ['없는말'])
                    g = call(ext.predict, w)
                    ev = {'op': 'predict', 'w': cps(w)}
                    if not did(ev, g, w): return rec
                    ev['got'] = enc(g)
                    continue
                cands = r.sample(sorted(uni), min(len(uni), r.randint(1, 25))) + ['없는말'] if r.random() < 0.25 else []
                if cands and r.random() < 0.3: cands += cands[:2]
                g = call(ext.extract, **k2, **(dict(noun_candidates=cands) if cands else {}))
                ev = {'op': 'extract', 'min': q, 'prop': pq, 'minf': mf, 'cands': [cps(x) for x in cands]}
                if not did(ev, g, [k2, cands]): return rec
                ev['nouns'] = [[cps(w), enc(s)] for w, s in g.items()]
        return rec


def corrupt(rec, r):
    evs = [e for e in rec['events'] if e.get('nouns') or 'got' in e]
    if not evs: return None
    e = evs[0]
    if e['op'] == 'predict': e['got'][r.choice([0, 1, 2, 3, 4, 5])] += 9
    elif r.random() < 0.3: e['nouns'].append([[45000], [0, 0, 0, 0, 0, 0]])
    else: r.choice(e['nouns'])[1][r.choice([0, 1, 2, 3, 4, 5])] += 9
    rec['exact'] = True
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(90 if tier == 'quick' else 800):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


_made = {}
def fresh(key, **kw):
    """a new extractor: reading the dictionaries takes its time, so the first one is copied, but for what is big"""
    if key not in _made: _made[key] = NewsNounExtractor(**kw)
    x = _made[key]
    return copy.deepcopy(x, {id(v): v for v in vars(x).values() if hasattr(v, '__len__') and len(v) > 5000})


FEATS = [['은', 1000000], ['이', 1000000], ['로', 1000000], ['을', 750000], ['다', -1000000], ['한', 500000]]
def replay(module, case):
    base = [uncps(w) for w in case['base']]
    with scratch() as d:
        fs = [(uncps(r), v) for r, v in case['feats']]
        ext = call(fresh, repr((base, fs)), predictor_fnames=[table(d, fs, 'x')], verbose=False, base_noun_dictionary=base)
    ss = [uncps(s) for s in case['sents']]
    rd = [base, ss, case['minf'], case['min'], case['prop']]
    if isinstance(ext, Exc): return {'ok': False, 'got': repr(ext), 'readable': rd, 'clause': 'constructor'}
    g = call(ext.train_extract, ss, case['minf'], case['min'][0] / case['min'][1], None, case['prop'][0] / case['prop'][1])
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'extract'}
    want = {uncps(w): j for w, j in case['nouns']}
    ok = set(g) == set(want) and all(
        g[w].frequency == j['total'] and abs(g[w].score - (j['num'] / j['norm'] / 1e6 if j['norm'] else 0)) < 1e-6 and g[w].n_positive_feature == j['npos']
        for w, j in want.items())
    return {'ok': ok, 'got': repr(g), 'readable': rd, 'clause': 'nouns'}
