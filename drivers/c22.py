"""C22: LRNounExtractor_v2."""
import os, random
from common import *
from gen import *
import soynlp
from soynlp.noun import LRNounExtractor_v2, extract_domain_pos_features
from soynlp.utils import LRGraph, EojeolCounter, DoublespaceLineCorpus
from lrg import dictof, universe_of
MODELS = [{'module': 'MC_NounV2', 'cfg': 'MC_NounV2.cfg', 'cfg_thorough': 'MC_NounV2_t.cfg', 'cases': True,
           'actions': ['Make', 'DoTrain', 'DoStart', 'DoPredict', 'DoCombine', 'PostOne', 'Finish']}]
TRACES = [{'module': 'TR_NounV2'}]
ASSUMPTIONS = ['graphs given to the extractor are not frozen', 'scores are compared up to 0.000001',
               'right parts whose entropy equals a threshold up to rounding may be particles or not',
               'the feature and particle tables that come with soynlp are taken as they are',
               'ensure_normalized is left at False']
STEPS = ['detaching_features', 'ignore_features', 'ignore_NJ']
ROOT = os.path.dirname(soynlp.__file__)


def lines(name):
    with open(os.path.join(ROOT, name), encoding='utf-8') as f:
        return {x.strip() for x in f}

DEFAULT_POS, DEFAULT_NEG = lines('trained_models/noun_predictor_ver2_pos'), lines('trained_models/noun_predictor_ver2_neg')
JOSA, SUFFIX = lines('noun/frequent_enrolled_josa.txt'), lines('noun/frequent_noun_suffix.txt')
KJ = ['은', '는', '이', '가', '을', '를', '에', '에서', '의', '로', '으로', '과', '와', '도', '만', '까지', '에게', '고', '라고', '이라고', '보다', '부터']
KE = ['하다', '했다', '한', '하는', '다', '고', '는', '자는', '지만', '어서', '었다', '면', '합니다', '한다', '아', '서']
MINS = [[3, 10], [3, 10], [3, 10], [0, 1], [1, 2], [9, 10], [1, 10], [1, 1]]


def table(d, pos, neg, name='h'):
    for k, ws in (('pos', pos), ('neg', neg)):
        with open(os.path.join(d, '%s_%s' % (name, k)), 'w', encoding='utf-8') as f:
            for w in ws: f.write(w + '\n')
    return os.path.join(d, name)


def build(d, r, cf, feats):
    kw = dict(max_left_length=cf['lmax'], max_right_length=cf['rmax'], min_num_of_features=cf['minf'], verbose=r.random() < 0.1,
              max_frequency_when_noun_is_eojeol=cf['maxend'], extract_compound=cf['compound'])
    if (cf['lmax'], cf['rmax']) == (10, 9): del kw['max_left_length'], kw['max_right_length']
    if cf['steps'] != STEPS or r.random() < 0.3:
        kw['postprocessing'] = cf['steps'][0] if len(cf['steps']) == 1 and r.random() < 0.5 else list(cf['steps'])
    if cf['domain']: kw['extract_pos_feature'] = True
    if r.random() < 0.1: kw['logpath'] = os.path.join(d, 'log', 'x')
    if feats:
        p, n = feats
        if len(p) > 3 and r.random() < 0.3:      # the tables may be spread over several files
            k = len(p) // 2
            kw['predictor_headers'] = [table(d, p[:k], n, 'h1'), table(d, p[k:], n[:1], 'h2')]
        else:
            h = table(d, p, n)
            kw['predictor_headers'] = h if r.random() < 0.5 else [h]
    return call(LRNounExtractor_v2, **kw)


def corpus(r):
    """nouns with particles, compounds, verbs, in counted eojeols; returns words and the feature tables used"""
    if r.random() < 0.5:
        al = r.choice(['가나', '가나다', '사과배감'])
        js, es = ['j', 'k', 'jk', 'm', 'kj', 'mk', 'jx'], ['n', 'nk', 'x', 'kn', 'm']
        pos, neg = r.sample(js, r.randint(2, 6)), r.sample(es, r.randint(1, 4))
        if r.random() < 0.4: pos.append(r.choice(al))
        feats = (pos, neg)
        js = js + ['x', 'y', 'yj']
    else:
        al = r.choice(['아이스크림', '사과나무', '고양이학교', '가나다'])
        js, es, feats = KJ, KE, None
    nouns = [word(r, al, 1 if r.random() < 0.2 else 2, 3) for _ in range(r.randint(2, 4))]
    if r.random() < 0.3: nouns.append(nouns[0] + r.choice(js))
    ws = {}
    heavy = r.random() < 0.25
    for _ in range(r.randint(3, 14)):
        n = r.choice(nouns)
        if r.random() < 0.3: n += r.choice(nouns)
        if r.random() < 0.1: n += r.choice(nouns)
        e = r.choice(['', r.choice(js), r.choice(js), r.choice(es)])
        ws[n + e] = ws.get(n + e, 0) + (r.choice([1, 1, 2, 3, 7]) if not heavy else r.choice([1, 5, 31, 33]))
    if r.random() < 0.3:
        n = r.choice(nouns)
        for j in r.sample(js, min(6, len(js))): ws[n + j] = ws.get(n + j, 0) + r.choice([1, 2, 9])
        ws[n] = ws.get(n, 0) + r.choice([1, 2, 9])
    return ws, feats, al


def domain(r):
    """many nouns of different last characters with known particles, and one or two particles of the domain"""
    ends, js, es, new = '가나다라마바사', ['j', 'k', 'jk', 'm'], ['n', 'x', 'nk'], ['p', 'pq', 'qj', '가p', 'k가', 'q', 'np']
    pos, neg = r.sample(js, r.randint(1, 3)), r.sample(es, r.randint(1, 2))
    mine = r.sample(new, r.randint(1, 3))
    nouns = [word(r, '아사', 1, 2) + c for c in r.sample(ends, r.choice([7, 7, 7, 6, 5]))]
    ws = {}
    for n in nouns:
        for j in r.sample(pos, r.randint(1, len(pos))): ws[n + j] = r.choice([100, 101, 150, 150, 200, 200, 250, 99])
        for j in mine:
            if r.random() < 0.95: ws[n + j] = r.choice([150, 200, 200, 250, 300])
        if r.random() < 0.15: ws[n + r.choice(neg)] = r.choice([20, 60, 100, 300])
        if r.random() < 0.2: ws[n] = r.choice([5, 31, 200])
        if r.random() < 0.2: ws[n + r.choice(nouns) + r.choice(['', r.choice(pos), mine[0]])] = r.choice([1, 5, 40, 150])
    if r.random() < 0.5:       # another word with the particle of the domain: is it a noun?
        ws['다다' + mine[0]] = r.choice([5, 90, 700])
        if r.random() < 0.5: ws['다다' + r.choice(neg)] = r.choice([5, 90])
    if r.random() < 0.3: ws['다라나나' + mine[0]] = r.choice([900, 2000])
    if r.random() < 0.2: ws[nouns[0] + 'z'] = 1200
    return ws, (pos, neg), ends


def joined(r):
    """nouns that are another noun with a particle, around the limits of the rules for them"""
    both = sorted(JOSA & SUFFIX)
    feats = r.sample(['는', '를', '도', '가', '로', '까지'], r.randint(2, 4)), r.sample(['하는', '다'], 1)
    js = r.sample(sorted(j for j in JOSA if len(j) <= 2 and j not in feats[0]), 6)
    ws = {}
    def noun(n, k):
        for j in r.sample(feats[0], 2): ws[n + j] = k
    base = [word(r, '사과나무', r.choice([1, 2, 2, 2]), 3) for _ in range(r.randint(1, 2))]
    for b in base:
        k = r.choice([3, 5, 6])
        noun(b, k)
        known = sum(1 for j in feats[0] if b + j in ws and j in JOSA)
        for j in r.sample(js, max(0, r.choice([4, 5, 5, 5, 6]) - known)): ws[b + j] = ws.get(b + j, 0) + 1
        for _ in range(r.randint(1, 3)):
            e = r.choice(both) if both and r.random() < 0.3 else r.choice(js + feats[0] + ['무', '사는'])
            noun(b + e, k + r.choice([-2, -1, 0, 0, 1, 2]))
    return ws, feats, '사과'


def pick_features(universe, feats):
    if feats: return list(feats[0]), list(feats[1])
    return sorted(universe & DEFAULT_POS), sorted(universe & DEFAULT_NEG)


def view(graph, universe):
    out = []
    for w in sorted(universe):
        g = call(graph.get_r, w, -1)
        if isinstance(g, Exc): raise Unencodable('lookup of %r raised %s' % (w, g.name))
        out += [[cps(w), cps(x), n] for x, n in g]
    return out


def micro(x):
    return int(round(float(x) * 1000000))


def substrings(words):
    return {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}


def train(r, ext, ws, ev, d, cf, kind=None):
    kind = kind or r.choice(['sents', 'sents', 'words', 'rel'])
    ev['from'] = kind
    if kind == 'words':
        ec = EojeolCounter([''])
        p = os.path.join(d, 'counts')
        with open(p, 'w', encoding='utf-8') as f:
            for w, n in ws.items(): f.write('%s %d\n' % (w, n))
        ec.load(p)
        ev['words'] = [[cps(w), n] for w, n in ws.items()]
        return lambda: ext.train(ec), ec, 1
    if kind == 'rel':
        tr = {}
        for w, n in ws.items():
            for i in range(1, len(w) + 1):
                if r.random() < 0.9: tr[w[:i], w[i:]] = n if r.random() < 0.9 else n + 1
        tr = tr or {('a', ''): 1}
        g = LRGraph(lrgraph=dictof([(a, b, n) for (a, b), n in tr.items()]))
        ev['rel'] = [[cps(a), cps(b), n] for (a, b), n in tr.items()]
        return lambda: ext.train(g), g, 1
    ss = [w for w, n in ws.items() for _ in range(n)]
    r.shuffle(ss)
    sents = []
    while ss:
        k = r.randint(1, 6)
        sents.append(r.choice([' ', ' ', '  ']).join(ss[:k])); ss = ss[k:]
    ev['sents'], ev['minc'] = [cps(s) for s in sents], r.choice([1, 1, 1, 2])
    if r.random() < 0.15:
        p = os.path.join(d, 'corpus.txt')
        with open(p, 'w', encoding='utf-8') as f: f.write('\n'.join('  '.join(s.split()) for s in sents) + '\n')
        sents = DoublespaceLineCorpus(p, iter_sent=True)
    m = ev['minc']
    return (lambda: ext.train(sents) if m == 1 else ext.train(sents, m)), sents, m


def conf(r):
    steps = list(STEPS) if r.random() < 0.6 else r.sample(STEPS, r.randint(1, 3))
    lm, rm = (10, 9) if r.random() < 0.8 else (r.randint(2, 4), r.randint(1, 4))
    many = r.random() < 0.12
    return dict(domain=many, lmax=lm, rmax=rm, minf=r.choice([1, 1, 1, 0, 2, 3]) if not many else r.choice([0, 0, 0, 1]), maxend=r.choice([30, 30, 2, 5]), compound=r.random() < 0.8, steps=steps)


def history(seed):
    r = random.Random(seed)
    with scratch() as d:
        cf = conf(r)
        ws, feats, al = domain(r) if cf['domain'] else joined(r) if r.random() < 0.15 else corpus(r)
        more = corpus(random.Random(seed + 1))[0] if not cf['domain'] and r.random() < 0.1 and feats is None else None
        uni = substrings(list(ws) + list(more or ()))
        pos, neg = pick_features(uni, feats)
        ext = build(d, r, cf, feats)
        rd, evs = [cf, pos, neg], []
        rec = {'cf': dict(cf, josa=[cps(x) for x in sorted(uni & JOSA)], suffix=[cps(x) for x in sorted(uni & SUFFIX)]),
               'pos': [cps(x) for x in pos], 'neg': [cps(x) for x in neg], 'events': evs, 'readable': rd}
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
        seen = False

        def did(ev, g, note):
            ev['exc'] = g.name if isinstance(g, Exc) else ''
            evs.append(ev); rd.append([ev['op'], note, ev['exc'] or repr(g)[:300]])
            return not ev['exc']
        ev = {'op': 'train'}
        f, inputs, m = train(r, ext, ws, ev, d, cf, r.choice(['words', 'words', 'rel']) if cf['domain'] else None)
        if r.random() < 0.1:       # both at once
            did(ev, None, [ev['from'], sorted(ws.items())])
            q, mf, reset = r.choice(MINS), r.choice([1, 1, 1, 0, 2, 5]), r.random() < 0.6
            ev = {'op': 'extract', 'min': q, 'minf': mf, 'reset': reset, 'domain': cf['domain']}
            if r.random() < 0.3 and m == 1 and (q, mf, reset) == ([3, 10], 1, True): g = call(ext.train_extract, inputs)
            else: g = call(ext.train_extract, inputs, q[0] / q[1], mf, m, reset)
            if not did(ev, g, ['train_extract', q, mf, reset]): return rec
            ev['nouns'] = [[cps(w), s.frequency, micro(s.score)] for w, s in g.items()]
            ev['left'] = view(ext.lrgraph, uni)
            seen = True
        elif not did(ev, call(f), [ev['from'], sorted(ws.items())]): return rec
        for _ in range(r.randint(2, 6)):
            op = r.choice(['extract', 'extract', 'extract', 'predict', 'predict', 'decompose', 'particles', 'train'])
            if op == 'train':
                if not more: continue
                ev = {'op': op}
                f = train(r, ext, more, ev, d, cf)[0]
                if not did(ev, call(f), [ev['from'], sorted(more.items())]): return rec
            elif op == 'extract':
                q, mf, reset = r.choice(MINS), r.choice([1, 1, 1, 0, 2, 5]), r.random() < 0.6
                ev = {'op': op, 'min': q, 'minf': mf, 'reset': reset, 'domain': cf['domain']}
                kw = {} if (q, mf, reset) == ([3, 10], 1, True) else dict(min_noun_score=q[0] / q[1], min_noun_frequency=mf, reset_lrgraph=reset)
                g = call(ext.extract, **kw)
                if not did(ev, g, [q, mf, reset]): return rec
                ev['nouns'] = [[cps(w), s.frequency, micro(s.score)] for w, s in g.items()]
                ev['left'] = view(ext.lrgraph, uni)
                seen = True
            elif op == 'predict':
                q, w = r.choice(MINS), r.choice(sorted(uni))
                ev = {'op': op, 'min': q, 'w': cps(w)}
                g = call(ext.predict, w, q[0] / q[1]) if q != [3, 10] else call(ext.predict, w)
                if not did(ev, g, [w, q]): return rec
                ev['support'], ev['score'] = g[0], micro(g[1])
            elif op == 'decompose':
                if not seen or not cf['compound']: continue
                w = ''.join(r.choice(sorted(uni)) for _ in range(r.randint(1, 2)))[:9]
                ev = {'op': op, 'w': cps(w)}
                g = call(ext.decompose_compound, w)
                if not did(ev, g, w): return rec
                ev['parts'] = [cps(x) for x in g]
            elif op == 'particles':
                a = dict(nscore=r.choice(MINS), nfreq=r.choice([1, 2, 3]), pscore=r.choice([[3, 10], [1, 10], [6, 10]]), pfreq=r.choice([1, 2, 4]),
                         nlast=r.choice([0, 1, 2]), elast=r.choice([0, 0, 300000, 600000]), enoun=r.choice([0, 0, 300000, 900000]))
                ign = None
                if r.random() < 0.5:      # endings of eojeols, or anything
                    tails = sorted({w[-k:] for w in ws for k in (1, 2) if len(w) > k} - set(pos))
                    ign = r.sample(tails, min(len(tails), r.randint(0, 4))) if r.random() < 0.7 else r.sample(sorted(uni), min(len(uni), 2))
                given = None
                if r.random() < 0.3: given = r.sample(sorted(uni), min(len(uni), 4))
                append = r.random() < 0.8
                ev = {'op': op, 'a': dict(a, ignore=[cps(x) for x in ign or ()]), 'given': [cps(x) for x in given or ()], 'append': append}
                kw = dict(min_noun_score=a['nscore'][0] / a['nscore'][1], min_noun_frequency=a['nfreq'], min_pos_score=a['pscore'][0] / a['pscore'][1],
                          min_pos_feature_frequency=a['pfreq'], min_num_of_unique_lastchar=a['nlast'], min_entropy_of_lastchar=a['elast'] / 1e6,
                          min_noun_entropy=a['enoun'] / 1e6, append_extracted_features=append)
                if given: kw['noun_candidates'] = given
                if ign is not None: kw['ignore_features'] = set(ign)
                g = call(ext.extract_domain_pos_features, **kw)
                if not did(ev, g, repr(kw)): return rec
                ev['left'] = view(ext.lrgraph, uni)
                seen = False
        return rec


def limits(seed):
    """prediction by itself: few kinds of right parts, with counts around the limits of the rules"""
    r = random.Random(seed)
    with scratch() as d:
        cf = dict(conf(r), domain=False, minf=r.choice([0, 1, 1, 2]), compound=False)
        feats = (['j', 'k', 'jk', 'c', 'cj'], ['n', 'nk', 'c', 'cj'])
        ls = sorted({word(r, '가나다라', 1, 2) for _ in range(r.randint(3, 9))})
        rel = {}
        for l in ls:
            kinds = r.sample(['', 'j', 'c', 'n', 'x', 'jk', 'k', 'nk', 'cj', 'cx', '나', '나j', '나n'], r.choice([1, 2, 2, 3, 3, 4]))
            if r.random() < 0.5: kinds = list({'', *kinds})
            if r.random() < 0.3:        # the shares 0.3 and 0.5, and the limit on frequent eojeols
                total, end = r.choice([(10, 3), (10, 2), (10, 4), (20, 6), (2, 1), (cf['maxend'] * 4, cf['maxend']), (cf['maxend'] * 4 + 4, cf['maxend'] + 1)])
                rest = [k for k in kinds if k] or ['c']
                part = [(total - end) // len(rest)] * len(rest)
                part[0] += total - end - sum(part)
                rel[l, ''] = end
                for k, n in zip(rest, part): rel[l, k] = max(n, 1)
            else:
                for k in kinds: rel[l, k] = r.choice([1, 1, 1, 2, 3, 5, 7])
        rel = {(a, b): n for (a, b), n in rel.items() if len(b) <= cf['rmax']}
        if not rel: rel = {('가', 'j'): 1}
        uni = substrings([a + b for a, b in rel])
        ext = build(d, r, cf, feats)
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
        ws = sorted(rel.items())
        rd, evs = [cf, feats], [{'op': 'train', 'from': 'rel', 'rel': [[cps(a), cps(b), n] for (a, b), n in ws], 'exc': ''}]
        g = call(ext.train, LRGraph(lrgraph=dictof([(a, b, n) for (a, b), n in ws])))
        if isinstance(g, Exc): raise Unencodable('train raised ' + g.name)
        rd.append(ws)
        for l in ls:
            q = r.choice(MINS)
            g = call(ext.predict, l, q[0] / q[1])
            ev = {'op': 'predict', 'min': q, 'w': cps(l), 'exc': g.name if isinstance(g, Exc) else ''}
            evs.append(ev); rd.append(['predict', l, q, repr(g)])
            if ev['exc']: break
            ev['support'], ev['score'] = g[0], micro(g[1])
        return {'cf': dict(cf, josa=[cps(x) for x in sorted(uni & JOSA)], suffix=[cps(x) for x in sorted(uni & SUFFIX)]),
                'pos': [cps(x) for x in feats[0]], 'neg': [cps(x) for x in feats[1]], 'events': evs, 'readable': rd}


def search(seed):
    """extract_domain_pos_features by itself"""
    r = random.Random(seed)
    evs, rd = [], []
    for _ in range(r.randint(3, 7)):
        al = r.choice(['가나', '가나다', '사과배감'])
        nouns = sorted({word(r, al, r.choice([1, 2]), 3) for _ in range(r.randint(2, 8))})
        bits = ['j', 'k', 'p', 'q', 'pj']
        rs = sorted({r.choice(['', r.choice(nouns), al[0], '']) + r.choice(bits) for _ in range(r.randint(1, 7))} | ({''} if r.random() < 0.3 else set())
                    | ({r.choice(nouns)} if r.random() < 0.3 else set()))
        known = r.sample(rs, r.randint(0, len(rs) // 2)) + (['z'] if r.random() < 0.2 else [])
        ign = r.sample(rs, r.randint(0, len(rs) // 2)) if r.random() < 0.5 else None
        if r.random() < 0.5:      # a noun with a particle after it, as a particle: known, found, to be ignored or neither
            n = r.choice(nouns)
            rs = sorted(set(rs) | {n + b for b in r.sample(bits, 3)} | set(bits))
            known, ign = r.sample(bits, 1), r.sample(bits, 2)
        rel = {(l, x): r.choice([1, 1, 2, 3, 5, 9]) for l in nouns + [word(r, al, 1, 3)] for x in rs if r.random() < 0.7}
        if not rel: continue
        scores = {w: [r.choice([0, 2, 3, 9, 9, 9]), r.choice([-10, 3, 4, 10, 10, 10, 10]), 10] for w in nouns if r.random() < 0.9}
        a = dict(nscore=r.choice(MINS), nfreq=r.choice([0, 0, 1, 2, 3]), pscore=r.choice([[3, 10], [1, 10], [0, 1], [0, 1], [6, 10], [1, 1]]), pfreq=r.choice([0, 0, 1, 2, 4, 6]),
                 nlast=r.choice([0, 0, 0, 1, 2, 3]), elast=r.choice([0, 0, 0, 300000, 600000]), enoun=r.choice([0, 0, 0, 300000, 900000]))
        g = LRGraph(lrgraph=dictof([(x, y, n) for (x, y), n in rel.items()]))
        given = {w: (f, n / d) for w, (f, n, d) in scores.items()}
        got = call(extract_domain_pos_features, given, g, r.choice([set, list])(known), ign if ign is None else set(ign), a['nscore'][0] / a['nscore'][1], a['nfreq'],
                   a['pscore'][0] / a['pscore'][1], a['pfreq'], a['nlast'], a['elast'] / 1e6, a['enoun'] / 1e6)
        evs.append({'op': 'search', 'exc': got.name if isinstance(got, Exc) else '', 'scores': [[cps(w)] + x for w, x in scores.items()],
                    'rel': [[cps(x), cps(y), n] for (x, y), n in rel.items()], 'known': [cps(x) for x in known], 'a': dict(a, ignore=[cps(x) for x in ign or ()]),
                    'found': [] if isinstance(got, Exc) else [[cps(x), f, micro(v)] for x, (v, f) in got.items()]})
        rd.append([scores, sorted(rel.items()), known, ign, a, repr(got)])
    return {'cf': dict(lmax=10, rmax=9, minf=1, maxend=30, compound=False, domain=False, steps=STEPS, josa=[], suffix=[]), 'pos': [], 'neg': [], 'events': evs, 'readable': rd}


def corrupt(rec, r):
    evs = [e for e in rec['events'] if e.get('nouns') or e.get('support')]
    if not evs: return None
    e = r.choice(evs)
    if e['op'] == 'predict': e['support'] += 1
    else:
        k = r.choice([1, 2, 3])
        if k == 3: e['nouns'].pop()
        else: r.choice(e['nouns'])[k] += 5
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: search(seed) if seed % 0.1 < 0.015 else limits(seed) if seed % 0.1 < 0.03 else history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


_made = {}
def replay(module, case):
    with scratch() as d:
        key = (case['minf'], case['maxend'])
        if key not in _made:
            _made[key] = call(LRNounExtractor_v2, predictor_headers=table(d, ['j', 'k', 'jk', 'c'], ['n', 'nk', 'c']), verbose=False,
                              min_num_of_features=case['minf'], max_frequency_when_noun_is_eojeol=case['maxend'])
        ext = _made[key]
        ws = [(uncps(w), n) for w, n in case['words']]
        rd = [key, ws, case['min'], case['reset']]
        if isinstance(ext, Exc): return {'ok': False, 'got': repr(ext), 'readable': rd, 'clause': 'constructor'}
        sents = [' '.join([w] * n) for w, n in ws]
        def f():
            ext.train(sents)
            return ext.extract(case['min'][0] / case['min'][1], case['args_minf'], case['reset'])
        g = call(f)
        if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'extract'}
        want = {uncps(w): x for w, x in case['nouns']}
        ok = set(g) == set(want) and all(g[w].frequency == x[0] and abs(g[w].score - x[1] / x[2]) < 1e-6 for w, x in want.items())
        if not ok: return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'nouns'}
        left = sorted(view(ext.lrgraph, substrings([w for w, _ in ws])))
        return {'ok': left == sorted(case['rel']), 'got': left, 'readable': rd, 'clause': 'what is left'}
