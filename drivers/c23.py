"""C23: LRNounExtractor (version 1)."""
import os, random
from common import *
from gen import *
import soynlp
from soynlp.noun import LRNounExtractor
from soynlp.utils import DoublespaceLineCorpus
MODELS = [{'module': 'MC_NounV1', 'cfg': 'MC_NounV1.cfg', 'cfg_thorough': 'MC_NounV1_t.cfg', 'cases': True,
           'actions': ['DoMake', 'DoTrain', 'DoStart', 'DoPredict', 'DoDiscard', 'DoShare', 'DoFinish']}]
TRACES = [{'module': 'TR_NounV1'}]
ASSUMPTIONS = ['scores are compared up to 0.000001', 'a word whose cohesion equals that of its beginning up to rounding may go either way',
               'where equal scores are told apart by rounding only, the share of known right parts may be that of either', 'the coefficient table that comes with soynlp is taken as it is']
ROOT = os.path.dirname(soynlp.__file__)
with open(os.path.join(ROOT, 'trained_models/noun_predictor_sejong'), encoding='utf-8') as f:
    SEJONG = [l.strip().split('\t') for l in f]
KJ = ['은', '는', '이', '가', '을', '를', '에', '에서', '의', '로', '으로', '과', '와', '도', '만', '까지']
KE = ['하다', '했다', '하는', '다', '고', '지만', '어서', '었다', '면']
MINS = [[1, 2], [1, 2], [1, 2], [0, 1], [3, 4], [1, 5], [1, 1]]


def corpus(r):
    if r.random() < 0.6:
        al = r.choice(['가나', '가나다', 'ab', '사과배감'])
        js = ['j', 'k', 'jk', 'm', 'kj', 'mk', 'jx', 'n', 'nk', 'x']
        if al != 'ab' and r.random() < 0.5: js = ['은', '은은', '도', '은도', '나', '요', '도요', '음', '까', '했']
        coef = [[x, r.choice([1000000, 1000000, 500000, 750000, -1000000, 0, 250000, 125000])] for x in r.sample(js, r.randint(2, 7))]
        if r.random() < 0.4: coef.append([r.choice(al), r.choice([1000000, -500000, 625000])])
        if r.random() < 0.3:
            for x in r.sample(coef, 2): coef.append([x[0], r.choice([1000000, -500000, 625000])])
    else:
        al, js, coef = r.choice(['아이스크림', '사과나무', '고양이학교', '가나다']), KJ + KE, None
    nouns = [word(r, al, 1 if r.random() < 0.2 else 2, 3) for _ in range(r.randint(2, 4))]
    if r.random() < 0.3: nouns.append(nouns[0] + r.choice(js))
    ws = {}
    if r.random() < 0.3:      # a word of its own that begins, or is, a longer right part
        n = r.choice(nouns + [r.choice(al), r.choice('에지고')])
        ks = [x for x, _ in coef] if coef is not None else js
        if coef is not None: coef.append([n[-r.randint(1, len(n)):] + ks[0], r.choice([1000000, -500000, 625000])])
        elif r.random() < 0.5: n = '에'
        for x in ks[:4]: ws[n + x] = r.randint(1, 3)
    if r.random() < 0.1:      # at the largest lengths
        n, x = word(r, al, 9, 11), r.choice([x for x, _ in coef] if coef else js)
        ws[n + x] = ws[n[:10] + x] = 2
        tail = word(r, al, 6, 8)
        for k in (6, 7, 8): ws[nouns[0] + (tail + al)[:k]] = 2
        if coef is not None: coef += [[(tail + al)[:k], 500000] for k in (7, 8)]
    for _ in range(r.randint(3, 12)):
        n = r.choice(nouns)
        if r.random() < 0.3: n += r.choice(nouns)
        n += r.choice(['', r.choice(js), r.choice(js), r.choice(js)])
        if r.random() < 0.08: n += r.choice('.,!')
        n = n[:7]
        ws[n] = min(6, ws.get(n, 0) + r.choice([1, 1, 2, 3]))
    return ws, coef


def substrings(words):
    return {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}


def micro(x):
    return int(round(float(x) * 1000000))


def sentences(r, ws, norm):
    ss = [w for w, n in ws.items() for _ in range(n)]
    r.shuffle(ss)
    out = []
    while ss:
        k = r.randint(1, 6)
        out.append(r.choice([' ', ' ', '  ', ' ' if norm else '\t', ' ' if norm else ' @ ', ' ' if norm else '; ']).join(ss[:k])); ss = ss[k:]
    return out


def table(d, coef, name):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf-8') as f:
        for x, v in coef: f.write('%s\t%f\n' % (x, v / 1000000))
    return p


def history(seed):
    r = random.Random(seed)
    with scratch() as d:
        lm, rm = (10, 7) if r.random() < 0.7 else (r.randint(2, 4), r.randint(1, 4))
        cf = dict(lmax=lm, rmax=rm, minf=r.choice([1, 1, 1, 0, 2, 3]), norm=r.random() < 0.5)
        ws, coef = corpus(r)
        uni = substrings(ws)
        kw = dict(verbose=r.random() < 0.1, min_num_of_features=cf['minf'], ensure_normalized=cf['norm'])
        if (lm, rm) != (10, 7) or r.random() < 0.5: kw.update(max_left_length=lm, max_right_length=rm)
        if coef is not None:
            k = len(coef) // 2
            kw['predictor_fnames'] = [table(d, coef, 'a')] if r.random() < 0.6 else [table(d, coef[:k], 'a'), table(d, coef[k:], 'b')]
            table_ = coef
        else:
            table_ = [[x, micro(v)] for x, v in SEJONG if x in uni]
        ext = call(LRNounExtractor, **kw)
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
        rd, evs = [cf, table_], []
        rec = {'cf': cf, 'exact': coef is not None, 'coef': [[cps(x), v] for x, v in table_], 'events': evs, 'readable': rd}

        def did(ev, g, note):
            ev['exc'] = g.name if isinstance(g, Exc) else ''
            evs.append(ev); rd.append([ev['op'], note, ev['exc'] or repr(g)[:400]])
            return not ev['exc']
        def training():
            m = r.choice([1, 1, 1, 2, 3, 5])
            ss = sentences(r, ws if r.random() < 0.8 else dict(list(ws.items())[1:] or ws.items()), cf['norm'])
            ev = {'op': 'train', 'sents': [cps(s) for s in ss], 'minf': m}
            src = ss
            if r.random() < 0.15:
                p = os.path.join(d, 'corpus.txt')
                with open(p, 'w', encoding='utf-8') as f: f.write('\n'.join('  '.join(s.split()) for s in ss) + '\n')
                src = DoublespaceLineCorpus(p, iter_sent=True)
            if r.random() < 0.12:      # both at once
                q = r.choice(MINS)
                g = call(ext.train_extract, src) if m == 5 and q == [1, 2] else call(ext.train_extract, src, q[0] / q[1], m)
                if not did(ev, g if isinstance(g, Exc) else '', [ss, m]): return False
                ev = {'op': 'extract', 'min': q, 'given': []}
                did(ev, g, ['train_extract', q])
                ev['nouns'] = [[cps(w), x.frequency, micro(x.score), micro(x.known_r_ratio)] for w, x in g.items()]
                return True
            return did(ev, call(ext.train, src, m) if m != 5 or r.random() < 0.3 else call(ext.train, src), [ss, m])
        if not training(): return rec
        for _ in range(r.randint(2, 5)):
            op = r.choice(['extract', 'extract', 'extract', 'predict', 'is_noun', 'train'])
            if op == 'train':
                if r.random() < 0.5 and not training(): return rec
            elif op == 'extract':
                q = r.choice(MINS)
                given = r.sample(sorted(uni), min(len(uni), r.randint(1, 20))) + ['없는말'] if r.random() < 0.25 else []
                ev = {'op': op, 'min': q, 'given': [cps(x) for x in given]}
                kw = {} if q == [1, 2] else dict(min_noun_score=q[0] / q[1])
                if given: kw['noun_candidates'] = given if r.random() < 0.5 else set(given)
                g = call(ext.extract, **kw)
                if not did(ev, g, [q, given]): return rec
                ev['nouns'] = [[cps(w), s.frequency, micro(s.score), micro(s.known_r_ratio)] for w, s in g.items()]
            else:
                w, q = r.choice(sorted(uni)), r.choice(MINS)
                ev = {'op': op, 'w': cps(w), 'min': q}
                g = call(ext.predict, w) if op == 'predict' else call(ext.is_noun, w, q[0] / q[1]) if q != [1, 2] else call(ext.is_noun, w)
                if not did(ev, g, [w, q]): return rec
                if op == 'predict': ev['score'], ev['share'] = micro(g[0]), micro(g[1])
                else: ev['yes'] = bool(g)
        return rec


def corrupt(rec, r):
    evs = [e for e in rec['events'] if e.get('nouns') or 'score' in e]
    if not evs: return None
    e = r.choice(evs)
    if e['op'] == 'predict': e['share'] += 9
    else:
        k = r.choice([1, 2, 3, 4])
        if k == 4 and not any(x.get('canary') for x in evs): e['nouns'].append([[45000], 1, 1, 1])
        else: r.choice(e['nouns'])[k if k < 4 else 1] += 5
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(500 if tier == 'quick' else 7000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


_made = {}
def replay(module, case):
    with scratch() as d:
        cf = case['cf']
        key = (cf['lmax'], cf['rmax'], cf['minf'])
        if key not in _made:
            _made[key] = call(LRNounExtractor, max_left_length=key[0], max_right_length=key[1], min_num_of_features=key[2], verbose=False, ensure_normalized=True,
                              predictor_fnames=[table(d, [['j', 1000000], ['k', 500000], ['jk', 1000000], ['n', -1000000], ['a', 750000]], 'x')])
        ext = _made[key]
        ss = [uncps(s).strip() for s in case['sents']]
        rd = [key, ss, case['minf'], case['min']]
        if isinstance(ext, Exc): return {'ok': False, 'got': repr(ext), 'readable': rd, 'clause': 'constructor'}
        g = call(ext.train_extract, ss, case['min'][0] / case['min'][1], case['minf'])
        if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'extract'}
        want = {uncps(w): (f, x['num'] / x['den'] / 1e6, x['kn'] / x['kd']) for w, f, x in case['nouns']}
        ok = set(g) == set(want) and all(g[w].frequency == f and abs(g[w].score - s) < 1e-6 and abs(g[w].known_r_ratio - k) < 1e-6 for w, (f, s, k) in want.items())
        return {'ok': ok, 'got': repr(g), 'readable': rd, 'clause': 'nouns'}
