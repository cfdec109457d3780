"""C35: POSExtractor."""
import atexit, os, random, shutil, sys, tempfile
from common import *
from gen import *
# soynlp with small tables of its own: the tables it comes with are data, and too large for the specification
import importlib.util
HERE = tempfile.mkdtemp(dir=os.getcwd())
atexit.register(shutil.rmtree, HERE, True)
PKG = os.path.join(HERE, 'soynlp')
shutil.copytree(os.path.dirname(importlib.util.find_spec('soynlp').origin), PKG, ignore=shutil.ignore_patterns('__pycache__'))
sys.path.insert(0, HERE)
importlib.invalidate_caches()
import soynlp
assert os.path.dirname(os.path.abspath(soynlp.__file__)) == os.path.abspath(PKG), soynlp.__file__
from soynlp.postagger import POSExtractor
from soynlp.utils import DoublespaceLineCorpus
from pred import *
MODELS = [{'module': 'MC_PosExtract', 'cfg': 'MC_PosExtract.cfg', 'cfg_thorough': 'MC_PosExtract_t.cfg', 'cases': True, 'kind': 'kind',
           'actions': ['', 'nouns ', 'predicators', 'nouns predicators']}]
TRACES = [{'module': 'TR_PosExtract'}]
ASSUMPTIONS = ['run on a copy of the package whose tables of features, particles, stems and endings are small',
               'stems consist of complete Hangul syllables; sentences are sized and not empty',
               'entropies and mean scores equal to their limit up to rounding may fall on either side']


def lines(name):
    with open(os.path.join(PKG, name), encoding='utf-8') as f: return {x.strip() for x in f}

def put(name, ls):
    with open(os.path.join(PKG, name), 'w', encoding='utf-8') as f:
        for x in ls: f.write(x + '\n')

JOSAS, SUFFIX = lines('noun/frequent_enrolled_josa.txt'), lines('noun/frequent_noun_suffix.txt')
NOUN = ['사과', '바나나', '학교', '고양이', '먹이', '가지', '배', '나무', '책상', '컴퓨터', '물병']
POS = ['는', '은', '이', '가', '를', '을', '도', '만', '에', '에서', '로', '의', '이다', '까지']
NEG = ['하고', '하는', '다', '었다', '지만', '고', '는다', '어서', '면']
DOM = ['뿐', '마저', '밖에']


def substrings(words):
    return {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}


def setup(r):
    pos, neg = r.sample(POS, r.randint(2, 8)), r.sample(NEG, r.randint(1, 6))
    rich = r.random() < 0.4
    ws, stems, nouns, ends = predicators(r, rich=rich, odd=False)
    if rich and r.random() < 0.7:      # endings that begin with more than ten characters
        for e in EOMI:
            if e not in ends and r.random() < 0.8: ends.append(e)
        new = r.choice(NEW)
        for s in [new] + stems[:1]:
            for e in ends:
                for w in sorted(conjugate(s, e))[:1]:
                    if all('가' <= x <= '힣' for x in w): ws[w] = 10
    k = r.choice([1, 5, 10, 10, 30])
    ws = {w: n * k + r.choice([0, 0, 1]) for w, n in ws.items()}
    ns = r.sample(NOUN, r.randint(1, 5)) + nouns[:1]
    dom = r.choice(DOM) if r.random() < 0.35 else None
    if dom: ns = r.sample(NOUN, r.randint(5, 8))
    for n in ns:
        for j in r.sample(pos + ['', '들'], min(len(pos), r.randint(1, 5))) + ([dom] if dom else []):
            ws[n + j] = ws.get(n + j, 0) + r.choice([1, 3, 5, 10, 12, 14, 17, 40])
        if dom and r.random() < 0.9:
            ws[n + pos[0]] = 130
            ws[n + dom] = r.choice([150, 200, 250, 300])
        if r.random() < 0.2: ws[n + r.choice(neg)] = r.choice([1, 11, 60])
        if r.random() < 0.15: ws[n + r.choice(sorted(ws))] = r.choice([2, 10, 15])
    adjs = [s for s in stems if s in ('푸르', '예쁘', '파랗', '크', '좋', '없')]
    verbs = [s for s in stems if s not in adjs or r.random() < 0.1]
    return ws, pos, neg, adjs, verbs, sorted(set(ends)), r.sample(JOSA, r.randint(1, 6))


def sentences(r, ws):
    """[(sentence, how often)] with exactly these eojeol counts"""
    out, left = [], dict(ws)
    while left:
        some = r.sample(sorted(left), min(len(left), r.randint(1, 6)))
        n = min(left[w] for w in some)
        if n > 1 and r.random() < 0.3: n = r.randint(1, n - 1)
        for w in some:
            left[w] -= n
            if not left[w]: del left[w]
        out.append((r.choice([' ', ' ', '  ']).join(some), n))
    return out


def score(x):
    return int(round(float(x) * 100000))


def history(seed):
    r = random.Random(seed)
    ws, pos, neg, adjs, verbs, ends, josas = setup(r)
    put('trained_models/noun_predictor_ver2_pos', pos)
    put('trained_models/noun_predictor_ver2_neg', neg)
    put('lemmatizer/dictionary/default/Stem/Adjective.txt', ['%s %d' % (x, r.choice([2, 5])) for x in adjs] + ['나쁘 1'])
    put('lemmatizer/dictionary/default/Stem/Verb.txt', ['%s %d' % (x, r.choice([2, 900])) for x in verbs] + ['뒤집 1'])
    put('lemmatizer/dictionary/default/Eomi/Eomi.txt', ['%s %d' % (x, r.choice([20, 100])) for x in ends] + ['더라고요 19'])
    put('postagger/dictionary/default/Josa/josa_chat.txt', josas)
    lm, rm = (10, 8) if r.random() < 0.7 else (r.randint(2, 5), r.randint(2, 5))
    kw = dict(verbose=r.random() < 0.2)
    if (lm, rm) != (10, 8) or r.random() < 0.2: kw.update(l_max_length=lm, r_max_length=rm)
    runs, rd = [], [[pos, neg, adjs, verbs, ends, josas, kw]]
    with scratch() as d:
        if r.random() < 0.1: kw['logpath'] = os.path.join(d, 'log', 'x')
        ext = call(POSExtractor, **kw)
        if isinstance(ext, Exc): raise Unencodable('constructor raised ' + ext.name)
        many = [ws] + ([{w: n for w, n in ws.items() if r.random() < 0.8} or ws] if r.random() < 0.1 else [])
        for counts in many:
            ss = sentences(r, counts)
            sents = [s for s, n in ss for _ in range(n)]
            r.shuffle(sents)
            if r.random() < 0.1:
                p = os.path.join(d, 'corpus.txt')
                with open(p, 'w', encoding='utf-8') as f: f.write('\n'.join('  '.join(s.split()) for s in sents) + '\n')
                sents = DoublespaceLineCorpus(p, iter_sent=True)
            g = call(ext.extract, sents)
            run = {'sents': [[cps(s), n] for s, n in ss], 'exc': g.name if isinstance(g, Exc) else '', 'nouns': [], 'adjs': [], 'verbs': []}
            runs.append(run)
            rd.append([counts, repr(g)])
            if not run['exc']:
                ns, (a, v) = g
                run['nouns'] = [[cps(w), s.frequency, score(s.score)] for w, s in ns.items()]
                run['adjs'], run['verbs'] = [[[cps(w), p.frequency, [[cps(s), cps(e)] for s, e in p.lemma]] for w, p in y.items()] for y in (a, v)]
    uni = substrings(ws)
    E = lambda xs: [cps(x) for x in sorted(xs)]
    return {'lmax': lm, 'rmax': rm, 'pos': E(pos), 'neg': E(neg), 'josa': E(uni & JOSAS), 'suffix': E(uni & SUFFIX), 'josas': E(josas),
            'adjs': E(adjs), 'verbs': E(verbs), 'ends': E(ends), 'runs': runs, 'readable': rd}


def corrupt(rec, r):
    run = rec['runs'][0]
    ks = [k for k in ('nouns', 'adjs', 'verbs') if run[k]]
    if not ks: return None
    x = run[r.choice(ks)]
    if r.random() < 0.5: x.pop()
    else: r.choice(x)[1] += 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(240 if tier == 'quick' else 3000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    ws = {uncps(w): n for w, n in case['words']}
    for name, ls in (('trained_models/noun_predictor_ver2_pos', ['는', '를', '고']), ('trained_models/noun_predictor_ver2_neg', ['지', '하고', '고']),
                     ('lemmatizer/dictionary/default/Stem/Adjective.txt', []), ('lemmatizer/dictionary/default/Stem/Verb.txt', ['가 2', '하 2']),
                     ('lemmatizer/dictionary/default/Eomi/Eomi.txt', ['고 20']), ('postagger/dictionary/default/Josa/josa_chat.txt', ['는', '를'])):
        put(name, ls)
    g = call(POSExtractor(verbose=False).extract, [' '.join([w] * n) for w, n in ws.items()])
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': ws, 'clause': 'extract'}
    want = {uncps(w): x for w, x in case['nouns']}
    ok = set(g[0]) == set(want) and all(g[0][w].frequency == x[0] and abs(g[0][w].score - x[1] / x[2]) < 1e-6 for w, x in want.items())
    if not ok: return {'ok': False, 'got': repr(g), 'readable': ws, 'clause': 'nouns'}
    got = [{w: (p.frequency, p.lemma) for w, p in y.items()} for y in g[1]]
    want = [{uncps(w): (n, {(uncps(s), uncps(e)) for s, e in l}) for w, n, l in case[k]} for k in ('adjs', 'verbs')]
    return {'ok': got == want, 'got': repr(g), 'readable': ws, 'clause': 'predicators'}
