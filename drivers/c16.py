"""C16: BaseVectorizer."""
import contextlib, os, random
from common import *
from gen import *
from soynlp.vectorizer import BaseVectorizer
MODELS = [{'module': 'MC_Vectorizer', 'cfg': 'MC_Vectorizer.cfg', 'cfg_thorough': 'MC_Vectorizer_t.cfg', 'cases': True,
           'actions': ['DoFit', 'DoSave', 'DoNew', 'DoLoad']}]
TRACES = [{'module': 'TR_Vectorizer'}]
ASSUMPTIONS = ['at least one document', 'document frequency shares are multiples of 1/16',
               'saved terms have no white space at their ends', 'the arguments stopwords and lowercase have no effect (as shipped)']
TOK = {'white': None, 'chars': lambda s: [c for c in s if not c.isspace()]}


def make(tok, o, r=None):
    kw = {'verbose': False}
    if r is not None and r.random() < 0.1: kw['verbose'] = True
    if tok != 'white': kw['tokenizer'] = TOK[tok]
    if o['mintf'] or (r and r.random() < 0.3): kw['min_tf'] = o['mintf']
    if o['maxtf'] < 99999: kw['max_tf'] = o['maxtf']
    if o['mindf']: kw['min_df'] = o['mindf'] / 16
    if o['maxdf'] != 16: kw['max_df'] = o['maxdf'] / 16
    return BaseVectorizer(**kw)


def cells_of(m):
    m = m.tocoo()
    return [[int(i), int(j), scaled(v, 1)] for i, j, v in zip(m.row, m.col, m.data) if v != 0]


def read_mm(path):
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    if lines[0] != '%%MatrixMarket matrix coordinate integer general': raise Unencodable('Matrix Market header')
    body = [l for l in lines if l and not l.startswith('%')]
    n, m, k = map(int, body[0].split())
    cells = [[int(x) for x in l.split()] for l in body[1:]]
    if len(cells) != k: raise Unencodable('number of matrix entries in the header')
    return [n, m], [[i - 1, j - 1, x] for i, j, x in cells]


def history(seed, many=False):
    r = random.Random(seed)
    tok = r.choice(['white', 'white', 'chars'])
    alpha = r.choice(['ab', '가나다', 'abcdef', '가a1'])
    def docs():
        return [sentence(r, alpha, r.randint(0, 7), 1, r.choice([1, 2])) for _ in range(r.randint(1, 5))]
    vs, opts, calls, text, files = {}, {}, [], [], []
    lib = [docs() for _ in range(2)]
    large = r.random() < 0.08
    if large:                 # counts above a byte, or hundreds of documents
        q, q2 = r.choice(alpha), r.choice(alpha)
        sep = ' ' if tok == 'white' or r.random() < 0.5 else ''
        if r.random() < 0.6: lib[0] = lib[0] + [sep.join([q] * r.choice([127, 128, 129, 255, 256, 257, 300]) + [q2])]
        else: lib[0] = [q] * r.choice([130, 257, 300]) + [q2 + ' ' + q]
    if many:
        large, lib[0] = True, [q0 for q0 in r.sample(alpha, 2) for _ in range(505)] + [' '.join(alpha[:2])]
    with scratch() as d:
        for step in range(r.randint(2, 9)):
            if not vs or r.random() < 0.12: op = 'new'
            elif r.random() < 0.04: op = 'refused'
            else: op = r.choice(['fit', 'fit_transform', 'fit_to_file', 'transform', 'transform', 'to_file', 'encode_list', 'decode_list',
                                 'encode_bow', 'decode_bow', 'save', 'load'])
            if op == 'load' and not files: op = 'save'
            if many and step == 1: op = 'fit_transform'
            v = 'v%d' % r.randint(0, 1) if op == 'new' else r.choice(sorted(vs))
            if op == 'refused':      # arguments that may be out of range
                o = dict(mintf=0, maxtf=99999, mindf=r.choice([-1, 0, 0, 15, 16, 17]), maxdf=r.choice([-1, 0, 1, 16, 16, 17]))
                g = call(make, tok, o)
                calls.append(dict(op=op, o=o, raised=isinstance(g, Exc)))
                text.append([op, o, repr(g)[:60]])
                continue
            if op == 'new':
                opts[v] = dict(mintf=r.choice([0, 0, 1, 2, 3]), maxtf=r.choice([99999, 99999, 3, 5]),
                               mindf=r.choice([0, 0, 4, 6, 8, 15]), maxdf=r.choice([16, 16, 8, 12, 15]))
            if many: opts[v].update(mintf=0, maxtf=99999, mindf=0, maxdf=16)
            o = opts[v]
            texts = r.choice(lib) if r.random() < 0.7 else docs()
            if many and step == 1 or large and r.random() < 0.8: texts = lib[0]
            f = r.choice(files) if op == 'load' else 'f%d' % r.randint(0, 1)
            c = dict(op=op, v=v, f=f, tok=tok, o=o, texts=[], exc='', vocab=[], size=0, index=[], shape=[], cells=[], seq=[], words=[], bow=[], wbow=[])
            def act():
                V = vs.get(v)
                arg = lambda: list(texts) if r.random() < 0.8 else Docs(texts)
                if op == 'new': vs[v] = make(tok, o, r)
                elif op == 'fit': c['texts'] = [cps(x) for x in texts]; V.fit(arg())
                elif op in ('fit_transform', 'transform'):
                    c['texts'] = [cps(x) for x in texts]
                    m = getattr(V, op)(arg())
                    c['shape'], c['cells'] = [int(x) for x in m.shape], cells_of(m)
                elif op in ('to_file', 'fit_to_file'):
                    c['texts'] = [cps(x) for x in texts]
                    path = r.choice(['m.mtx', 'sub/m.mtx'])
                    if r.random() < 0.3:
                        with inside(d): getattr(V, op)(arg(), path)
                    else: getattr(V, op)(arg(), os.path.join(d, path))
                    c['shape'], c['cells'] = read_mm(os.path.join(d, path))
                elif op == 'encode_list':
                    c['texts'] = [cps(texts[0])]; c['seq'] = [int(x) for x in V.encode_a_doc_to_list(texts[0])]
                elif op == 'decode_list':
                    q = [r.randint(-1, 7) for _ in range(r.randint(0, 6))]
                    c['seq'] = list(q); c['words'] = [cps(w) for w in V.decode_from_list(q)]
                elif op == 'encode_bow':
                    c['texts'] = [cps(texts[0])]; c['bow'] = [[int(k), int(n)] for k, n in V.encode_a_doc_to_bow(texts[0]).items()]
                elif op == 'decode_bow':
                    q = {r.randint(-1, 7): r.randint(1, 4) for _ in range(r.randint(0, 6))}
                    c['bow'] = [[k, n] for k, n in q.items()]; c['wbow'] = [[cps(w), n] for w, n in V.decode_from_bow(q).items()]
                elif op == 'save':
                    V.save(os.path.join(d, f + ('.vocab' if r.random() < 0.5 else '')))
                elif op == 'load':
                    V.load(os.path.join(d, f + ('.vocab' if r.random() < 0.5 else '')))
                V = vs[v]
                c['vocab'] = [cps(w) for w in V.vocabs()]
                c['size'] = len(V)
                c['index'] = [[cps(w), int(i)] for w, i in V.vocabulary_.items()]
                if [cps(w) for w in V.idx2vocab] != c['vocab']: raise Unencodable('idx2vocab differs from vocabs()')
            g = call(act)
            if isinstance(g, Exc): c['exc'] = g.name
            if op == 'save': files.append(f)
            calls.append(c)
            text.append([op, v, f, o if op == 'new' else '', [uncps(x) for x in c['texts']], c['exc'], [uncps(x) for x in c['vocab']], c['cells'] or c['seq'] or c['bow']])
    return {'calls': calls, 'readable': {'tokenizer': tok, 'calls': text}}


@contextlib.contextmanager
def inside(d):
    """names of files are relative to d"""
    old = os.getcwd()
    os.chdir(d)
    try: yield
    finally: os.chdir(old)


class Docs:
    """an iterable that is not a list"""
    def __init__(self, docs): self.docs = docs
    def __iter__(self): return iter(self.docs)


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['op'] != 'refused' and (c['cells'] or c['seq'] or c['bow'])]
    if not cs: return None
    c = r.choice(cs)
    if c['cells']: c['cells'][0][2] += 1
    elif c['seq'] and c['op'] == 'encode_list': c['seq'][0] += 1
    elif c['bow'] and c['op'] == 'encode_bow': c['bow'][0][1] += 1
    else: return None
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(400 if tier == 'quick' else 5000):
        seed = rng.random()
        yield lambda: history(seed, i % 150 == 60)
        if i % 20 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    docs = [' '.join(uncps(w) for w in d) for d in case['docs']]
    o = case['o']
    v = make('white', o)
    m = call(v.fit_transform, docs)
    if isinstance(m, Exc): return {'ok': False, 'got': repr(m), 'readable': [docs, o], 'clause': 'fit_transform'}
    words = v.vocabs()
    freq = {uncps(w): n for w, n in zip(case['vocab'], case['freq'])}
    ok = set(words) == set(freq) and len(words) == len(freq) and [freq[w] for w in words] == sorted(freq.values(), reverse=True)
    got = sorted([i, words[j], x] for i, j, x in cells_of(m)) if ok else None
    ok = ok and got == sorted([i, uncps(w), x] for i, w, x in case['cells'])
    return {'ok': ok, 'got': repr((words, got)), 'readable': [docs, o], 'clause': 'vocabulary or matrix'}
