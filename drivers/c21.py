"""C21: WordExtractor scores and extraction."""
import random
from common import *
from gen import *
import wx
MODELS = [{'module': 'MC_WordExtract', 'cfg': 'MC_WordExtract.cfg', 'cfg_thorough': 'MC_WordExtract_t.cfg', 'cases': True,
           'actions': ['DoCreate', 'DoTrain', 'DoAdd', 'DoEnd']}]
TRACES = [{'module': 'TR_WordExtract'}]
ASSUMPTIONS = ['entropies are compared up to 0.00002', 'a score that equals its threshold up to rounding may be on either side',
               'neighbour counts up to 150 (logarithm table)']


def micro(x):
    return int(round(float(x) * 1000000))


def coh(c, w):
    return frac_root(c, len(w) - 1)


def frac_root(c, n):
    return wx.frac(float(c) ** n if n > 0 else float(c))


def scores(r, we, asked, text):
    kind = r.choice(['single', 'tables', 'scores', 'extract', 'extract', 'extract'])
    if kind == 'single':
        ask = (asked if len(asked) < 12 else r.sample(asked, 12)) + ['없다', '']
        def f():
            out = []
            for w in ask:
                c, b, a = we.cohesion_score(w), we.branching_entropy(w), we.accessor_variety(w)
                out.append([cps(w), coh(c[0], w), coh(c[1], w), micro(b[0]), micro(b[1]), int(a[0]), int(a[1])])
            return {'single': out}
    elif kind == 'tables':
        def f():
            return {'coh': [[cps(w), coh(a, w), coh(b, w)] for w, (a, b) in we.all_cohesion_scores().items()],
                    'be': [[cps(w), micro(a), micro(b)] for w, (a, b) in we.all_branching_entropy().items()],
                    'av': [[cps(w), a, b] for w, (a, b) in we.all_accessor_variety().items()],
                    'sums': [[cps(w), a, b] for w, (a, b) in we.all_branching_entropy(get_score=lambda x: sum(x.values())).items()]}
    elif kind == 'scores':
        def f():
            return {'scores': [row(w, s) for w, s in we.word_scores().items()]}
    else:
        given = r.random() < 0.3
        def f():
            g = we.extract(we.word_scores()) if given else we.extract()
            text.append(['extracted', sorted(g)])
            return {'got': [cps(w) for w in g]}
    yield wx.watch(kind, f)


def row(w, s):
    return [cps(w), coh(s.cohesion_forward, w), coh(s.cohesion_backward, w), micro(s.left_branching_entropy), micro(s.right_branching_entropy),
            s.left_accessor_variety, s.right_accessor_variety, s.leftside_frequency, s.rightside_frequency]


def corrupt(rec, r):
    evs = [e for e in rec['events'] if not e['exc'] and (e.get('single') or e.get('be') or e.get('scores') or e.get('got'))]
    if not evs: return None
    e = r.choice(evs)
    if e.get('got'): e['got'].append([45000])
    elif e.get('be'): r.choice(e['be'])[2] += 100
    else: r.choice(e.get('single') or e['scores'])[r.choice([4, 5, 6])] += 100
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(300 if tier == 'quick' else 4000):
        seed = rng.random()
        yield lambda: wx.history(seed, scores)
        if i % 25 == 7:
            yield lambda: corrupt(wx.history(seed, scores), random.Random(seed))


def replay(module, case):
    cf = dict(case['cf'])
    we = wx.make(cf, None, True)
    rd = [cf['L'], cf['R'], cf['min']]
    for c in case['corpus']:
        sents = [' '.join(uncps(w) for w in s) for s in c['ss']]
        rd.append([sents, c['every'], c['again']])
        g = call(we.train, sents, num_for_pruning=c['every'], cumulate=c['again'])
        if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'train'}
    g = call(we.word_scores)
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'word_scores'}
    got = {w: row(w, s) for w, s in g.items()}
    ok = len(got) == len(case['scores'])
    for w, cl, cr, al, ar, el, er in case['scores']:
        x = got.get(uncps(w))
        ok = ok and x is not None and x[1][0] * cl[1] == cl[0] * x[1][1] and x[2][0] * cr[1] == cr[0] * x[2][1] \
            and x[5] == al and x[6] == ar and abs(x[3] - el) <= 20 and abs(x[4] - er) <= 20
    return {'ok': bool(ok), 'got': repr(got), 'readable': rd, 'clause': 'word scores'}
