"""C11: EojeolCounter."""
import copy, os, random
from common import *
from gen import *
from soynlp.utils import EojeolCounter
MODELS = [{'module': 'MC_EojeolCounter', 'cfg': 'MC_EojeolCounter.cfg', 'cfg_thorough': 'MC_EojeolCounter_t.cfg',
           'cases': True, 'actions': ['AddSentence', 'Start', 'DoCount', 'DoFinish', 'DoRemove', 'DoSet', 'DoSave', 'DoLoad']}]
TRACES = [{'module': 'TR_EojeolCounter'}]
ASSUMPTIONS = ['eojeols are not removed from a counter that counted nothing',
               'preprocessing is a character map in the model']


def pre(pairs):
    if not pairs:
        return None
    m = dict(pairs)
    return lambda s: ''.join(m.get(c, c) for c in s)


def make(sents, o, explicit=False, verbose=False):
    kw = {}
    if o['min'] != 1 or explicit: kw['min_count'] = o['min']
    if o['max'] != 15 or explicit: kw['max_length'] = o['max']
    if o['every'] or explicit: kw['filtering_checkpoint'] = o['every']
    if o['map']: kw['preprocess'] = pre(o['map'])
    if verbose: kw['verbose'] = True
    return call(EojeolCounter, sents, **kw)


class Sized:
    def __init__(self, x): self.x = x
    def __iter__(self): return iter(self.x)
    def __len__(self): return len(self.x)


def observe(ev, ec, words, mc):
    ev['items'] = [[cps(w), c] for w, c in ec.items()]
    ev['len'] = len(ec)
    ev['unique'] = ec.num_of_unique_uncovered_eojeols
    ev['sum'] = ec.num_of_uncovered_eojeols
    ev['lookups'] = [[cps(w), ec[w]] for w in words] + [[cps(w), ec.get_eojeol_count(w)] for w in words]
    unc = ec.get_uncovered_eojeols(mc) if mc else ec.get_uncovered_eojeols()
    ev['mc'] = mc
    ev['uncovered'] = [[cps(w), c] for w, c in unc.items()]
    ev['cov'] = int(round(ec.coverage * 1000000))


def history(seed, tier, many=False):
    r = random.Random(seed)
    alpha = r.choice(['ab', '가나', KO[:3], '가나다a'])
    events, text, files = [], [], []
    with scratch() as d:
        ec, words = None, []
        for step in range(r.randint(1, 8)):
            op = 'new' if ec is None or r.random() < 0.15 else r.choice(['remove', 'remove', 'set', 'save', 'load', 'load'])
            ev = {'op': op, 'exc': ''}
            if op == 'new':
                sents = [sentence(r, alpha, r.randint(0, 5), 1, r.choice([2, 3, 17])) for _ in range(r.choice([1, 2, 5, 9, 23]) if r.random() > 0.03 else r.choice([70, 150]))]
                if many: sents = sents[:3] + [r.choice(['', '', alpha[-1], alpha]) if r.random() < 0.02 else '' for _ in range(1010)] + sents[:3]
                o = {'min': r.choice([1, 1, 2, 3]), 'max': r.choice([15, 15, 15, 1, 2, 5, 16]),
                     'every': r.choice([0, 0, 1, 2, 3, 5] + [50] * (len(sents) > 50)),
                     'map': r.choice([[], [], [(alpha[0], ' ')], [(alpha[0], alpha[1])], [('a', 'b'), ('b', 'a')]])}
                if many: o['every'], o['min'], many = 0, r.choice([2, 3]), False
                ev['sents'] = [cps(s) for s in sents]
                ev['opt'] = dict(o, map=[[ord(a), ord(b)] for a, b in o['map']])
                ec = make(Sized(sents) if r.random() < 0.3 else sents, o, r.random() < 0.5, r.random() < 0.2)
                words = sorted({w for s in sents for w in s.split()})[:12] + ['없', alpha * 9]
                text.append(['new', sents, str(o['map']), o['min'], o['max'], o['every']])
                if isinstance(ec, Exc):
                    ev['exc'] = ec.name
            elif op == 'remove':
                if ec.num_of_uncovered_eojeols == 0:
                    continue
                ws = [w for w in words if r.random() < 0.3]
                arg = r.choice([set, list, tuple, lambda x: dict.fromkeys(x, 1), frozenset])(ws)
                g = call(ec.remove_covered_eojeols, arg)
                ev['ws'] = [cps(w) for w in ws]
                text.append(['remove', ws])
                if isinstance(g, Exc): ev['exc'] = g.name
            elif op == 'set':
                q = r.choice([(0, 1), (1, 1), (1, 2), (3, 4), (-1, 16), (17, 16), (2, 1)])
                def setc():
                    ec.coverage = q[0] / q[1]
                g = call(setc)
                ev['q'] = list(q)
                ev['refused'] = isinstance(g, Exc) and g.name == 'ValueError'
                if isinstance(g, Exc) and not ev['refused']: ev['exc'] = g.name
                text.append(['coverage', q])
            elif op == 'save':
                f = r.choice(['f', 'a/b/f', 'g'])
                g = call(ec.save, os.path.join(d, f))
                ev['f'] = f
                files.append(f)
                text.append(['save', f])
                if isinstance(g, Exc): ev['exc'] = g.name
            elif op == 'load':
                if not files:
                    continue
                f = r.choice(files)
                if r.random() < 0.5:
                    ec = EojeolCounter() if r.random() < 0.5 else EojeolCounter(None)
                g = call(ec.load, os.path.join(d, f))
                ev['f'] = f
                text.append(['load', f])
                if isinstance(g, Exc): ev['exc'] = g.name
            if not ev['exc']:
                observe(ev, ec, words, r.choice([0, 0, 1, 2, 3]))
            events.append(ev)
            if ev['exc']:
                break
    return {'events': events, 'ncalls': len(events), 'readable': text}


def corrupt(rec, r):
    if rec['events'][-1]['exc']:
        return None
    rec['canary'] = True
    ev = r.choice(rec['events'])
    k = r.choice(['sum', 'len', 'cov', 'lookups'])
    if k == 'lookups':
        r.choice(ev[k])[1] += 1
    elif k == 'cov':
        ev[k] += 500
    else:
        ev[k] += 1
    return rec


def refusals():
    evs = []
    for c in ([], iter(['a b']), 3):
        g = call(EojeolCounter, c)
        if not (isinstance(g, Exc) and g.name == 'ValueError'):
            return {'unencodable': 'an empty or unsized corpus is accepted', 'readable': repr(c)}
    return None


def record(module, rng, tier):
    n = 170 if tier == 'quick' else 1700
    yield refusals
    for i in range(n):
        seed = rng.random()
        yield lambda: history(seed, tier, i % 85 == 40)
        if i % 20 == 7:
            yield lambda: corrupt(history(seed, tier), random.Random(seed))


def replay(module, case):
    sents = [uncps(s) for s in case['sents']]
    o = dict(case['opt'], map=[(chr(a), chr(b)) for a, b in case['opt']['map']])
    ec = make(sents, o)
    if isinstance(ec, Exc):
        return {'ok': False, 'got': repr(ec)}
    got = sorted([cps(w), c] for w, c in ec.items())
    ok = got == sorted(case['first']) and sum(c for _, c in got) == case['total'] == ec.num_of_uncovered_eojeols
    # an end state with a smaller table and a coverage came from a removal
    if sorted(case['first']) != sorted(case['cnt']) and ok:
        ec.remove_covered_eojeols(['a', 'ccc'])
        got = sorted([cps(w), c] for w, c in ec.items())
        ok = got == sorted(case['cnt']) and abs(ec.coverage - case['cov'][0] / case['cov'][1]) < 1e-9
    return {'ok': ok, 'got': got, 'readable': [sents, str(o)]}
