"""Shared by C20 and C21: histories of WordExtractor objects."""
import os, random
from fractions import Fraction
from common import *
from gen import *
from soynlp.word import WordExtractor

FRESH = dict(L=10, R=6, min=5, cl=[1, 20], cr=[0, 1], bel=0, ber=0, avl=0, avr=0, drop=[49, 50], subwords=False)
NAMES = dict(L='max_left_length', R='max_right_length', min='min_frequency', cl='min_cohesion_forward', cr='min_cohesion_backward',
             bel='min_left_branching_entropy', ber='min_right_branching_entropy', avl='min_left_accessor_variety',
             avr='min_right_accessor_variety', drop='max_droprate_leftside_frequency', subwords='remove_subwords')


def value(k, v):
    if k in ('cl', 'cr', 'drop'): return v[0] / v[1]
    if k in ('bel', 'ber'): return v / 1000000
    return v


def frac(x, limit=4000):
    q = Fraction(float(x)).limit_denominator(limit)
    if abs(float(q) - float(x)) > 1e-8: raise Unencodable('not a small fraction: %r' % x)
    return [q.numerator, q.denominator]


def settings(we):
    out = {}
    for k, n in NAMES.items():
        v = getattr(we, n)
        out[k] = frac(v) if k in ('cl', 'cr', 'drop') else int(round(v * 1000000)) if k in ('bel', 'ber') else v
    return out


def make(cf, sents=None, explicit=False, verbose=0):
    kw = {NAMES[k]: value(k, v) for k, v in cf.items() if explicit or v != FRESH[k]}
    if verbose is not None: kw['verbose_points'] = verbose
    return WordExtractor(sents, **kw) if sents is not None else WordExtractor(**kw)


def config(r, scores):
    cf = dict(FRESH, L=r.choice([1, 2, 3, 4, 10]), R=r.choice([1, 2, 3, 6]), min=r.choice([0, 1, 1, 2, 2, 3, 5]))
    if scores:
        cf['cl'] = r.choice([[1, 20], [0, 1], [1, 2], [1, 4], [3, 4]])
        cf['cr'] = r.choice([[0, 1], [0, 1], [1, 2], [1, 4]])
        cf['bel'], cf['ber'] = r.choice([0, 0, 500000, 1000000]), r.choice([0, 0, 500000, 1000000])
        cf['avl'], cf['avr'] = r.choice([0, 0, 0, 1, 2]), r.choice([0, 0, 0, 1, 2])
        cf['drop'] = r.choice([[49, 50], [1, 2], [3, 4], [1, 1]])
        cf['subwords'] = r.random() < 0.5
    else:
        cf['avl'] = r.choice([0, 0, 3]); cf['drop'] = r.choice([[49, 50], [1, 4]]); cf['subwords'] = r.random() < 0.3
    return cf


def stock(sents):
    """every prefix and suffix of the eojeols"""
    out = set()
    for s in sents:
        for w in s.split():
            for i in range(1, len(w) + 1):
                out.add(w[:i]); out.add(w[-i:])
    return out


def spread(r, alpha):
    """many sentences, most of them blank, with the same ones at both ends"""
    ends = [sentence(r, alpha, 3, 1, 2) for _ in range(2)]
    return ends + [sentence(r, alpha, 2, 1, 2) if r.random() < 0.02 else sentence(r, '_', 2, 1, 1) for _ in range(1010)] + ends


def history(seed, look, many=False):
    """look(r, we, asked) -> events"""
    r = random.Random(seed)
    alpha = r.choice(['ab', '가나', KO[:3], 'abc가'])
    scores = look is not None and look.__name__ != 'counts'
    events, text, files, asked, we = [], [], [], set(), None
    with scratch() as d:
        for step in range(r.randint(2, 6)):
            op = 'new' if we is None else r.choice(['train', 'train', 'new', 'save', 'load', 'refused'])
            exc, late = '', []
            if op == 'new':
                cf = config(r, scores)
                sents = [sentence(r, alpha, r.randint(0, 6), 1, r.choice([1, 2, 4, 6])) for _ in range(r.choice([0, 1, 3, 6]))]
                verbose = r.choice([0, 0, 0, 1, None])
                we = call(make, cf, sents if sents or r.random() < 0.5 else None, r.random() < 0.3, verbose)
                if isinstance(we, Exc): exc = we.name
                events.append({'op': 'new', 'cf': cf, 'exc': exc})
                text.append(['new', cf, sents])
                if sents and not exc:
                    asked |= stock(sents)
                    events.append({'op': 'train', 'texts': [cps(s) for s in sents], 'every': 0, 'again': True, 'exc': ''})
            elif op == 'train':
                sents = [sentence(r, alpha, r.randint(0, 6), 1, r.choice([1, 2, 4, 6])) for _ in range(r.choice([1, 2, 4, 7]))]
                if many: sents, many = spread(r, alpha), False
                elif r.random() < 0.03:
                    sents = [sentence(r, alpha, r.choice([2, 30]), 1, 2) for _ in range(r.choice([5, 60]))] if not scores else [sentence(r, alpha, 12, 1, 2) for _ in range(3)]
                elif r.random() < 0.03: sents[0] = sentence(r, alpha, 2, 8, 18)
                asked |= stock(sents)
                every, again = 0 if len(sents) > 1000 else r.choice([0, 0, 0, 1, 2, 3]), r.random() < 0.75
                kw = {}
                if every: kw['num_for_pruning'] = every
                if not again: kw['cumulate'] = False
                g = call(we.train, sents, **kw)
                events.append({'op': 'train', 'texts': [cps(s) for s in sents], 'every': every, 'again': again, 'exc': g.name if isinstance(g, Exc) else ''})
                text.append(['train', sents, every, again])
            elif op == 'refused':
                g = call(we.train, r.choice([[], (), iter(['a b'])]))
                if not (isinstance(g, Exc) and g.name == 'ValueError'): return {'unencodable': 'an empty or unsized corpus is accepted', 'readable': text}
                events.append({'op': 'refused', 'exc': ''})
            elif op == 'save':
                f = r.choice(['f', 'g'])
                g = call(we.save, os.path.join(d, f))
                files.append(f)
                events.append({'op': 'save', 'f': f, 'exc': g.name if isinstance(g, Exc) else ''})
                text.append(['save', f])
            else:
                if not files: continue
                f = r.choice(files)
                if r.random() < 0.6: we = make(config(r, scores), None, True)
                g = call(we.load, os.path.join(d, f))
                events.append({'op': 'load', 'f': f, 'exc': g.name if isinstance(g, Exc) else ''})
                text.append(['load', f])
            if events[-1]['exc']: break
            for ev in look(r, we, sorted(asked), text):
                events.append(ev)
            if events[-1]['exc']: break
    return {'events': events, 'ncalls': len(events), 'readable': text}


def watch(op, f):
    g = call(f)
    if isinstance(g, Exc): return {'op': op, 'exc': g.name}
    return dict(g, op=op, exc='')
