"""C14: eojeol counts and L-R graphs into each other."""
import lrg
from lrg import *
MODELS = [{'module': 'MC_Convert', 'cfg': 'MC_Convert.cfg', 'cfg_thorough': 'MC_Convert_t.cfg', 'cases': True,
           'actions': ['Count', 'ToGraph', 'ToCounter']}]
TRACES = [{'module': 'TR_LRGraph'}]
ASSUMPTIONS = ['the dictionary a graph is built from is not used afterwards']


def record(module, rng, tier):
    n = 160 if tier == 'quick' else 1600
    for i in range(n):
        alpha = rng.choice(['ab', '가나', KO, '가나다a'])
        words = sorted({word(rng, alpha, 1, rng.choice([2, 4, 8, 16, 22])) for _ in range(rng.randint(1, 6))})
        rng.shuffle(words)
        uni = universe_of(words + [words[-1] + 'a'])
        lmax, rmax = rng.choice([(10, 9), (10, 9), (2, 1), (2, 2), (3, 1), (4, 9), (10, 2), (12, 12), (5, 3)])

        def make(words=words, uni=uni, lmax=lmax, rmax=rmax, seed=rng.random()):
            import random
            r = random.Random(seed)
            with scratch() as d:
                w = World(uni, d)
                counts = [(x, r.choice([1, 2, 3, 11])) for x in words]
                if r.random() < 0.04: counts[0] = (words[0], r.choice([260, 300]))
                skip1 = r.random() < 0.4
                w.do('new_words', 1, words=counts, skip1=skip1, lmax=lmax, rmax=rmax, from_file=r.random() < 0.4)
                if not w.events[-1]['exc']:
                    w.do('counter', 1, reset=False)
                    sents = [x for x, c in counts for _ in range(c)]
                    r.shuffle(sents)
                    packed = []
                    while sents:
                        k = r.randint(1, 4)
                        packed.append(r.choice([' ', '  ', '\t']).join(sents[:k]))
                        sents = sents[k:]
                    w.do('new_sents', 2, sents=packed, lmax=lmax, rmax=rmax)
                    if not w.events[-1]['exc']:
                        w.do('counter', 2, reset=r.random() < 0.5)
                        w.do('remove_eojeol', 2, w=words[0], n=1)
                        w.do('counter', 2, reset=True)
                        w.do('counter', 2, reset=False)
                        w.do('add_eojeol', 1, w=words[-1] + 'a', n=2)
                        w.do('counter', 1, reset=True)
                        w.do('counter', 1, reset=False)
                return w.record()
        yield make
        if i % 20 == 7:
            yield lambda make=make: corrupt(make(), rng)


def replay(module, case):
    words = [(uncps(w), c) for w, c in case['words']]
    o = case['opt']
    with scratch() as d:
        w = World(universe_of([x for x, _ in words], ['a']), d)
        ev = w.do('new_words', 1, words=words, skip1=o['skip1'], lmax=o['lmax'], rmax=o['rmax'])
        if ev['exc']:
            return {'ok': False, 'clause': 'raised', 'got': ev['exc'], 'readable': w.text}
        v = ev['views'][0]
        lr = sorted([l, r, c] for l, rs in v['lr'] for r, c in rs)
        rl = sorted([l, r, c] for r, ls in v['rl'] for l, c in ls)
        want = sorted(case['lr'])
        ev = w.do('counter', 1, reset=False)
        ok = lr == want and rl == [x for x in want if x[1]] and not ev['exc'] and sorted(ev['ans']) == sorted(case['back'])
        return {'ok': ok, 'got': [lr, rl, ev.get('ans')], 'readable': w.text, 'clause': 'conversion'}
