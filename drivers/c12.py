"""C12: one graph, adding, removing and looking up."""
from lrg import *
MODELS = [{'module': 'MC_LRGraph', 'cfg': 'MC_LRGraph.cfg', 'cfg_thorough': 'MC_LRGraph_t.cfg',
           'actions': ['DoAddPair', 'DoAddEojeol', 'DoRemovePair', 'DoRemoveEojeol']},
          {'module': 'MC_LRGraph', 'cfg': 'MC_LRGraph_all.cfg', 'cases': True}]
TRACES = [{'module': 'TR_LRGraph'}]
ASSUMPTIONS = ['counts given to add and remove are positive',
               'the dictionary a graph is built from is not used afterwards']


def record(module, rng, tier):
    n = 150 if tier == 'quick' else 1500
    for i in range(n):
        alpha = rng.choice(['ab', '가나', KO[:3], '가나다a'])
        words = [word(rng, alpha, 1, rng.choice([3, 4, 13])) for _ in range(rng.randint(2, 6))]
        uni = universe_of(words)
        strings = sorted(uni)

        def make(words=words, strings=strings, uni=uni, seed=rng.random()):
            import random
            r = random.Random(seed)
            with scratch() as d:
                w = World(uni, d)
                start = [(x[:e], x[e:], r.randint(1, 4)) for x in words[:2] for e in range(1, len(x) + 1)]
                start = list({(a, b): (a, b, c) for a, b, c in start}.values())
                kind = r.choice(['dict', 'defaultdict', 'items', 'empty', 'sents'])
                if kind == 'sents':
                    w.do('new_sents', 1, sents=[' '.join(r.choice(words) for _ in range(r.randint(1, 4))) for _ in range(2)], lmax=10, rmax=9)
                elif kind == 'empty':
                    w.do('new', 1, rel=[], lmax=10, rmax=9)
                else:
                    w.do('new', 1, rel=start, kind=kind, lmax=10, rmax=9)
                for _ in range(r.randint(3, 16)):
                    if w.events[-1]['exc']:
                        break
                    op = r.choice(['add_eojeol', 'add_eojeol', 'add_pair', 'remove_pair', 'remove_eojeol',
                                   'remove_eojeol', 'get_r', 'get_l', 'counter'])
                    x = r.choice(words)
                    e = r.randint(1, len(x))
                    pair = (x[:e], x[e:]) if r.random() < 0.8 else (r.choice(strings), r.choice(strings + ['']))
                    c = r.choice([1, 1, 1, 2, 3, 7, 300])
                    if op.endswith('eojeol'):
                        w.do(op, 1, w=x, n=c)
                    elif op.endswith('pair'):
                        w.do(op, 1, l=pair[0], r=pair[1], n=c)
                    elif op == 'get_r':
                        w.do(op, 1, full=False, l=r.choice(strings), k=r.choice([-1, 0, 1, 2, 3, 10]))
                    elif op == 'get_l':
                        w.do(op, 1, full=False, r=r.choice(strings + ['']), k=r.choice([-1, 0, 1, 2, 3, 10]))
                    else:
                        w.do(op, 1, full=False, reset=False)
                return w.record()
        yield make
        if i % 20 == 7:
            yield lambda make=make: corrupt(make(), rng)
    def wide(k):
        with scratch() as d:
            rel = [('가', '나' * (j % 5 + 1) + '다' * (j // 5), j + 1) for j in range(14)]
            w = World({x for p in rel for x in p[:2]}, d)
            w.do('new', 1, rel=rel, lmax=10, rmax=9)
            w.do('get_r', 1, l='가', k=k)
            w.do('get_r', 1, l='없다', k=k)
            for l in '라마바':
                for j in range(6):
                    w.do('add_pair', 1, full=False, l=l * (j + 1), r='는', n=j + 2)
            w.do('get_l', 1, full=False, r='는', k=k)
            w.do('get_l', 1, full=False, r='없', k=k)
            return w.record()
    for k in (10, 5, -1, 1, 0, 13, 20):
        yield lambda k=k: wide(k)
