"""C13: life cycle of several graphs: reset, freeze, compact copy, save, load."""
from lrg import *
MODELS = [{'module': 'MC_LRGraph', 'cfg': 'MC_LRGraph.cfg', 'cfg_thorough': 'MC_LRGraph_t.cfg',
           'actions': ['DoReset', 'DoFreeze', 'DoCopy', 'DoSave', 'DoLoad']},
          {'module': 'MC_LRGraph', 'cfg': 'SIM_LRGraph.cfg', 'cases': True,
           'simulate': {'quick': [60, 12], 'thorough': [1500, 12]}}]
TRACES = [{'module': 'TR_LRGraph'}]
ASSUMPTIONS = ['a frozen graph is not saved, copied or asked for its original counts',
               'the dictionary a graph is built from is not used afterwards']


def record(module, rng, tier):
    n = 130 if tier == 'quick' else 1300
    for i in range(n):
        alpha = rng.choice(['ab', '가나', KO[:3]])
        words = [word(rng, alpha, 1, rng.choice([2, 3, 4, 11])) for _ in range(rng.randint(2, 4))]
        uni = universe_of(words)

        def make(words=words, uni=uni, seed=rng.random()):
            import random
            r = random.Random(seed)
            with scratch() as d:
                w = World(uni, d)
                frozen, files = set(), []
                def new(g):
                    frozen.discard(g)
                    ws = r.sample(words, r.randint(0, len(words)))
                    if r.random() < 0.3 and ws:
                        w.do('new_words', g, words=[(x, r.randint(1, 3)) for x in sorted(set(ws))], skip1=False, lmax=10, rmax=9)
                    elif r.random() < 0.4 and ws:
                        w.do('new_sents', g, sents=ws, lmax=r.choice([2, 10]), rmax=r.choice([1, 9]))
                    else:
                        rel = {(x[:e], x[e:]): r.randint(1, 4) for x in ws for e in range(1, len(x) + 1)}
                        w.do('new', g, rel=[(a, b, c) for (a, b), c in rel.items()], kind=r.choice(['dict', 'defaultdict', 'items']), lmax=10, rmax=9)
                new(1); new(2)
                ids = [1, 2]
                for _ in range(r.randint(5, 18)):
                    if w.events[-1]['exc']:
                        break
                    g = r.choice(ids)
                    x = r.choice(words)
                    op = r.choice(['add_eojeol', 'remove_eojeol', 'remove_eojeol', 'remove_pair', 'reset', 'reset', 'reset', 'freeze',
                                   'copy', 'copy', 'save', 'save', 'load', 'load', 'counter', 'new'])
                    if op.endswith('eojeol'):
                        w.do(op, g, w=x, n=r.choice([1, 2, 9, 300]))
                    elif op == 'remove_pair':
                        e = r.randint(1, len(x))
                        w.do(op, g, l=x[:e], r=x[e:], n=r.choice([1, 9]))
                    elif op == 'reset':
                        w.do(op, g)
                    elif op == 'freeze':
                        if r.random() < 0.5:
                            frozen.add(g)
                            w.do(op, g)
                    elif op == 'copy' and g not in frozen:
                        h = r.choice([1, 2, 3, 4])
                        if h != g:
                            frozen.discard(h)
                            w.do(op, g, h=h)
                            ids = sorted(set(ids + [h]))
                    elif op == 'save' and g not in frozen:
                        f = r.choice(['f', 'sub/dir/g'])
                        files.append(f)
                        w.do(op, g, f=f)
                    elif op == 'load' and files:
                        frozen.discard(g)
                        w.do(op, g, f=r.choice(files))
                    elif op == 'counter':
                        w.do(op, g, reset=(g not in frozen and r.random() < 0.6))
                    elif op == 'new' and r.random() < 0.3:
                        new(g)
                return w.record()
        yield make
        if i % 20 == 7:
            yield lambda make=make: corrupt(make(), rng)
