"""LRGraph histories: running calls on real graphs and recording every answer."""
import copy, os
from collections import defaultdict
from common import *
from gen import *
from soynlp.utils import LRGraph, EojeolCounter


def dictof(triples):
    d = {}
    for l, r, c in triples:
        d.setdefault(l, {})[r] = c
    return d


class World:
    """Graphs by id, files by name, the strings that may be asked for."""
    def __init__(self, universe, dirname):
        self.g, self.universe, self.dir = {}, sorted(universe), dirname
        self.events, self.text = [], []

    def views(self):
        out = []
        for gid in sorted(self.g):
            g = self.g[gid]
            lr = [(w, call(g.get_r, w, -1)) for w in self.universe]
            rl = [(w, call(g.get_l, w, -1)) for w in self.universe]
            for w, a in lr + rl:
                if isinstance(a, Exc):
                    raise Unencodable('lookup of %r raised %s' % (w, a.name))
            out.append({'g': gid,
                        'lr': [[cps(w), [[cps(r), c] for r, c in a]] for w, a in lr if a],
                        'rl': [[cps(w), [[cps(r), c] for r, c in a]] for w, a in rl if a]})
        return out

    def path(self, f):
        return os.path.join(self.dir, f)

    def do(self, op, g, full=True, **a):
        ev = {'op': op, 'g': g, 'exc': ''}
        got = None
        G = self.g.get(g)
        if op == 'new':
            src = dictof(a['rel'])
            kind = a.pop('kind', 'dict')
            if kind == 'defaultdict':
                d = defaultdict(lambda: defaultdict(int))
                for l, rd in src.items():
                    for r, c in rd.items():
                        d[l][r] = c
                src = d
            elif kind == 'items':
                src = list(src.items())
            kw = {} if (a['lmax'], a['rmax']) == (10, 9) else {'l_max_length': a['lmax'], 'r_max_length': a['rmax']}
            got = call(LRGraph, lrgraph=src, **kw) if a['rel'] else call(LRGraph, **kw)
            ev['rel'] = [[cps(l), cps(r), c] for l, r, c in a['rel']]
        elif op == 'new_sents':
            kw = {} if (a['lmax'], a['rmax']) == (10, 9) else {'l_max_length': a['lmax'], 'r_max_length': a['rmax']}
            got = call(LRGraph, sents=a['sents'], **kw)
            ev['sents'] = [cps(s) for s in a['sents']]
        elif op == 'new_words':
            if a.get('from_file'):
                ec = EojeolCounter()
                p = self.path('counts')
                with open(p, 'w', encoding='utf-8') as f:
                    for x, c in a['words']:
                        f.write('%s %d\n' % (x, c))
                r = call(ec.load, p)
                ec = r if isinstance(r, Exc) else ec
            else:
                sents = []
                for x, c in a['words']:
                    sents += [x] * c
                ec = call(EojeolCounter, sents or [''], max_length=100)
            kw = {}
            if (a['lmax'], a['rmax']) != (10, 9):
                kw = {'l_max_length': a['lmax'], 'r_max_length': a['rmax']}
            if a['skip1']:
                kw['ignore_one_syllable'] = True
            got = ec if isinstance(ec, Exc) else call(ec.to_lrgraph, **kw)
            ev['words'] = [[cps(w), c] for w, c in a['words']]
            ev['skip1'] = a['skip1']
        elif op in ('add_pair', 'remove_pair'):
            f = G.add_lr_pair if op == 'add_pair' else G.remove_lr_pair
            got = call(f, a['l'], a['r'], a['n']) if a['n'] != 1 else call(f, a['l'], a['r'])
            ev.update(l=cps(a['l']), r=cps(a['r']), n=a['n'])
        elif op in ('add_eojeol', 'remove_eojeol'):
            f = G.add_eojeol if op == 'add_eojeol' else G.remove_eojeol
            got = call(f, a['w'], a['n']) if a['n'] != 1 else call(f, a['w'])
            ev.update(w=cps(a['w']), n=a['n'])
        elif op == 'reset':
            got = call(G.reset_lrgraph)
        elif op == 'freeze':
            got = call(G.freeze)
        elif op == 'copy':
            got = call(G.copy_compatified_lrgraph_origin)
            ev['h'] = a['h']
        elif op == 'save':
            got = call(G.save, self.path(a['f']))
            ev['f'] = a['f']
        elif op == 'load':
            got = call(G.load, self.path(a['f']))
            ev['f'] = a['f']
        elif op == 'get_r':
            got = call(G.get_r, a['l'], a['k']) if a['k'] != 10 else call(G.get_r, a['l'])
            ev.update(l=cps(a['l']), k=a['k'])
        elif op == 'get_l':
            got = call(G.get_l, a['r'], a['k']) if a['k'] != 10 else call(G.get_l, a['r'])
            ev.update(r=cps(a['r']), k=a['k'])
        elif op == 'counter':
            got = call(G.to_EojeolCounter, a['reset']) if a['reset'] else call(G.to_EojeolCounter)
            ev['reset'] = a['reset']
        if 'lmax' in a:
            ev.update(lmax=a['lmax'], rmax=a['rmax'])
        if isinstance(got, Exc):
            ev['exc'] = got.name
        elif op in ('new', 'new_sents', 'new_words'):
            self.g[g] = got
        elif op == 'copy':
            self.g[a['h']] = got
        elif op in ('get_r', 'get_l'):
            ev['ans'] = [[cps(w), c] for w, c in got]
        elif op == 'counter':
            ev['ans'] = [[cps(w), c] for w, c in got.items()]
            if sum(c for _, c in got.items()) != got.num_of_uncovered_eojeols or len(got) != len(ev['ans']) \
                    or any(got[uncps(w)] != c for w, c in ev['ans']):
                raise Unencodable('the counter made from the graph disagrees with itself')
        ev['views'] = self.views() if full and not ev['exc'] else []
        self.events.append(ev)
        self.text.append([op, g, {k: v for k, v in a.items()}, ev['exc'] or ''])
        return ev

    def record(self):
        return {'events': self.events, 'ncalls': len(self.events), 'readable': self.text}


def universe_of(words, extra=()):
    u = set(extra)
    for w in words:
        for i in range(1, len(w) + 1):
            u.add(w[:i]); u.add(w[i:])
    u.discard('')
    return u


def corrupt(rec, rng):
    r = copy.deepcopy(rec)
    evs = [e for e in r['events'] if e['views'] and any(v['lr'] for v in e['views'])]
    if not evs:
        return None
    e = rng.choice(evs)
    v = rng.choice([v for v in e['views'] if v['lr']])
    side = v['lr'] if rng.random() < 0.5 or not v['rl'] else v['rl']
    rng.choice(side)[1][0][1] += 1
    r['canary'] = True
    return r


def replay(module, case):
    with scratch() as d:
        w = World(['a', 'b', 'ab', 'aa', 'baa', 'ba'], d)
        w.do('new', 1, rel=[('a', 'b', 2), ('ab', '', 2), ('a', '', 1)], lmax=10, rmax=9)
        w.do('new', 2, rel=[], lmax=2, rmax=1)
        for i, h in enumerate(case['hist']):
            a, op = h['a'], h['op']
            if op in ('add_pair', 'remove_pair'):
                ev = w.do(op, h['g'], l=uncps(a[0]), r=uncps(a[1]), n=a[2])
            elif op in ('add_eojeol', 'remove_eojeol'):
                ev = w.do(op, h['g'], w=uncps(a[0]), n=a[1])
            elif op == 'copy':
                ev = w.do(op, h['g'], h=a[0])
            elif op in ('save', 'load'):
                ev = w.do(op, h['g'], f='f')
            else:
                ev = w.do(op, h['g'])
            if ev['exc']:
                return {'ok': False, 'clause': op + ' raised', 'got': ev['exc'], 'readable': w.text}
            for gid in (1, 2):
                want = sorted((uncps(l), uncps(r), c) for l, r, c in h['lr'][gid - 1])
                v = [x for x in ev['views'] if x['g'] == gid][0]
                lr = sorted((uncps(l), uncps(r), c) for l, rs in v['lr'] for r, c in rs)
                rl = sorted((uncps(l), uncps(r), c) for r, ls in v['rl'] for l, c in ls)
                if lr != want or rl != [x for x in want if x[1]]:
                    return {'ok': False, 'clause': 'relation after ' + op, 'got': [lr, rl], 'readable': [w.text, i]}
    return {'ok': True, 'got': None}
