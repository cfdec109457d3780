"""C15: DoublespaceLineCorpus."""
import copy, os, random
from common import *
from gen import *
from soynlp.utils import DoublespaceLineCorpus
MODELS = [{'module': 'MC_Corpus', 'cfg': 'MC_Corpus.cfg', 'cfg_thorough': 'MC_Corpus_t.cfg', 'cases': True,
           'actions': ['Write', 'OpenCorpus', 'Iterate', 'Give']}]
TRACES = [{'module': 'TR_Corpus'}]
ASSUMPTIONS = ['the file is UTF-8 text and does not change while the corpus is used']


def corpus(path, o, header, explicit):
    kw = {}
    if o['doc'] != -1 or explicit: kw['num_doc'] = o['doc']
    if o['sent'] != -1 or explicit: kw['num_sent'] = o['sent']
    if o['bysent'] or explicit: kw['iter_sent'] = o['bysent']
    if header or explicit: kw['skip_header'] = header
    return call(DoublespaceLineCorpus, path, **kw)


def filetext(r):
    out = ''
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]) if r.random() > 0.03 else r.choice([25, 60])):
        k = r.random()
        if k < 0.15:
            line = r.choice(['', ' ', '  ', '   ', '\t', '\u3000  '])
        else:
            seps = ['  ', '  ', '   ', '    ', ' ', '\t', '  \t  ']
            line = r.choice(['', '', ' ', '  '])
            for _ in range(r.choice([1, 1, 2, 3, 7]) if r.random() > 0.006 else 30):
                line += word(r, '가나ab', 1, 4) + r.choice(seps)
            if r.random() < 0.7:
                line = line.rstrip()
        out += line + r.choice(['\n', '\n', '\n', '\n', '\r\n', '\r'])
    if r.random() < 0.4:
        out = out.rstrip('\r\n')
    return out


def history(seed):
    r = random.Random(seed)
    s = filetext(r)
    o = {'doc': r.choice([-1, -1, -1, 0, 1, 2, 3, 5, 100]), 'sent': r.choice([-1, -1, -1, 0, 1, 2, 3, 5, 100]),
         'bysent': r.random() < 0.55}
    header = r.choice([0, 0, 0, 1, 2, 50])
    events = []
    with scratch() as d:
        p = os.path.join(d, 'c.txt')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(s)
        c = corpus(p, o, header, r.random() < 0.3)
        if isinstance(c, Exc):
            return {'unencodable': 'constructing the corpus raised ' + c.name, 'readable': [s, o, header]}
        live = {}
        for _ in range(r.randint(2, 25)):
            op = r.choice(['iter', 'next', 'next', 'next', 'next', 'len', 'list'])
            ev = {'op': op, 'exc': ''}
            if op == 'len':
                g = call(len, c)
                if isinstance(g, Exc): ev['exc'] = g.name
                else: ev['n'] = g
            elif op == 'list':
                g = call(lambda: [x for x in c])
                if isinstance(g, Exc): ev['exc'] = g.name
                else: ev['items'] = [cps(x) for x in g]
            elif op == 'iter' or not live:
                ev['op'] = 'iter'
                k = r.randint(1, 3)
                live[k] = iter(c)
                ev['k'] = k
            else:
                k = r.choice(sorted(live))
                ev['k'] = k
                g = call(lambda: [x for x in [next(live[k], None)]])
                if isinstance(g, Exc): ev['exc'] = g.name
                else:
                    ev['more'] = g[0] is not None
                    ev['item'] = cps(g[0] or '')
            events.append(ev)
            if ev['exc']:
                break
        for it in live.values():
            call(it.close)
    return {'text': cps(s), 'header': header, 'opt': o, 'events': events, 'ncalls': len(events),
            'readable': [s, o, header, [[e['op'], e.get('k'), e.get('n'), uncps(e.get('item', []))] for e in events]]}


def corrupt(rec, r):
    evs = [e for e in rec.get('events', []) if 'n' in e or e.get('item')]
    if not evs:
        return None
    e = r.choice(evs)
    if 'n' in e: e['n'] += 1
    else: e['item'].append(97)
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    n = 300 if tier == 'quick' else 3000
    for i in range(n):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    s = uncps(case['text'])
    with scratch() as d:
        p = os.path.join(d, 'c.txt')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(s)
        c = corpus(p, case['opt'], case['header'], False)
        if isinstance(c, Exc):
            return {'ok': False, 'got': repr(c), 'readable': [s, case['opt']]}
        want = [uncps(x) for x in case['items']]
        a = call(lambda: [x for x in c])
        n = call(len, c)
        b = call(lambda: [x for x in c])
        ok = a == want == b and n == len(want)
        return {'ok': ok, 'got': repr([a, n, b]), 'readable': [s, case['opt'], case['header']]}
