"""C33: adverbs from stems, and the adverb dictionary."""
import os, random
from common import *
from gen import *
from soynlp.pos import stem_to_adverb, load_default_adverbs
MODELS = [{'module': 'MC_Adverb', 'cfg': 'MC_Adverb.cfg', 'cfg_thorough': 'MC_Adverb_t.cfg', 'cases': True, 'actions': ['DoAsk', 'DoDerive']}]
TRACES = [{'module': 'TR_Adverb'}]
ASSUMPTIONS = ['stems are not empty', 'the lines of an adverb dictionary are not blank']


def history(seed):
    r = random.Random(seed)
    evs, rd = [], []
    for _ in range(r.randint(1, 4)):
        ev = {'exc': ''}
        if r.random() < 0.3:
            ev['op'] = 'load'
            s = ''.join(r.choice(['', '', ' ', '\u3000']) + word(r, '잘매우빨리ab', 1, 3) + r.choice(['', ' 3', '\t', '  x y']) +
                        r.choice(['\n', '\n', '\n', '\r\n']) for _ in range(r.randint(0, 7) if r.random() > 0.04 else 50))
            if r.random() < 0.4: s = s.rstrip('\r\n')
            ev['text'] = cps(s)
            with scratch() as d:
                p = os.path.join(d, 'adv')
                with open(p, 'w', encoding='utf-8', newline='') as f: f.write(s)
                g = call(load_default_adverbs, p) if r.random() < 0.5 else call(load_default_adverbs, path=p)
            ev['words'] = [] if isinstance(g, Exc) else [cps(x) for x in g]
            note = s
        else:
            ev['op'] = 'derive'
            stems = [word(r, '조용하가하먹히게', 1, 4) + r.choice(['하', '하', '', '한', '해']) for _ in range(r.choice([1, 1, 2, 5, 9]) if r.random() > 0.04 else 40)]
            if r.random() < 0.04: stems[0] = word(r, '조용하가', 8, 20) + '하'
            form = r.choice([list, set, tuple, frozenset, lambda x: {a: 1 for a in x}])
            if r.random() < 0.2: stems, form = stems[:1], lambda x: x[0]
            given, sufs = form(stems), None
            if r.random() < 0.6: sufs = r.choice(['히', '이', '히이', ['히', '게'], {'하게', '히'}, ('',), [], '게히이'])
            g = call(stem_to_adverb, given) if sufs is None else call(stem_to_adverb, given, sufs)
            ev.update(stems=[cps(x) for x in stems], sufs=[cps(x) for x in ('히' if sufs is None else sufs)],
                      after=[cps(given)] if isinstance(given, str) else [cps(x) for x in given])
            ev['got'] = [] if isinstance(g, Exc) else [cps(x) for x in g]
            note = [repr(given), repr(sufs)]
        if isinstance(g, Exc): ev['exc'] = g.name
        evs.append(ev); rd.append([ev['op'], note, repr(g)])
    return {'events': evs, 'readable': rd}


def corrupt(rec, r):
    e = r.choice(rec['events'])
    k = 'words' if e['op'] == 'load' else 'got'
    if e[k] and r.random() < 0.5: e[k].pop()
    else: e[k].append([54616, 54616, 54616])
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(600 if tier == 'quick' else 20000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    stems = [uncps(x) for x in case['stems']]
    sufs = [uncps(x) for x in case['sufs']]
    g = call(stem_to_adverb, stems, sufs) if sufs != ['히'] else call(stem_to_adverb, stems)
    return {'ok': not isinstance(g, Exc) and sorted(g) == sorted(uncps(x) for x in case['adverbs']), 'got': repr(g), 'readable': [stems, sufs], 'clause': 'the adverbs'}
