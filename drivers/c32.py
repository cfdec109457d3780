"""C32: EomiExtractor and StemExtractor."""
import os, random
from common import *
from gen import *
from conj import conjugate, CHO, JUNG, JONG, compose
from soynlp.predicator import EomiExtractor, StemExtractor
from pred import *
MODELS = [{'module': 'MC_EomiStem', 'cfg': 'MC_EomiStem.cfg', 'cfg_thorough': 'MC_EomiStem_t.cfg', 'cases': True, 'kind': 'args.what',
           'actions': ['eomi', 'stem']}]
TRACES = [{'module': 'TR_EomiStem'}]
ASSUMPTIONS = ['stems consist of complete Hangul syllables; endings may begin with a lone ㄴ ㄹ ㅁ ㅂ ㅆ',
               'scores are compared up to 0.000002; an ending whose mean score equals the threshold up to rounding may be kept or not',
               'frequency limits are at least 1 and score limits above 0', 'graphs come from eojeol counts']


def micro(x): return int(round(float(x) * 1000000))


def pairs(graph, ws):
    return [[cps(l), cps(x), n] for l in lefts(ws) for x, n in graph.get_r(l, -1)]


def history(seed):
    r = random.Random(seed)
    kinds = r.choice([['eomi'], ['stem'], ['stem'], ['eomi', 'stem'], ['stem', 'eomi']])
    ws, stems, nouns, ends = predicators(r, rich='stem' in kinds and r.random() < 0.7)
    cut = r.random() < 0.15
    lmax, rmax = (r.randint(2, 4), r.randint(1, 3)) if cut else (10, 9)
    g = counter(ws).to_lrgraph(lmax, rmax) if cut else counter(ws).to_lrgraph()
    nmin = r.choice([1, 1, 1, 2, 2, 3, 0])
    umin, hmin = r.choice([0, 1, 1, 2, 2, 3]), r.choice([0, 0, 0, 0.5, 0.6, 0.7])
    usual = r.random() < 0.06      # all limits as they are by default
    if usual:
        ws = {w: n * 40 for w, n in ws.items()}
        g = counter(ws).to_lrgraph(lmax, rmax) if cut else counter(ws).to_lrgraph()
        nmin, umin, hmin = 5, 10, 0.5
    evs, rd = [], [sorted(ws.items()), sorted(stems), sorted(nouns), sorted(ends), [lmax, rmax], [nmin, umin, hmin]]
    rec = {'words': [[cps(w), n] for w, n in ws.items()], 'lmax': lmax, 'rmax': rmax, 'stems': [cps(s) for s in stems], 'nouns': [cps(s) for s in nouns],
           'ends': [cps(s) for s in ends], 'nmin': nmin, 'umin': umin, 'hmin': int(round(hmin * 1000000)), 'events': evs, 'readable': rd}
    stems, nouns, ends = [r.choice([set, list, lambda x: {k: 1 for k in x}])(x) for x in (stems, nouns, ends)]
    em = st = None
    for k in range(r.randint(1, 4)):
        kind = r.choice(kinds)
        if kind == 'eomi':
            if em is None:
                em = call(EomiExtractor, g, stems, nouns, verbose=r.random() < 0.1, **({} if nmin == 5 else {'min_num_of_features': nmin}))
                if isinstance(em, Exc): raise Unencodable('EomiExtractor raised ' + em.name)
            q, mf = r.choice([[3, 10], [3, 10], [1, 2], [1, 10], [9, 10], [1, 1]]), r.choice([1, 1, 1, 2, 4])
            cond = r.choice(sorted(ws))[-1:] if r.random() < 0.12 else ''
            ev = {'op': 'eomi', 'q': q, 'minf': mf, 'cond': cps(cond)}
            kw = dict(min_eomi_score=q[0] / q[1], min_eomi_frequency=mf) if (q, mf) != ([3, 10], 1) else {}
            if cond: kw['condition'] = cond
            if r.random() < 0.3: kw['reset_lrgraph'] = r.random() < 0.5
            x = call(em.extract, **kw)
            ev['exc'] = x.name if isinstance(x, Exc) else ''
            evs.append(ev); rd.append(['eomi', kw, ev['exc'] or repr(x)])
            if ev['exc']: return rec
            ev['got'] = [[cps(e), s.frequency, micro(s.score)] for e, s in x.items()]
            ev['left'] = pairs(g, ws)
        else:
            if st is None:
                st = call(StemExtractor, g, stems, ends, verbose=r.random() < 0.1, **({} if usual else dict(min_num_of_unique_R_char=umin, min_entropy_of_R_char=hmin)))
                if isinstance(st, Exc): raise Unencodable('StemExtractor raised ' + st.name)
                evs.append({'op': 'parts', 'exc': '', 'l': [cps(x) for x in st.L], 'r': [cps(x) for x in st.R]}); rd.append(['parts', sorted(st.L), sorted(st.R)])
            q, mf = r.choice([[7, 10], [7, 10], [1, 2], [1, 10], [1, 1]]), r.choice([1, 1, 2, 3, 6]) if not usual else r.choice([100, 100, 101, 120])
            if r.random() < 0.35:
                w = r.choice(lefts(ws, lmax))
                ev = {'op': 'predict', 'q': q, 'minf': mf, 'w': cps(w)}
                x = call(st.predict, w, q[0] / q[1], mf) if (q, mf) != ([7, 10], 1) else call(st.predict, w)
                ev['exc'] = x.name if isinstance(x, Exc) else ''
                evs.append(ev); rd.append(['predict', w, q, mf, ev['exc'] or repr(x)])
                if ev['exc']: return rec
                ev['score'], ev['freq'] = micro(x[0]), x[1]
                continue
            ig = r.sample(lefts(ws, lmax), min(2, len(lefts(ws, lmax)))) if r.random() < 0.2 else []
            ev = {'op': 'stem', 'q': q, 'minf': mf, 'ignore': [cps(x) for x in ig]}
            x = call(st.extract, set(ig) if ig else None, q[0] / q[1], mf) if ig or (q, mf) != ([7, 10], 100) else call(st.extract)
            ev['exc'] = x.name if isinstance(x, Exc) else ''
            evs.append(ev); rd.append(['stem', ig, q, mf, ev['exc'] or repr((st.stem_surfaces, x))])
            if ev['exc']: return rec
            ev['surfaces'] = [[cps(l), f, micro(s)] for l, (s, f) in st.stem_surfaces.items()]
            ev['got'] = [[cps(s), f, micro(c)] for s, (f, c) in x.items()]
            ev['left'] = pairs(g, ws)
    return rec


def corrupt(rec, r):
    es = [e for e in rec['events'] if not e['exc'] and e['op'] in ('eomi', 'stem', 'predict')]
    if not es: return None
    e = r.choice(es)
    if e['op'] == 'predict': e['score' if r.random() < 0.5 else 'freq'] += 7
    elif not e['got'] or r.random() < 0.2: e['got'].append([[45800, 45801], 1, 999000])
    elif r.random() < 0.4: r.choice(e['got'])[1] += 1
    else: r.choice(e['got'])[2] += 9
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(450 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    ws = {uncps(w): n for w, n in case['words']}
    g = counter(ws).to_lrgraph()
    S, N, E = [{uncps(x) for x in case[k]} for k in ('stems', 'nouns', 'ends')]
    a = case['args']
    q = a['q'][0] / a['q'][1]
    rd = [ws, sorted(S), sorted(N), sorted(E), {k: v for k, v in a.items() if k != 'ignore'}]
    if a['what'] == 'eomi':
        x = call(lambda: EomiExtractor(g, S, N, min_num_of_features=a['nmin'], verbose=False).extract(None, q, a['minf']))
        if isinstance(x, Exc): return {'ok': False, 'got': repr(x), 'readable': rd, 'clause': 'extract'}
        got = {e: (v.frequency, v.score) for e, v in x.items()}
    else:
        x = call(lambda: StemExtractor(g, S, E, a['umin'], a['hmin'] / 1e6, verbose=False).extract(None, q, a['minf']))
        if isinstance(x, Exc): return {'ok': False, 'got': repr(x), 'readable': rd, 'clause': 'extract'}
        got = x
    want = {uncps(e): (m['n'], (m['hi'] + m['lo'] / 1e6) / m['n']) for e, m in case['got']}
    sure = set(want) if all(m['sure'] for _, m in case['got']) and not case['doubt'] else None
    ok = all(k in got and got[k][0] == f and abs(got[k][1] - s) < 3e-6 for k, (f, s) in want.items()) and (sure is None or set(got) == set(want))
    return {'ok': ok, 'got': repr(got), 'readable': rd, 'clause': a['what']}
