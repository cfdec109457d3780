"""C28: the eojeol template tagger."""
from pos import *
MODELS = [{'module': 'MC_EojeolTag', 'cfg': 'MC_EojeolTag.cfg', 'cfg_thorough': 'MC_EojeolTag_t.cfg', 'cases': True, 'actions': ['DoOffer', 'DoChoose']}]
TRACES = [{'module': 'TR_PosTag'}]
ASSUMPTIONS = ['decompositions of equal score may be preferred in any order']

def record(module, rng, tier):
    yield from records('eojeol', rng, 420 if tier == 'quick' else 5000)

def replay(module, case):
    td = {g: {uncps(w) for w in ws} for g, ws in case['td'].items()}
    tok = uncps(case['tok'])
    gen, ev = EojeolTemplateMatcher(Dictionary({g: set(w) for g, w in td.items()})), SimpleEojeolEvaluator()
    rd = [{g: sorted(w) for g, w in td.items()}, tok]
    g = call(gen.generate, tok)
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'generate'}
    got = sorted([[[x.b, x.m, x.e, tag(x.l_tag), tag(x.r_tag)] for x in c], cents(ev.evaluate(c))] for c in g)
    if got != sorted(case['cand']): return {'ok': False, 'got': got, 'readable': rd, 'clause': 'generate'}
    g = call(SimpleTagger(gen, ev).tag, tok)
    ok = not isinstance(g, Exc) and [[cps(a), tag(b)] for a, b in g] in case['shows']
    return {'ok': ok, 'got': repr(g), 'readable': rd, 'clause': 'tag'}
