"""C27: the L-R template tagger."""
from pos import *
MODELS = [{'module': 'MC_LRTag', 'cfg': 'MC_LRTag.cfg', 'cfg_thorough': 'MC_LRTag_t.cfg', 'cases': True, 'actions': ['DoOffer', 'DoPick', 'DoEnd']}]
TRACES = [{'module': 'TR_PosTag'}]
ASSUMPTIONS = ['words of equal score may be preferred in any order', 'no template lists a tag twice']

def record(module, rng, tier):
    yield from records('lr', rng, 420 if tier == 'quick' else 5000)

def replay(module, case):
    td = {g: {uncps(w) for w in ws} for g, ws in case['td'].items()}
    tok = uncps(case['tok'])
    pref = {}
    for g, w, x in case['pref']: pref.setdefault(g, {})[uncps(w)] = x / 100
    gen = LRTemplateMatcher(Dictionary({g: set(w) for g, w in td.items()}), {'Noun', 'Verb', 'Adjective'}, {'Noun': ('Josa', 'Verb')})
    rd = [{g: sorted(w) for g, w in td.items()}, tok, pref]
    g = call(gen.generate, tok)
    if isinstance(g, Exc): return {'ok': False, 'got': repr(g), 'readable': rd, 'clause': 'generate'}
    got = sorted([x.b, x.m, x.e, tag(x.l_tag), tag(x.r_tag)] for x in g)
    if got != sorted(case['cand']): return {'ok': False, 'got': got, 'readable': rd, 'clause': 'generate'}
    g = call(SimpleTagger(gen, LREvaluator(preference=pref) if pref else LREvaluator(), UnknowLRPostprocessor()).tag, tok)
    ok = not isinstance(g, Exc) and [[cps(a), tag(b)] for a, b in g] in case['shows']
    return {'ok': ok, 'got': repr(g), 'readable': rd, 'clause': 'tag'}
