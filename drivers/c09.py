"""C09: text filters."""
from gen import *
import norm
from norm import replay
MODELS = [{'module': 'MC_Normalizer', 'cfg': 'MC_NormFilter.cfg', 'cfg_thorough': 'MC_NormFilter_t.cfg', 'cases': True,
           'actions': ['BeginFilter', 'BeginNormalize', 'BeginHangle', 'Step']}]
TRACES = [{'module': 'TR_Normalizer'}]
ASSUMPTIONS = ['word characters (for repeats) are those of Python regular expressions']
FNS = ['only_hangle', 'only_hangle_number', 'only_text', 'remove_doublespace', 'normalize', 'normalize',
       'remain_hangle_on_last', 'normalize_sent_for_lrgraph', 'hangle.normalize', 'hangle.normalize']
POOLS = ['가힣각나', 'ㄱㅎㅏㅣㅋ', 'azAZmé', '059', ',.?!', '()[]{}`', '"\'', '-_+*&^%$#@~/\\|;:<>=', ' ', '\t\n\u3000\xa0\x1c\x85',
         '\uabff\ud7a4\u3130\u3164@[`{/:', '１٢٣Ａ漢か\U0001F600', 'ㅋㅋㅋㅋㅋ', 'aaaa11']


def text_of(r):
    pools = r.sample(POOLS, r.randint(1, 6))
    s = ''
    for _ in range(r.randint(0, 12) if r.random() > 0.03 else r.choice([60, 130])):
        c = r.choice(r.choice(pools))
        s += c * (r.choice([3, 4, 5]) if r.random() < 0.1 else 1)
    return s


def record(module, rng, tier):
    return norm.record(rng, 450 if tier == 'quick' else 6000, FNS, text_of)
