"""C10: repeats and emoticons."""
from gen import *
import norm
from soynlp.hangle import compose
from norm import replay
MODELS = [{'module': 'MC_Normalizer', 'cfg': 'MC_NormRepeat.cfg', 'cfg_thorough': 'MC_NormRepeat_t.cfg', 'cases': True,
           'actions': ['BeginEmoticon', 'BeginRepeat', 'Step']}]
TRACES = [{'module': 'TR_Normalizer'}]
ASSUMPTIONS = ['word characters are those of Python regular expressions']
FNS = ['repeat_normalize', 'emoticon_normalize', 'emoticon_normalize', 'tokenizer.normalize', 'tokenizer.normalize',
       'normalize', 'hangle.normalize']
UNITS = ['ㅋ', 'ㅜ', 'ㅠ', '쿠', '크', '앜', '아', '캌', 'ㅎ', '하', '핳', 'ㄱ', '각', '가', '값', 'ㅄ', 'ㅏ', 'a', '1', '_', '!', '.', ' ', '\t',
         '유', 'ㅇ', '무ㅜ', 'ㅠ유', '이고', '하하', '가나다라', '아야', 'ab', '후ㅜ', '흐ㅎ']

EDGES = ['\u3130', '\u3131', '\u314e', '\u314f', '\u3163', '\u3164', '\uabff', '가', '힣', '\ud7a4', '깋', '핗', '힣ㅎ', 'ㅎ힣', 'ㅎ히ㅏ', 'ㄱ가ㅣ', '가ㄱ']


def text_of(r):
    us = r.sample(UNITS, r.randint(1, 5))
    s = ''
    for _ in range(r.randint(0, 7)):
        s += r.choice(us) * r.choice([1, 1, 1, 2, 3, 4, 5, 7])
    if r.random() < 0.4:      # letters and the syllables they make, next to each other
        cho, jung = r.sample('ㄱㅋㅎㅇㅃ', 2), r.sample('ㅏㅣㅜㅠㅢ', 2)
        jong = r.choice([' ', ' ', cho[0], 'ㅎ', 'ㄱ', 'ㅄ'])
        bits = cho + jung + [compose(cho[0], jung[0], ' ')] * 3 + [compose(cho[0], jung[0], jong if jong != 'ㅃ' else ' '), compose(cho[0], jung[1], ' '), compose(cho[1], jung[0], ' ')]
        if r.random() < 0.3: bits.append(r.choice(EDGES))
        s = s[:r.choice([0, 0, 40])] + ''.join(r.choice(bits) * r.choice([1, 1, 1, 1, 2, 4]) for _ in range(r.randint(2, 7)))
    elif r.random() < 0.3:      # syllables made of the letters around them
        c = r.randint(44032, 55203)
        d = __import__('soynlp.hangle', fromlist=['x']).decompose(chr(c))
        s += r.choice([d[0], d[1], d[0] * 2, '']) + chr(c) + r.choice([d[1], d[2], d[1] * 3, d[2] * 3, d[0], ''])
    if r.random() < 0.03: return s[:30] + r.choice(us) * r.choice([11, 18, 35]) + s[30:60]
    return s[:40]


def record(module, rng, tier):
    return norm.record(rng, 900 if tier == 'quick' else 6000, FNS, text_of)
