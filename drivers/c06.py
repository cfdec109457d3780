"""C06: RegexTokenizer."""
import copy, random
from common import *
from gen import *
from soynlp.tokenizer import RegexTokenizer
MODELS = [{'module': 'MC_RegexTok', 'cfg': 'MC_RegexTok.cfg', 'cfg_thorough': 'MC_RegexTok_t.cfg', 'cases': True,
           'actions': ['Begin', 'DoTake', 'DoApply', 'DoFinish']}]
TRACES = [{'module': 'TR_RegexTok'}]
ASSUMPTIONS = ['decimal digits are ASCII, Arabic-Indic or full-width digits in the model']
ALPHABETS = ['0123+-.', '가힣ㄱㅎㅏㅣ', "abzAZÀÿ×'`s", "가ㅋㅜa1", "+-.12가a's", '!?~^', '가1a!ㅋ',
             '각갛\uabff\ud7a4\u3130\u3164ㄱㅣㅎ', '１２٣٩5.', "s's`sS'", '\U0001F600가1.5', '@[`{\xbf\u0100À/:',
             'ㅃㅉㄳㅄㅐㅢ', "Bob's.1-", '漢字かナ1a가']


def text_of(r):
    s = ''
    for i in range(r.randint(0, 5) if r.random() > 0.04 else r.choice([20, 35])):
        alpha = r.choice(ALPHABETS)
        if r.random() < 0.3:
            alpha += r.choice(ALPHABETS)
        s += word(r, alpha, 1, r.choice([3, 8, 20])) + (r.choice(WHITES) if r.random() < 0.5 else '')
    return s


def history(seed):
    r = random.Random(seed)
    tok = RegexTokenizer()
    calls, text = [], []
    for _ in range(r.randint(1, 5)):
        s = text_of(r)
        form, via, debug = r.choice(['full', 'words']), r.random() < 0.4, r.random() < 0.2
        kw = {'flatten': False} if form == 'full' else {}
        if debug: kw['debug'] = True
        g = call(tok if via else tok.tokenize, s, **kw)
        c = {'text': cps(s), 'form': form, 'exc': '', 'words': [], 'full': []}
        if isinstance(g, Exc): c['exc'] = g.name
        elif form == 'full': c['full'] = [[cps(w) for w in e] for e in g]
        else: c['words'] = [cps(w) for w in g]
        calls.append(c)
        text.append([s, form, repr(g)])
    return {'calls': calls, 'readable': text}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['words'] or c['full']]
    if not cs: return None
    c = r.choice(cs)
    if c['words']: c['words'][0].append(33)
    else: r.choice(c['full']).append([97])
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(350 if tier == 'quick' else 4000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


TOK = RegexTokenizer()
def replay(module, case):
    g = call(TOK.tokenize, uncps(case['text']), flatten=False)
    got = None if isinstance(g, Exc) else [[cps(w) for w in e] for e in g]
    return {'ok': got == case['out'], 'got': repr(g), 'readable': uncps(case['text'])}
