"""C02: ConvolutionHangleEncoder."""
import random
from common import *
from gen import *
from soynlp.hangle import ConvolutionHangleEncoder
MODELS = [{'module': 'MC_Encoder', 'cfg': 'MC_Encoder.cfg', 'cfg_thorough': 'MC_Encoder_t.cfg', 'cases': True,
           'actions': ['Begin', 'DoEncode', 'DoEncoded', 'DoDecode', 'DoDecoded']}]
TRACES = [{'module': 'TR_Encoder'}]
ASSUMPTIONS = ['entries given to the decoder are lists of integers']
POOLS = ['가각갂갃힣힢뷁', 'ㄱㄲㄳㄴㄵㄶㄷㄸㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅃㅄㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ', 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ',
         '0123456789', '  \t\n\u3000', 'abc!?.', '１２٣', '\u3130\u3164\uabff\ud7a4\U0001F600', '각']

EDGES = [-1, 0, 1, 17, 18, 19, 20, 38, 39, 40, 41, 66, 67, 68, 78, 79, 80]


def text_of(r):
    pools = r.sample(POOLS, r.randint(1, 4))
    return ''.join(chr(r.randint(44032, 55203)) if r.random() < 0.3 else r.choice(r.choice(pools)) for _ in range(r.randint(0, 14) if r.random() > 0.03 else r.choice([70, 130, 300])))


def entries_of(r, ent):
    e = [list(x) for x in ent]
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < 0.3: e.append([r.choice([0, 18, 19, 39, 40, 41, 67, 68, 77, 78, 79, r.randint(0, 79)])])
        elif k < 0.6: e.append([r.randint(0, 18), r.randint(19, 39), r.randint(40, 67)])
        elif k < 0.72:
            t = [r.randint(0, 18), r.randint(19, 39), r.randint(40, 67)]
            for i in r.sample([0, 1, 2], r.choice([1, 1, 1, 2, 3])): t[i] = r.choice(EDGES)
            e.append(t)
        elif k < 0.76: e.append([r.choice([80, 81, -1])])
        elif k < 0.86: e.append([1, 2][:r.choice([0, 2])])
        elif k < 0.9: e.append([1, 20, 41, 3])
        elif e: e.pop(r.randrange(len(e)))
    return e


def history(seed):
    r = random.Random(seed)
    enc = ConvolutionHangleEncoder()
    calls, text, last = [], [], []
    for _ in range(r.randint(1, 5)):
        op = r.choice(['encode', 'encode', 'matrix', 'decode'])
        c = {'op': op, 'exc': '', 'text0': [], 'text': [], 'entries': [], 'width': 0}
        if op == 'decode':
            e = entries_of(r, last)
            c['entries'] = e
            g = call(enc.onehot_to_sent, [tuple(x) for x in e])
            if isinstance(g, Exc): c['exc'] = g.name
            else: c['text'] = cps(g)
            text.append([op, e, repr(g)])
        else:
            s = text_of(r)
            c['text0'] = cps(s)
            if op == 'encode':
                g = call(enc.sent_to_onehot, s)
                if isinstance(g, Exc): c['exc'] = g.name
                else:
                    last = c['entries'] = [[int(x) for x in e] for e in g]
                    b = call(enc.onehot_to_sent, g)
                    if isinstance(b, Exc): c['exc'] = b.name
                    else: c['text'] = cps(b)
            else:
                g = call(enc.encode, s)
                if isinstance(g, Exc): c['exc'] = g.name
                else:
                    rows = g.tolist()
                    for row in rows:
                        for v in row:
                            if v not in (0, 1): raise Unencodable('matrix entry %r' % v)
                    c['entries'] = [[j for j, v in enumerate(row) if v] for row in rows]
                    c['width'] = int(g.shape[1])
            text.append([op, s, repr(g)[:400]])
        calls.append(c)
    return {'calls': calls, 'readable': text}


def corrupt(rec, r):
    cs = [c for c in rec['calls'] if c['op'] != 'decode' and c['entries']]
    if not cs: return None
    e = r.choice(r.choice(cs)['entries'])
    e[r.randrange(len(e))] ^= 1
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(500 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 30 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


ENC = ConvolutionHangleEncoder()
def replay(module, case):
    s = uncps(case['text'])
    g = call(ENC.sent_to_onehot, s)
    b = None if isinstance(g, Exc) else call(ENC.onehot_to_sent, g)
    ok = not isinstance(g, Exc) and [list(x) for x in g] == case['entries'] and not isinstance(b, Exc) and cps(b) == case['decoded']
    return {'ok': ok, 'got': repr((g, b)), 'readable': s, 'clause': 'entries or round trip'}
