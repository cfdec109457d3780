"""Input generators shared by the drivers."""
WHITES = [' ', '  ', '\t', '\n', '\u3000', '\xa0', ' \t ', '\u2003', '\x1c', '\x85']
SYL = '아이스크림파스타가나다라마바사하고는을를에서으로'
KO = '가나다라마바'

def word(rng, alphabet, lo, hi):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))

def sentence(rng, alphabet, n_words, lo, hi, odd=0.2):
    s = '' if rng.random() > 0.1 else rng.choice(WHITES)
    for i in range(n_words):
        if i:
            s += rng.choice(WHITES) if rng.random() < odd else ' '
        s += word(rng, alphabet, lo, hi)
    if rng.random() < 0.1:
        s += rng.choice(WHITES)
    return s

def subwords(rng, texts, k, lo, hi):
    out = []
    ws = [w for t in texts for w in t.split()]
    for _ in range(k * 3):
        if not ws or len(out) >= k:
            break
        w = rng.choice(ws)
        n = rng.randint(lo, hi)
        if len(w) < n:
            continue
        b = rng.randint(0, len(w) - n)
        out.append(w[b:b + n])
    return out
