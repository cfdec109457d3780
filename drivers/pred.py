"""Shared by C29 and C32: eojeols of known and unknown predicators."""
from gen import *
from soynlp.lemmatizer import conjugate
from soynlp.utils import EojeolCounter
KNOWN = ['가', '먹', '하', '돕', '푸르', '예쁘', '파랗', '깨닫', '배우', '만지', '붓', '크', '공부하', '달리', '있', '없', '좋', '주']
NEW = ['놀', '웃', '자르', '뛰', '맑', '그리', '덥', '시키', '싸우', '운동하', '사랑하', '착하', '기쁘', '모르', '쓰러지', '놀라', '덕질하', '높', '날카롭']
EOMI = ['고', '는', '다', '면', '어', '아', '었다', '았다', '어서', '아서', 'ㄴ다', 'ㄴ', 'ㄹ', 'ㅂ니다', '은', '네', '지', '지만', '으면', '니까', '아요', '어요', '자', '게', '거나', '는데', '을까']
NOUNS = ['사과', '바나나', '학교', '너', '나', '먹이', '하루', '가지', '지도', '고양이']
JOSA = ['는', '은', '이', '가', '를', '을', '도', '만', '에', '에서', '고', '지만']


def counter(ws):
    """the EojeolCounter of these eojeol counts"""
    return EojeolCounter([' '.join([w] * n) for w, n in ws.items()], max_length=max(map(len, ws), default=1))


def lefts(ws, lmax=10):
    """every string that may be an L of the graph of ws"""
    return sorted({w[:i] for w in ws for i in range(1, min(lmax, len(w)) + 1)})


def predicators(r, rich=False, odd=True):
    """(eojeol counts, known stems, nouns, known endings)"""
    stems = r.sample(KNOWN, r.randint(1, 6))
    new = r.sample(NEW, r.randint(0, 3)) + r.sample(KNOWN, 1)
    eomi = r.sample(EOMI, r.randint(2, 9))
    ends = r.sample(eomi, r.randint(1, len(eomi)))
    nouns = r.sample(NOUNS, r.randint(0, 4))
    ws = {}
    lone = len(stems) + len(new)
    def put(w, n=None):
        if w and all('가' <= c <= '힣' for c in w): ws[w] = ws.get(w, 0) + (n or r.choice([1, 1, 2, 3, 5]))
    dense = r.random() < 0.4
    if rich:
        stems, new, dense = r.sample(KNOWN, r.randint(1, 3)), r.sample(NEW, r.randint(2, 4)), True
        eomi = r.sample(EOMI, r.randint(6, 12))
        ends = r.sample(eomi, len(eomi) - r.randint(0, 2))
    for s in stems + new:
        for e in eomi:
            if r.random() > (0.9 if dense else 0.5): continue
            try: f = sorted(conjugate(s, e))
            except Exception: continue
            for w in (f if r.random() < 0.2 else [r.choice(f)] if f else []):
                if len(ws) < (70 if rich else 45): put(w)
                if rich and r.random() < 0.15:      # more is added to an eojeol that is complete
                    put(w + r.choice([r.choice(eomi), sorted(conjugate(r.choice(stems), '고'))[0], r.choice('가라바')]), r.choice([1, 1, 4, 9]))
                if rich and r.random() < 0.08: put(s, r.choice([1, 3]))
                if r.random() < 0.06 and len(ws) < (70 if rich else 45): put(r.choice(nouns + ['안', '못']) + w)
    for _ in range(r.randint(0, 6)):
        n = r.choice(nouns or NOUNS)
        put(n + r.choice([''] + JOSA))
    if r.random() < 0.4:      # an ending that begins another, and eojeols that look like a stem with the rest
        a, b = r.choice([('으면', '서'), ('는데', '도'), ('고', '는'), ('어', '서'), ('지', '만'), ('을', '지'), ('는다', '고')])
        ends = list(dict.fromkeys(ends + [a + b, b] + r.sample([a], r.randint(0, 1))))
        for s in r.sample(stems, min(len(stems), 2)):
            put(r.choice(sorted(conjugate(s, a + b)) or ['나'])); put(r.choice(sorted(conjugate(s, b)) or ['나']))
        put(a + b, r.choice([1, 5]))
        for e in r.sample(eomi, min(len(eomi), 3)): put(a + e)
    if r.random() < 0.2:      # a stem that begins another, and endings that begin like the rest
        a, x, e = r.choice(stems), r.choice(['지', '우', '하', '이']), r.choice(['고', '는', '다', '지만'])
        stems.append(a + x)
        ends += [e] + [x + e] * r.randint(0, 1)
        put(a + x + e); put(a + x + r.choice(eomi))
        if r.random() < 0.5: put(a + x); put('라' + x, r.choice([1, 1, 9]))
        for u in r.sample(stems[:-1], min(len(stems) - 1, r.randint(1, 3))): put(u + x + e)
    if r.random() < 0.2:      # a noun of one syllable before it, and an ending within an ending
        n, (b, e) = r.choice(['나', '너', '안', '코']), r.choice([('고는', '는'), ('지도', '도'), ('는데', '데'), ('고서', '서'), ('지만', '만'), ('다고', '고')])
        nouns.append(n)
        for u in r.sample(stems, min(len(stems), r.randint(1, 4))):
            put(u + b); put(n + u + b, r.choice([1, 3, 9])); put(u + e)
    for _ in range(r.randint(0, 4)):
        put(word(r, '가고다는하먹어지아', 1, 4))
    if r.random() < 0.15: nouns.append(r.choice(sorted(ws) or ['나']))
    if r.random() < 0.2: nouns.append(r.choice(stems)[:1])
    if not ws: put('가고')
    if odd and r.random() < 0.25:      # eojeols that cannot be taken apart everywhere
        for _ in range(r.randint(1, 5)):
            w = r.choice(sorted(ws))
            i = r.randint(0, len(w))
            ws[w[:i] + r.choice('aㅋㅏ7B') + w[i:]] = r.choice([1, 2, 3])
        for w in r.sample(['abc', '3개', 'ㅋㅋ', '가a', 'ㅇㅇ고', '가고ㅋ', 'ㅏ', 'a는'], 2): ws[w] = r.choice([1, 2])
    return ws, stems, sorted(set(nouns)), ends
