"""C26: the tag dictionary."""
import os, random
from common import *
from gen import *
from soynlp.postagger import Dictionary
MODELS = [{'module': 'MC_TagDict', 'cfg': 'MC_TagDict.cfg', 'cfg_thorough': 'MC_TagDict_t.cfg', 'cases': True,
           'actions': ['DoNew', 'DoAdd', 'DoRemove', 'DoRemoveTag', 'DoSave', 'DoLoad']}]
TRACES = [{'module': 'TR_TagDict'}]
ASSUMPTIONS = ['the dict handed to the constructor belongs to the dictionary from then on', 'words are strings, tags too']
TAGS = ['Noun', 'Josa', 'Verb', '명사']
FORMS = [set, list, tuple, frozenset, lambda x: dict.fromkeys(x, 1), lambda x: (y for y in list(x)), 'text']


def shown(d): return [[g, [cps(w) for w in ws]] for g, ws in d.pos_dict.items()]


def observe(ev, d, words):
    ev['shown'] = shown(d)
    ev['tags'] = [[cps(w), list(d.get_pos(w))] for w in words]
    ev['is'] = [[cps(w), g, bool(d.word_is_tag(w, g))] for w in words for g in TAGS]
    ev['longest'] = d.max_length


def history(seed):
    r = random.Random(seed)
    alpha = r.choice(['ab', '가나', '가나다'])
    pool = sorted({word(r, alpha, 1, 5) for _ in range(8)} | {alpha * 4})
    if r.random() < 0.04: pool = sorted(set(pool) | {word(r, alpha, 3, 9) for _ in range(30)} | {alpha * 16})
    pick = lambda k=4: r.sample(pool, r.randint(0, min(k if len(pool) < 15 else 30, len(pool))))
    events, text, mine, files, d = [], [], [], [], None
    def arg():
        ws = pick()
        f = r.choice(FORMS)
        if f == 'text': return True, r.choice([' ', '  ', '\n']).join(ws), ws
        if f is list and r.random() < 0.3: ws = ws + ws[:1]
        return False, f(ws), ws
    with scratch() as dn:
        for i in range(r.randint(2, 9)):
            op = 'new' if d is None else r.choice(['add', 'add', 'add', 'remove', 'remove', 'remove_tag', 'save', 'load', 'query', 'new'])
            ev = {'op': op, 'exc': '', 'answer': 'ok', 'touched': False, 'text': False, 'words': []}
            g = r.choice(TAGS)
            got = None
            if op == 'new':
                given = {x: r.choice([set, list, tuple])(pick(5)) for x in r.sample(TAGS, r.randint(0, 3))}
                ev['dict'] = [[x, [cps(w) for w in ws]] for x, ws in given.items()]
                got = call(Dictionary, given)
                text.append(['new', ev['dict']])
            elif op == 'add':
                ev['text'], ws, plain = arg()
                ev.update(tag=g, words=cps(ws) if ev['text'] else [cps(w) for w in plain], force=r.random() < 0.5)
                got = call(d.add_words, g, ws, force=True) if ev['force'] else call(d.add_words, g, ws)
                if isinstance(ws, (set, list)): mine.append((ws, type(ws)(ws)))
                text.append(['add', g, plain, ev['force']])
            elif op == 'remove':
                ev['text'], ws, plain = arg()
                ev.update(tag=g, words=cps(ws) if ev['text'] else [cps(w) for w in plain])
                got = call(d.remove_words, g, ws)
                if isinstance(ws, (set, list)): mine.append((ws, type(ws)(ws)))
                text.append(['remove', g, plain])
            elif op == 'remove_tag':
                ev['tag'] = g
                got = call(d.remove_words, g)
                text.append(['remove tag', g])
            elif op == 'save':
                ev['file'] = r.choice('fg')
                files.append(ev['file'])
                got = call(d.save, os.path.join(dn, ev['file']))
                text.append(['save', ev['file']])
            elif op == 'load':
                ev['file'] = r.choice('fg')
                p = os.path.join(dn, ev['file'])
                if r.random() < 0.5 and ev['file'] in files: got = call(d.load, p)
                else: got = call(Dictionary, p)
                text.append(['load', ev['file']])
            if isinstance(got, Exc):
                if got.name == 'ValueError': ev['answer'] = 'refused'
                else: ev['exc'] = got.name
            elif isinstance(got, Dictionary): d = got
            ev['touched'] = any(a != b for a, b in mine)
            # what the caller does with his own words later is not seen
            if mine and r.random() < 0.3:
                ws, _ = mine.pop()
                ws.clear()
            if d is None:
                return {'unencodable': 'no dictionary', 'readable': text}
            if not ev['exc']: observe(ev, d, pool + ['없는말', ''])
            events.append(ev)
            if ev['exc']: break
    return {'events': events, 'ncalls': len(events), 'readable': text}


def corrupt(rec, r):
    ev = r.choice(rec['events'])
    if ev['exc']: return None
    k = r.choice(['tags', 'is', 'shown', 'answer'])
    if k == 'tags': r.choice(ev['tags'])[1].append('X')
    elif k == 'is':
        x = r.choice(ev['is'])
        x[2] = not x[2]
    elif k == 'shown': ev['shown'].append(['extra', []])
    else: ev['answer'] = 'ok' if ev['answer'] == 'refused' else 'refused'
    rec['canary'] = True
    return rec


def record(module, rng, tier):
    for i in range(500 if tier == 'quick' else 6000):
        seed = rng.random()
        yield lambda: history(seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(seed), random.Random(seed))


def replay(module, case):
    d, rd = None, []
    with scratch() as dn:
        p = os.path.join(dn, 'f')
        for i, h in enumerate(case['hist']):
            ws = {uncps(w) for w in h['ws']}
            want = {g: {uncps(w) for w in x} for g, x in h['dict']}
            rd.append([h['op'], h['g'], sorted(ws), h['force']])
            op = h['op']
            if op == 'new':
                got = call(Dictionary, {g: set(x) for g, x in want.items()})
                if not isinstance(got, Exc): d = got
            elif op == 'add': got = call(d.add_words, h['g'], ws, h['force'])
            elif op == 'remove': got = call(d.remove_words, h['g'], ws)
            elif op == 'remove_tag': got = call(d.remove_words, h['g'])
            elif op == 'save': got = call(d.save, p)
            elif op == 'load':
                got = call(Dictionary, p)
                if not isinstance(got, Exc): d = got
            ans = 'ok' if not isinstance(got, Exc) else 'refused' if got.name == 'ValueError' else got.name
            if ans != h['answer'] or d is None or d.pos_dict != want:
                return {'ok': False, 'got': [ans, repr(d and d.pos_dict)], 'readable': rd, 'clause': op}
    return {'ok': True, 'got': '', 'readable': rd}
