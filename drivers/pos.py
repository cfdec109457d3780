"""Shared by C27 and C28: template taggers."""
import random
from common import *
from gen import *
from soynlp.postagger import (Dictionary, LRTemplateMatcher, EojeolTemplateMatcher, LREvaluator, SimpleEojeolEvaluator,
                              SimpleTagger, UnknowLRPostprocessor, BasePostprocessor)
from soynlp.postagger._template import LR

TAGS = ['Noun', 'Josa', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Etc']
LRW = [('is_noun_phrase', 30), ('lr_are_known', 15), ('is_verb', 20), ('is_adjective', 10), ('l_len', 10), ('r_len', 10), ('l_is_a_syllable', -20)]
EOW = [('num_nouns', -10), ('num_words', -15), ('has_noun', 20), ('has_unknown', -30), ('is_adverb_repeat', 10), ('is_compound_noun', -5), ('is_noun_josa', 10), ('is_a_noun', 20)]
LTAGS = ['Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation']
SINGLES = ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation']
PAIRS = [('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')]
TPL = {'Noun': ('Josa', 'Verb', 'Adjective')}
NO = '~'

def tag(x): return NO if x is None else x
def untag(x): return None if x == NO else x
def word_of(x): return [x.b, x.m, x.e, cps(x.l), tag(x.l_tag), cps(x.r), tag(x.r_tag)]
def lr_of(x): return LR(uncps(x[3]), untag(x[4]), uncps(x[5]), untag(x[6]), x[0], x[1], x[2])
def enc(kind, x): return word_of(x) if kind == 'lr' else [word_of(y) for y in x]
def cents(x):
    y = int(round(x * 100))
    if abs(x * 100 - y) > 1e-6: raise Unencodable('score %r' % x)
    return y

class Watch:
    """an evaluator that notes what the real one chose"""
    def __init__(self, ev): self._ev, self.chosen = ev, []
    def __getattr__(self, name): return getattr(self._ev, name)
    def select_best(self, candidates):
        got = self._ev.select_best(candidates)
        self.chosen.append([word_of(x) for x in got])
        return got

class World:
    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        self.alpha = r.choice(['ab', '가나', '가나다', '아이는다'])
        self.pool = sorted({word(r, self.alpha, 1, r.choice([2, 3, 5])) for _ in range(r.randint(4, 14))})
        self.mirror = {g: {w for w in self.pool if r.random() < 0.4} for g in r.sample(TAGS, r.randint(1, 6))}
        if r.random() < 0.6: self.mirror.setdefault('Noun', set()).update(r.sample(self.pool, min(2, len(self.pool))))
        self.dic = Dictionary({g: set(ws) for g, ws in self.mirror.items()})
        default = r.random() < 0.5
        base = LRW if kind == 'lr' else EOW
        self.weights = [w for _, w in base] if r.random() < 0.5 else [5 * r.randint(-6, 8) for _ in base]
        ws = None if self.weights == [w for _, w in base] and r.random() < 0.8 else tuple((n, w / 100) for (n, _), w in zip(base, self.weights))
        self.ltags, self.tpl, self.singles, self.pairs, self.pref = LTAGS, TPL, SINGLES, PAIRS, []
        if kind == 'lr':
            if not default:
                self.ltags = r.sample(TAGS, r.randint(1, 4))
                self.tpl = {g: tuple(r.sample(TAGS, r.randint(1, 3))) for g in r.sample(TAGS, r.randint(1, 3))}
            self.gen = LRTemplateMatcher(self.dic) if default else LRTemplateMatcher(self.dic, set(self.ltags), self.tpl)
            if r.random() < 0.4:
                self.pref = [(g, w, 5 * r.randint(-30, 30)) for g in r.sample(TAGS, 3) for w in r.sample(self.pool, min(2, len(self.pool)))]
            p = {}
            for g, w, x in self.pref: p.setdefault(g, {})[w] = x / 100
            self.ev = LREvaluator(ws, p) if p else LREvaluator(ws) if ws else LREvaluator()
        else:
            if not default:
                self.singles = r.sample(TAGS, r.randint(1, 5))
                self.pairs = [(a, b) for a in r.sample(TAGS, 3) for b in r.sample(TAGS, 2)]
            self.gen = EojeolTemplateMatcher(self.dic) if default else EojeolTemplateMatcher(self.dic, self.singles, self.pairs)
            self.ev = SimpleEojeolEvaluator(ws) if ws else SimpleEojeolEvaluator()
        self.filler = r.random() < 0.7
        self.post = UnknowLRPostprocessor() if self.filler else r.choice([None, BasePostprocessor()])
        self.calls, self.text = [], [kind, {g: sorted(w) for g, w in self.mirror.items()}, self.weights, self.pref, self.ltags, str(self.tpl), self.singles, self.pairs, self.filler]

    def config(self):
        return {'kind': self.kind, 'weights': self.weights, 'pref': [[g, cps(w), x] for g, w, x in self.pref], 'ltags': list(self.ltags),
                'tpl': [[g, list(v)] for g, v in self.tpl.items()], 'singles': list(self.singles), 'pairs': [list(p) for p in self.pairs], 'filler': self.filler}

    def token(self):
        r = self.r
        if r.random() < 0.8: return ''.join(r.choice(self.pool) for _ in range(r.randint(1, 3)))[:9 if self.kind == 'eo' or r.random() > 0.03 else 15]
        return word(r, self.alpha + '!', 1, 6)

    def change(self):
        r = self.r
        g = r.choice(TAGS)
        ws = [self.token() for _ in range(2)] if r.random() < 0.4 else r.sample(self.pool, min(3, len(self.pool)))
        if r.random() < 0.5 or g not in self.mirror:
            if isinstance(call(self.dic.add_words, g, ws, force=True), Exc): return
            self.mirror.setdefault(g, set()).update(ws)
        elif r.random() < 0.7:
            call(self.dic.remove_words, g, ws)
            self.mirror[g] -= set(ws)
        else:
            call(self.dic.remove_words, g)
            del self.mirror[g]
        self.text.append(['change', {g: sorted(w) for g, w in self.mirror.items()}])

    def generate(self, tok):
        e = {'fn': 'generate', 'tok': cps(tok)}
        g = call(self.gen.generate, tok)
        if isinstance(g, Exc): e['exc'] = g.name
        else: e['got'] = [enc(self.kind, x) for x in g]
        return e, g

    def one(self):
        r = self.r
        fn = r.choice(['generate', 'evaluate', 'select', 'tag', 'tag', 'tag'])
        tok = self.token()
        if fn == 'generate':
            e, g = self.generate(tok)
        elif fn in ('evaluate', 'select'):
            _, cs = self.generate(tok)
            if isinstance(cs, Exc): return
            cs = list(cs)
            n = len(tok)
            for _ in range(r.randint(0, 4)):
                # words nothing generated
                if self.kind == 'lr':
                    b = r.randint(0, n - 1); m = r.randint(b + 1, n); x = r.randint(m, n)
                    cs.append(LR(tok[b:m], r.choice(TAGS + [None]), tok[m:x], r.choice(TAGS + [None]) if x > m else None, b, m, x))
                else:
                    cuts = sorted(r.sample(range(1, n), r.randint(0, n - 1)))
                    cs.append([LR(tok[b:x], r.choice(['Noun', 'Noun', 'Adverb', 'Adverb', None, 'Verb']), '', None, b, x, x) for b, x in zip([0] + cuts, cuts + [n])])
            r.shuffle(cs)
            if not cs: return
            if fn == 'evaluate':
                x = r.choice(cs)
                e = {'fn': fn, 'of': enc(self.kind, x)}
                g = call(self.ev.evaluate, x)
                if isinstance(g, Exc): e['exc'] = g.name
                else: e['score'] = cents(g)
            else:
                e = {'fn': fn, 'tok': cps(tok), 'cand': [enc(self.kind, x) for x in cs]}
                g = call(self.ev.select_best, cs)
                if isinstance(g, Exc): e['exc'] = g.name
                else: e['got'] = [word_of(x) for x in g]
        else:
            sent = ' '.join(self.token() for _ in range(r.randint(0, 3) if r.random() > 0.02 else 12))
            if r.random() < 0.2: sent = '  ' + sent + '\n'
            flat, debug = r.random() < 0.5, r.random() < 0.3
            w = Watch(self.ev)
            t = SimpleTagger(self.gen, w, self.post) if self.post else SimpleTagger(self.gen, w)
            kw = {}
            if not flat: kw['flatten'] = False
            if debug: kw['debug'] = True
            g = call(t.tag, sent, **kw)
            e = {'fn': fn, 'sent': cps(sent), 'flat': flat, 'debug': debug, 'chosen': w.chosen, 'out': [], 'flatout': [], 'scored': []}
            if isinstance(g, Exc): e['exc'] = g.name
            else:
                if debug:
                    g, d = g
                    e['scored'] = [[[enc(self.kind, x), cents(s)] for x, s in y] for y in d]
                if flat: e['flatout'] = [[cps(a), tag(b)] for a, b in g]
                else: e['out'] = [[[cps(a), tag(b)] for a, b in y] for y in g]
        e.setdefault('exc', '')
        e['dict'] = [[x, [cps(w) for w in ws]] for x, ws in self.mirror.items()]
        self.calls.append(e)
        self.text.append([fn, uncps(e.get('sent', e.get('tok', []))), repr(g)[:600]])

def history(kind, seed):
    r = random.Random(seed)
    w = World(r, kind)
    for _ in range(r.randint(3, 8)):
        if r.random() < 0.2: w.change()
        w.one()
    return dict(w.config(), calls=w.calls, ncalls=len(w.calls), readable=w.text)

def corrupt(rec, r):
    cs = [c for c in rec['calls'] if not c['exc'] and (c['fn'] == 'evaluate' or c.get('got') or c.get('flatout') or c.get('out'))]
    if not cs: return None
    c = r.choice(cs)
    if c['fn'] == 'evaluate': c['score'] += 1
    elif c.get('got'): c['got'].pop() if c['fn'] == 'generate' else c['got'].append([0, 1, 1, [97], 'Noun', [], NO])
    elif c['flat']: c['flatout'].pop()
    else: c['out'].pop()
    rec['canary'] = True
    return rec

def records(kind, rng, n):
    for i in range(n):
        seed = rng.random()
        yield lambda: history(kind, seed)
        if i % 25 == 7:
            yield lambda: corrupt(history(kind, seed), random.Random(seed))
