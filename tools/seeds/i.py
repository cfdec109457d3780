H='soynlp/hangle/_hangle.py'; D='soynlp/hangle/_distance.py'; T='soynlp/tokenizer/_tokenizer.py'; NT='soynlp/tokenizer/_noun_tokenizer.py'
U='soynlp/utils/utils.py'; W='soynlp/word/_word.py'; PH='soynlp/word/_phrase.py'; EO='soynlp/predicator/_eomi.py'; ST='soynlp/predicator/_stem.py'
TP='soynlp/postagger/_template.py'; LM='soynlp/lemmatizer/_lemmatizer.py'; CJ='soynlp/lemmatizer/_conjugation.py'; NN='soynlp/noun/_noun_news.py'; PR='soynlp/predicator/_predicator.py'
V='soynlp/vectorizer/_vectorizer.py'; DI='soynlp/postagger/_dictionary.py'; N1='soynlp/noun/_noun_ver1.py'; AD='soynlp/pos/_adverb.py'; EV='soynlp/postagger/_evaluator.py'
SEEDS=[
dict(id='ltok-remembers-tolerance', property='C04',
 needs='asking for one sentence twice with different positive tolerances',
 breaks='the split of an eojeol is remembered and given again under another tolerance',
 edits=[(T,"        tokens = [token_to_lr(token, tolerance) for token in sentence.split()]\n","        if not hasattr(self, '_known'):\n            self._known = {}\n        tokens = []\n        for token in sentence.split():\n            if not (token, tolerance > 0) in self._known:\n                self._known[token, tolerance > 0] = token_to_lr(token, tolerance)\n            tokens.append(self._known[token, tolerance > 0])\n")],
 demo='''
from soynlp.tokenizer import LTokenizer
t = LTokenizer({'가나': 0.9, '가나다': 0.8})
assert t.tokenize('가나다라', tolerance=0.05) == ['가나', '다라']
assert t.tokenize('가나다라', tolerance=0.2) == ['가나다', '라']
'''),
dict(id='maxscore-memo-length', property='C05',
 needs='a short eojeol before a longer one in one sentence or object',
 breaks='the longest word considered is that of the first eojeol',
 edits=[(T,"        if range_l == 0:\n            range_l = min(self._max_length, length)\n","        if range_l == 0:\n            self._max_length = range_l = min(self._max_length, max(length, 4))\n")],
 demo='''
from soynlp.tokenizer import MaxScoreTokenizer
t = MaxScoreTokenizer({'가나다라마': 0.9})
assert t.tokenize('가나다 가나다라마') == ['가나다', '가나다라마'], t.tokenize('가나다 가나다라마')
'''),
dict(id='lemmatizer-memory', property='C25',
 needs='lemmatizing one word with and then without check_only_stem',
 breaks='the lemmas of a word are remembered whatever was asked',
 edits=[(LM,"        candidates = set()\n        for i in range(1, len(word)+1):\n            l, r = word[:i], word[i:]\n","        if not hasattr(self, '_seen'):\n            self._seen = {}\n        if word in self._seen:\n            return set(self._seen[word])\n        candidates = self._seen[word] = set()\n        for i in range(1, len(word)+1):\n            l, r = word[:i], word[i:]\n")],
 demo='''
from soynlp.lemmatizer import Lemmatizer
m = Lemmatizer({'먹'}, {'는'})
assert m.lemmatize('먹고', check_only_stem=True) == {('먹', '고')}
assert m.lemmatize('먹고') == set(), m.lemmatize('먹고')
'''),
dict(id='bigram-rescored', property='C19',
 needs='extracting again with another score after a first extraction',
 breaks='the scores of the first extraction decide the second',
 edits=[(PH,"        N = 2 * sum(self._counter.values())\n        pmis = {}\n","        N = self._total = getattr(self, '_total', 0) or 2 * sum(self._counter.values())\n        pmis = {}\n")],
 demo='''
from soynlp.word import Bigram
b = Bigram(min_frequency=1, verbose=False, score='pmi')
b.train(['가 나 다']); x = b.extract(threshold=-9)
b.train(['가 나 다 가 나 라 마']); y = b.extract(threshold=-9)
c = Bigram(min_frequency=1, verbose=False, score='pmi'); c.train(['가 나 다 가 나 라 마'])
assert y == c.extract(threshold=-9), (y, c.extract(threshold=-9))
'''),
dict(id='word-scores-kept', property='C21',
 needs='scoring, training again, and scoring again',
 breaks='cohesion scores computed before are given again after more training',
 edits=[(W,"        cps = {}\n        words = self.words()\n        for i, word in enumerate(words):\n","        cps = self._cps = getattr(self, '_cps', {})\n        words = self.words()\n        for i, word in enumerate(words):\n            if word in cps:\n                continue\n")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0)
w.train(['가나 가나 가다']); w.all_cohesion_scores()
w.train(['가다 가다 가다'])
assert abs(w.all_cohesion_scores()['가나'][0] - w.cohesion_score('가나')[0]) < 1e-9
'''),
dict(id='lrtag-tables-at-creation', property='C27',
 needs='adding words to the dictionary after the matcher was made',
 breaks='the matcher looks no further than the longest word its dictionary had when it was made',
 edits=[(TP,"        self.rtags = {tag for tags in templates.values() for tag in tags}\n","        self.rtags = {tag for tags in templates.values() for tag in tags}\n        self.max_length = dictionary.max_length\n"),
        (TP,"            for e in range(b+2, min(n, b + self.dictionary.max_length) + 1):","            for e in range(b+2, min(n, b + self.max_length) + 1):")],
 demo='''
from soynlp.postagger import Dictionary, LRTemplateMatcher, LREvaluator, SimpleTagger, UnknowLRPostprocessor
d = Dictionary({'Noun': {'가나'}})
t = SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())
d.add_words('Noun', {'가나다라'})
assert t.tag('가나다라') == [('가나다라', 'Noun')], t.tag('가나다라')
'''),
dict(id='dictionary-remove-length', property='C26',
 needs='removing words in a string form after others were added as a set given by the user',
 breaks='removing words from a tag changes the word set given to add_words',
 edits=[(DI,"        return set(words)\n\n    def load","        return words if isinstance(words, set) else set(words)\n\n    def load")],
 demo='''
from soynlp.postagger import Dictionary
d = Dictionary({'Noun': {'가'}})
mine = {'나', '다'}
d.add_words('Josa', mine, force=True)
d.remove_words('Josa', ['나'])
assert mine == {'나', '다'}, mine
'''),
dict(id='vectorizer-fit-twice', property='C16',
 needs='fitting a second time with other documents',
 breaks='the terms of the first fit stay in the vocabulary of the second if they still occur rarely',
 edits=[(V,"        self.vocabulary_ = {term:idx for idx, (term, _) in enumerate(\n            sorted(vocabs.items(), key=lambda x:-x[1]))}\n","        old = getattr(self, 'vocabulary_', None) or {}\n        self.vocabulary_ = {term:idx for idx, (term, _) in enumerate(\n            sorted(vocabs.items(), key=lambda x:(-x[1], x[0] in old)))}\n        if old.keys() == self.vocabulary_.keys():\n            self.vocabulary_ = old\n")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(verbose=False)
v.fit(['가 가 나']); v.fit(['나 나 가'])
assert v.vocabulary_ == {'나': 0, '가': 1}, v.vocabulary_
'''),
dict(id='newsnoun-train-adds', property='C34',
 needs='training a second time on other sentences',
 breaks='the eojeols of the first training still count as eojeols after a second',
 edits=[(NN,"        self.lrgraph, self.rlgraph, self.eojeols = self._build_graph(sents)\n","        before = getattr(self, 'eojeols', {})\n        self.lrgraph, self.rlgraph, self.eojeols = self._build_graph(sents)\n        for eojeol in before:\n            self.eojeols.setdefault(eojeol, before[eojeol])\n")],
 demo='''
import io, contextlib
from soynlp.noun import NewsNounExtractor
with contextlib.redirect_stdout(io.StringIO()):
    a = NewsNounExtractor(verbose=False); a.train(['사과'] * 3); a.train(['사과는'] * 3)
    b = NewsNounExtractor(verbose=False); b.train(['사과는'] * 3)
assert a.predict('사과') == b.predict('사과'), (a.predict('사과'), b.predict('사과'))
'''),
dict(id='stem-known-after', property='C32',
 needs='extracting twice with one stem extractor',
 breaks='surfaces found by an extraction count as known in the next one',
 edits=[(ST,"        # add known L for unknown L prediction\n        extracted = {l:None for l in self.L}\n","        # add known L for unknown L prediction\n        extracted = {l:None for l in self.L}\n        extracted.update({l:None for l in getattr(self, 'stem_surfaces', {}) if len(l) > 2})\n"),
        (ST,"        extracted = {l:score for l, score in extracted.items() if not (l in self.L)}","        extracted = {l:score for l, score in extracted.items() if score is not None}")],
 demo='''
from soynlp.utils import EojeolCounter
from soynlp.predicator import StemExtractor
ends = ['고', '는', '지', '던', '네', '자']
c = EojeolCounter([' '.join(s + e for s in ('먹', '덕질하') for e in ends)] * 3)
x = StemExtractor(c.to_lrgraph(), {'먹'}, set(ends), 1, 0, verbose=False)
a = dict(x.extract(min_stem_frequency=1)); b = dict(x.extract(min_stem_frequency=1))
assert a and a == b, (a, b)
'''),
dict(id='eojeolcounter-coverage-left', property='C11',
 needs='loading counts into a counter that had coverage',
 breaks='coverage after a second removal is relative to what was left by the first',
 edits=[(U,"        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum","        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum\n        self._count_sum = max(1, self.num_of_uncovered_eojeols) if self.coverage > 0.5 else self._count_sum")],
 demo='''
from soynlp.utils import EojeolCounter
c = EojeolCounter(['가 가 가 나 다'])
c.remove_covered_eojeols({'가'}); c.remove_covered_eojeols({'나'})
assert abs(c.coverage - 0.8) < 1e-9, c.coverage
'''),
dict(id='predicator-josa-given', property='C29',
 needs='an extractor without its own nouns and a noun with a josa of one character',
 breaks='after extracting, the eojeols that were nouns with particles are no longer skipped',
 edits=[(PR,"        self._num_of_covered_eojeols = 0\n\n        predicators = self._extract_predicator(","        self._num_of_covered_eojeols = 0\n        if candidates:\n            self._nouns = {noun for noun in self._nouns if not (noun in candidates)}\n\n        predicators = self._extract_predicator(")],
 demo='''
import io, contextlib
from soynlp.predicator import PredicatorExtractor
with contextlib.redirect_stdout(io.StringIO()):
    x = PredicatorExtractor({'사과'}, josas={'는'}, adjectives=set(), verbs={'사과'}, eomis={'는'}, verbose=False)
    x.train(['사과는 사과는 사과'], min_eojeol_frequency=1)
    a = x.extract({'사과': 1, '사과는': 2})
assert '사과는' not in a[0] and '사과는' not in a[1], a
'''),
]
