V='soynlp/vectorizer/_vectorizer.py'; WC='soynlp/vectorizer/_word_context.py'; PH='soynlp/word/_phrase.py'; W='soynlp/word/_word.py'
CJ='soynlp/lemmatizer/_conjugation.py'; TP='soynlp/postagger/_template.py'; AD='soynlp/pos/_adverb.py'; N2='soynlp/noun/_noun_ver2.py'; N1='soynlp/noun/_noun_ver1.py'
EV='soynlp/postagger/_evaluator.py'; PM='soynlp/word/_pmi.py'; U='soynlp/utils/utils.py'; TG='soynlp/postagger/_tagger.py'; H='soynlp/hangle/_hangle.py'
SEEDS=[
dict(id='vectorizer-count-byte', property='C16',
 needs='a token that occurs more than 255 times in one document',
 breaks='counts of 256 and more wrap around in the matrix',
 edits=[(V,"        return csr_matrix((data, (rows, cols)), shape=(i_doc+1, self.n_vocabs))","        return csr_matrix((data, (rows, cols)), shape=(i_doc+1, self.n_vocabs)).astype('uint8')")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(verbose=False)
x = v.fit_transform(['가 ' * 300, '나'])
assert x[0, v.vocabulary_['가']] == 300, x.todense()
'''),
dict(id='vectorizer-empty-tail', property='C16',
 needs='a corpus whose last documents have no known token',
 breaks='the matrix lacks the rows of the last documents if these are empty',
 edits=[(V,"        return csr_matrix((data, (rows, cols)), shape=(i_doc+1, self.n_vocabs))","        n_rows = rows[-1] + 1 if rows else i_doc + 1\n        return csr_matrix((data, (rows, cols)), shape=(n_rows, self.n_vocabs))")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
assert BaseVectorizer(verbose=False).fit_transform(['가 나', '나', '']).shape == (3, 2)
'''),
dict(id='context-window-ten', property='C17',
 needs='a window larger than ten',
 breaks='words more than ten places away are not counted whatever the window',
 edits=[(WC,"        n = len(words)\n\n        for i, word","        n = len(words)\n        windows = min(windows, 10)\n\n        for i, word")],
 demo='''
from soynlp.vectorizer import sent_to_word_contexts_matrix as f
x, words = f(['가 나 나 나 나 나 나 나 나 나 나 나 나 다'], windows=15, min_tf=1, verbose=False)
assert x[words.index('가'), words.index('다')] == 1
'''),
dict(id='bigram-retrain', property='C19',
 needs='training one extractor twice and scoring with pmi or mikolov',
 breaks='the word counts of the first training are added to those of the second',
 edits=[(PH,"        self._unigram = {}\n","        self._unigram = getattr(self, '_unigram', {})\n")],
 demo='''
from soynlp.word import Bigram
s = ['가 나 다', '가 나', '나 다']
a = Bigram(min_frequency=1, verbose=False, score='mikolov'); a.train(['가 나 가 나']); a.train(s)
b = Bigram(min_frequency=1, verbose=False, score='mikolov'); b.train(s)
assert a.extract() == b.extract(), (a.extract(), b.extract())
a.score = b.score = 'pmi'
assert a.extract(threshold=-9) == b.extract(threshold=-9)
'''),
dict(id='word-restart-neighbours', property='C21',
 needs='training anew (cumulate=False) after another training',
 breaks='the eojeols next to each other in the earlier training still count as neighbours',
 edits=[(W,"            self._aL = defaultdict(int)\n            self._aR = defaultdict(int)","            self._aL = defaultdict(int, self._aL)\n            self._aR = defaultdict(int, self._aR)")],
 demo='''
from soynlp.word import WordExtractor
a = WordExtractor(min_frequency=1, verbose_points=0)
a.train(['가나 다라', '가나 다라']); a.train(['가나 마바', '가나 마바'], cumulate=False)
assert a.accessor_variety('가나') == (1, 1), a.accessor_variety('가나')
'''),
dict(id='word-train-twice-pruned', property='C20',
 needs='training a second time with a pruning period after a first training',
 breaks='with a pruning period a second training forgets the kept counts of the first',
 edits=[(W,"        if cumulate:\n            self.L","        if cumulate and not num_for_pruning:\n            self.L")],
 demo='''
from soynlp.word import WordExtractor
a = WordExtractor(min_frequency=1, verbose_points=0)
a.train(['가나 가나']); a.train(['다라 가나'], num_for_pruning=5)
assert a.L['가나'] == 3, a.L
'''),
dict(id='conjugate-bieup-one', property='C24',
 needs='a one-syllable stem 답 or 곱 with an ending that begins with 아',
 breaks='the broken vowel harmony of long stems is applied to one-syllable stems too',
 edits=[(CJ,"            if l_len >= 2 and (l_last_ == '답'","            if (l_last_ == '답'")],
 demo='''
from soynlp.lemmatizer import conjugate
assert '고와서' in conjugate('곱', '아서') and '고워서' not in conjugate('곱', '아서'), conjugate('곱', '아서')
'''),
dict(id='lrtag-tag-order', property='C27',
 needs='a left word with two tags that may be followed by the same right word',
 breaks='only one of several tags of a left word is tried',
 edits=[(TP,"                for l_tag in l_tags:\n                    candidates.append([l, l_tag, b, e])","                candidates.append([l, sorted(l_tags)[-1], b, e])")],
 demo='''
from soynlp.postagger import Dictionary, LRTemplateMatcher
m = LRTemplateMatcher(Dictionary({'Noun': ['사과'], 'Verb': ['사과'], 'Josa': ['는']}))
assert {(c.l_tag, c.r) for c in m.generate('사과는')} == {('Noun', ''), ('Noun', '는'), ('Verb', '')}
'''),
dict(id='eojeoltag-templates-shared', property='C28',
 needs='an eojeol whose two parts carry two allowed pairs of tags',
 breaks='for a split only the first allowed pair of tags is a candidate',
 edits=[(TP,"                    candidates.append([LR(l, l_tag, r, r_tag, 0, b, n)])","                    candidates.append([LR(l, l_tag, r, r_tag, 0, b, n)])\n                    break")],
 demo='''
from soynlp.postagger import Dictionary, EojeolTemplateMatcher
m = EojeolTemplateMatcher(Dictionary({'Noun': ['사과'], 'Verb': ['하다'], 'Adjective': ['하다']}))
g = {(c[0].l_tag, c[0].r_tag) for c in m.generate('사과하다')}
assert {('Noun', 'Verb'), ('Noun', 'Adjective')} <= g, g
'''),
dict(id='adverb-suffix-first', property='C33',
 needs='more than one suffix',
 breaks='only the first suffix is used for a stem',
 edits=[(AD,"    return {stem[:-1] + suffix for stem in stems for suffix in suffixs if stem[-1] == '하'}","    return {stem[:-1] + suffix for stem in stems for suffix in list(suffixs)[:max(1, len(stems))] if stem[-1] == '하'}")],
 demo='''
from soynlp.pos import stem_to_adverb
assert stem_to_adverb(['조용하'], ['히', '하게']) == {'조용히', '조용하게'}
'''),
dict(id='nounv2-compound-count', property='C22',
 needs='a compound that occurs alone and with a particle, or with two particles',
 breaks='the frequency of a compound is that of one of its eojeols instead of their sum',
 edits=[(N2,"                compounds_counts[noun] = compounds_counts.get(noun,0) + count","                compounds_counts[noun] = max(compounds_counts.get(noun,0), count)")],
 demo='''
import contextlib, io
from soynlp.noun import LRNounExtractor_v2
s = [n + j for n in ['사과', '나무'] for j in ['는', '를', '에서', '에게', '가'] for _ in range(4)] + ['사과나무'] * 3 + ['사과나무에서'] * 5
with contextlib.redirect_stdout(io.StringIO()):
    e = LRNounExtractor_v2(verbose=False)
    e.train(s)
    p = {'사과': (20, 1.0), '나무': (20, 1.0)}
    g = e.extract_compounds({}, p)
assert g['사과나무'][0] == 8, g
'''),
dict(id='nounv2-syllable-common', property='C22',
 needs='extracting without reset when a one-syllable noun is followed by a feature that is both particle and ending',
 breaks='eojeols of a one-syllable noun with such a feature stay in the graph',
 edits=[(N2,"""                    if (r == '' or
                       (r in self._pos_features) or
                       (r in self._common_features)):""","""                    if (r == '' or
                       (r in self._pos_features)):""")],
 demo='''
import contextlib, io
from soynlp.noun import LRNounExtractor_v2
with contextlib.redirect_stdout(io.StringIO()):
    e = LRNounExtractor_v2(verbose=False)
    r = sorted(e._common_features, key=lambda x: (len(x), x))[0]
    e.train(['물' + j for j in ['를', '에서', '에', '로', '도', r] for _ in range(5)])
    g = e.extract(reset_lrgraph=False)
assert '물' in g and r not in e.lrgraph._lr.get('물', {}), (g, e.lrgraph._lr)
'''),
dict(id='nounv1-subword-first', property='C23',
 needs='a word with too few right parts that has two readings with different scores',
 breaks='a word with several readings takes the score of the shortest first part instead of the best one',
 edits=[(N1,"        return sorted(subword_scores.items(), key=lambda x:-x[1][0])[0][1]","        return next(iter(subword_scores.values()))")],
 demo='''
import contextlib, io, os, tempfile
from soynlp.noun import LRNounExtractor
with contextlib.redirect_stdout(io.StringIO()):
    e = LRNounExtractor(verbose=False)
    e.train(['가나다라'] * 9, 1)
    g = e.predict('가나다라', 0.5, {'가나': (0.6, 1.0), '다라': (0.55, 1.0), '가나다': (0.9, 1.0), '라': (0.95, 0.5)})
assert g == (0.95, 0.5), g
'''),
dict(id='unknown-weight-sign', property='C28',
 needs='user-defined weights given in the documented order but a candidate with unknown parts',
 breaks='a compound of adverbs is counted as a compound of nouns as well',
 edits=[(EV,"            num_words == len([True for lr in candidate if lr.l_tag == 'Noun']))","            num_words == len([True for lr in candidate if lr.l_tag in ('Noun', 'Adverb')]))")],
 demo='''
from soynlp.postagger import Dictionary, EojeolTemplateMatcher
from soynlp.postagger._evaluator import SimpleEojeolEvaluator
m = EojeolTemplateMatcher(Dictionary({'Adverb': ['빨리']}))
c = [x for x in m.generate('빨리빨리') if len(x) == 2][0]
s = SimpleEojeolEvaluator().evaluate(c)
assert abs(s - (2 * -0.15 + 0.1)) < 1e-9, s
'''),
dict(id='pmi-probability-changed', property='C18',
 needs='a caller that uses the given column probabilities again',
 breaks='with beta below one the column probabilities the caller gave are overwritten',
 edits=[(PM,"""        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
    if beta < 1:
        py = py ** beta
        py /= py.sum()
    pxy = X / X.sum()

    # transform px""","""        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
    if beta < 1:
        py **= beta
        py /= py.sum()
    pxy = X / X.sum()

    # transform px""")],
 demo='''
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word import pmi
X = csr_matrix(np.array([[3., 1.], [1., 2.]]))
py = np.array([[0.5, 0.5]]) * np.array([[1.2, 0.8]])
a = pmi(X, py=py, beta=0.5, min_pmi=-9)[0].toarray()
b = pmi(X, py=py, beta=0.5, min_pmi=-9)[0].toarray()
assert abs(a - b).max() < 1e-9, (a, b)
'''),
dict(id='checkdirs-file-named', property='C31',
 needs='a path whose missing directories are more than one level deep',
 breaks='only the last directory is made, and a path with two missing levels fails',
 edits=[(U,"        os.makedirs(dirname)\n        print('created","        os.mkdir(dirname)\n        print('created")],
 demo='''
import os, tempfile
from soynlp.utils import check_dirs
with tempfile.TemporaryDirectory() as t:
    check_dirs(os.path.join(t, 'a', 'b', 'c.txt'))
    assert os.path.isdir(os.path.join(t, 'a', 'b'))
'''),
]
