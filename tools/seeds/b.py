H='soynlp/hangle/_hangle.py'; D='soynlp/hangle/_distance.py'; N='soynlp/normalizer/_normalizer.py'; TN='soynlp/tokenizer/_normalizer.py'
V='soynlp/vectorizer/_vectorizer.py'; WC='soynlp/vectorizer/_word_context.py'; P='soynlp/word/_pmi.py'; B='soynlp/word/_phrase.py'; W='soynlp/word/_word.py'
SEEDS=[
dict(id='hangle-moum-slot', property='C01',
 needs='a lone vowel that a consonant run cannot contain (the upper part of the vowel block)',
 breaks='a lone compound vowel is decomposed into its two simple vowels instead of itself',
 edits=[(H,"        return (' ', c, ' ')    \n","        return (' ', {'ㅘ': 'ㅗ', 'ㅝ': 'ㅜ', 'ㅢ': 'ㅡ'}.get(c, c), ' ')\n")],
 demo='''
from soynlp.hangle import decompose
for i in range(12623, 12644):
    assert decompose(chr(i)) == (' ', chr(i), ' '), chr(i)
'''),
dict(id='hangle-last-syllable', property='C01',
 needs='the very last Hangul syllable',
 breaks='the last complete syllable is not recognised as complete Korean',
 edits=[(H,"    return (kor_begin <= to_base(c) <= kor_end)","    return to_base(c) in range(kor_begin, kor_end)")],
 demo='''
from soynlp.hangle import character_is_complete_korean as f
assert f('가') and f(chr(55203)) and not f(chr(55204)) and not f('ㄱ')
'''),
dict(id='encoder-tail-blank', property='C02',
 needs='a text whose last characters are outside the alphabet',
 breaks='a foreign last character leaves a trailing blank in the encoding',
 edits=[(H,"        sent = regex.sub(' ', sent)\n        sent = doublespace_pattern.sub(' ', sent).strip()","        sent = regex.sub(' ', sent.strip())\n        sent = doublespace_pattern.sub(' ', sent)")],
 demo='''
from soynlp.hangle import ConvolutionHangleEncoder
e = ConvolutionHangleEncoder()
assert e.onehot_to_sent(e.sent_to_onehot('가나')) == '가나'
assert e.onehot_to_sent(e.sent_to_onehot('가나!')) == '가나', repr(e.onehot_to_sent(e.sent_to_onehot('가나!')))
'''),
dict(id='encoder-final-bound', property='C02',
 needs='three indices whose third is an index of the initials that is also a final',
 breaks='decoding accepts an index of the initials in the slot of the finals',
 edits=[(H,"            if not (self.jong_begin <= jong < self.number_begin):","            if not (0 <= jong < self.number_begin):")],
 demo='''
from soynlp.hangle import ConvolutionHangleEncoder
e = ConvolutionHangleEncoder()
try:
    e.onehot_to_sent([(0, 19, 1)])
except ValueError:
    pass
else:
    raise SystemExit(1)
'''),
dict(id='levenshtein-cost-same', property='C03',
 needs='a cost for a pair of characters given in one direction only, strings of equal length',
 breaks='a substitution cost is used for the reversed pair too',
 edits=[(D,"        return 0 if (c1 == c2) else cost.get((c1, c2), 1)","        return 0 if (c1 == c2) else cost.get((c1, c2), cost.get((c2, c1), 1))")],
 demo='''
from soynlp.hangle import levenshtein
assert levenshtein('가', '나', {('가', '나'): 0.5}) == 0.5
assert levenshtein('나', '가', {('가', '나'): 0.5}) == 1
'''),
dict(id='jamo-levenshtein-memo', property='C03',
 needs='a Hangul character against a non-Hangul one after the same pair position held two Hangul ones',
 breaks='a lone letter against a syllable is charged a whole substitution',
 edits=[(D,"        if jamo1 is None or jamo2 is None:\n            return 1","        if jamo1 is None or jamo2 is None or jamo1.count(' ') != jamo2.count(' ') > 1:\n            return 1")],
 demo='''
from soynlp.hangle import jamo_levenshtein
assert abs(jamo_levenshtein('가', '나') - 1/3) < 1e-9
assert abs(jamo_levenshtein('가', 'ㄱ') - 1/3) < 1e-9, jamo_levenshtein('가', 'ㄱ')
'''),
dict(id='cosine-second-norm', property='C03',
 needs='two strings with repeated units in the second only',
 breaks='the norm of the second string ignores multiplicities',
 edits=[(D,"sum([f**2 for f in d2.values()])","sum([f * d2[c] for c, f in d2.items() if c in d1 or f == 1] + [f for c, f in d2.items() if c not in d1 and f > 1])")],
 demo='''
from soynlp.hangle import cosine_distance
import math
assert abs(cosine_distance('가나', '나나가') - (1 - 3 / math.sqrt(2 * 5))) < 1e-9
assert abs(cosine_distance('가나', '나다다') - (1 - 1 / math.sqrt(2 * 5))) < 1e-9
'''),
dict(id='only-text-quote', property='C09',
 needs='an opening bracket next to a quote',
 breaks='square brackets are no longer kept by the text filter',
 edits=[(N,"a-zA-Z0-9,\\.\\?\\!\\\"\\'-()\\[\\]\\{\\}]')","a-zA-Z0-9,\\.\\?\\!\\\"\\'-()\\]\\{\\}]')")],
 demo='''
from soynlp.normalizer import only_text
assert only_text('가[나]') == '가[나]', only_text('가[나]')
'''),
dict(id='lrgraph-norm-digits', property='C09',
 needs='an eojeol with Hangul in the middle and other text before the last Hangul letter',
 breaks='the L-R graph normalizer also drops what stands before the first Hangul letter',
 edits=[(N,"    sent_ = [remain_hangle_on_last(eojeol) for eojeol in sent.split()]","    sent_ = [remain_hangle_on_last(eojeol.lstrip(',.?!')) for eojeol in sent.split()]")],
 demo='''
from soynlp.normalizer import normalize_sent_for_lrgraph as f
assert f('3가나.') == '3가나'
assert f('.가나. 다') == '.가나 다', f('.가나. 다')
'''),
dict(id='normalize-symbol-late', property='C09',
 needs='remove_repeat given together with symbols removed between repeats',
 breaks='repeats are cut before the unwanted characters are removed',
 edits=[(N,"    doc = text_filter.sub(' ', doc)\n    if not alphabet:","    doc = text_filter.sub(' ', doc)\n    if not (alphabet or number):")],
 demo='''
from soynlp.normalizer import normalize
assert normalize('abc가1') == '가'
assert normalize('abc가1', number=True) == '가1', normalize('abc가1', number=True)
'''),
dict(id='emoticon-final-first', property='C10',
 needs='a syllable with a final continued by the next letter, directly after a lone consonant equal to its initial',
 breaks='the final that continues in the next lone consonant stays on the syllable after a lone consonant',
 edits=[(N,"        elif (i < last_idx) and (idx == 2) and (idxs[i+1] == 0):","        elif (i < last_idx) and (idx == 2) and (idxs[i+1] == 0) and not (i > 0 and idxs[i-1] == 0):")],
 demo='''
from soynlp.normalizer import emoticon_normalize as f
assert f('앜ㅋㅋ') == '아ㅋㅋ'
assert f('ㅎ앜ㅋ') == 'ㅎ아ㅋㅋ', f('ㅎ앜ㅋ')
'''),
dict(id='tok-normalize-four', property='C10',
 needs='a unit of exactly three characters written exactly four times',
 breaks='four copies of a three-character unit are left alone',
 edits=[(TN,r"    re.compile('(\w\w\w)\\1{3,}'),",r"    re.compile('(\w\w\w)\\1{4,}'),")],
 demo='''
from soynlp.tokenizer._normalizer import normalize
assert normalize('가나다' * 5) == '가나다' * 2
assert normalize('가나다' * 4) == '가나다' * 2, normalize('가나다' * 4)
'''),
dict(id='vectorizer-df-first', property='C16',
 needs='a token that fails one of the two limits only, the document frequency one at its exact border',
 breaks='a token exactly at the maximum document frequency is dropped unless the limit is all documents',
 edits=[(V,"if min_df <= df_t <= max_df}","if min_df <= df_t < max_df + (max_df == n_docs)}")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(max_df=0.5, verbose=False)
v.fit(['가 나', '가 다', '가', '가'])
assert v.vocabs() and set(v.vocabs()) == {'나', '다'}, v.vocabs()
v = BaseVectorizer(max_df=0.5, verbose=False)
v.fit(['가 나', '나', '가 라', '라 가'])
assert set(v.vocabs()) == {'나', '라'}, v.vocabs()
'''),
dict(id='vectorizer-file-elements', property='C16',
 needs='a document that repeats a token, written to a file',
 breaks='the header of the MatrixMarket file counts token occurrences instead of stored elements',
 edits=[(V,"            n_elements += len({word for word in words if word in self.vocabulary_})","            n_elements += len([word for word in words if word in self.vocabulary_])")],
 demo='''
import os, tempfile
from soynlp.vectorizer import BaseVectorizer
from scipy.io import mmread
d = tempfile.mkdtemp(); f = d + '/x.mm'
docs = ['가 나 가', '나']
v = BaseVectorizer(verbose=False)
x = v.fit_transform(docs).todense()
v.to_file(docs, f)
try:
    y = mmread(f).todense()
    assert (x == y).all()
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='vectorizer-load-strip', property='C16',
 needs='decoding a bag that holds the last index of the vocabulary',
 breaks='the last word of the vocabulary is dropped when decoding a bag',
 edits=[(V,"        bow = {self.idx2vocab[idx]:count for idx, count in bow.items() if 0 <= idx < self.n_vocabs}","        bow = {self.idx2vocab[idx]:count for idx, count in bow.items() if 0 <= idx < max(self.vocabulary_.values())}")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(verbose=False)
v.fit(['가 나 가', '나 다 가'])
assert v.decode_from_bow(v.encode_a_doc_to_bow('가 나 다 가')) == {'가': 2, '나': 1, '다': 1}
'''),
dict(id='context-rare-gap', property='C17',
 needs='a rare word between two frequent ones, within the window',
 breaks='the window to the right stops at a word below the minimum frequency',
 edits=[(WC,"                j = i + w + 1\n                if j >= n or not (words[j] in vocab2idx):\n                    continue","                j = i + w + 1\n                if j >= n or not (words[j] in vocab2idx):\n                    break")],
 demo='''
from soynlp.vectorizer import sent_to_word_contexts_matrix
x, v = sent_to_word_contexts_matrix(['가 나 다', '가 다'], windows=2, min_tf=2, verbose=False)
i, j = v.index('가'), v.index('다')
assert x[i, j] == 2 and x[j, i] == 2, x.todense()
'''),
dict(id='context-dynamic-left', property='C17',
 needs='dynamic weights and a context at the far end of a window of three or more',
 breaks='with dynamic weights the farthest context of the window weighs nothing',
 edits=[(WC,"        weight = [(windows-i)/windows for i in range(windows)]","        weight = [(windows-i)/windows if windows < 3 else (windows-i)/(windows+i//2) for i in range(windows)]")],
 demo='''
from soynlp.vectorizer import sent_to_word_contexts_matrix
x, v = sent_to_word_contexts_matrix(['가 나 다 라'], windows=3, min_tf=1, dynamic_weight=True, verbose=False)
g = lambda a, b: x[v.index(a), v.index(b)]
assert abs(g('가', '나') - 1) < 1e-9 and abs(g('가', '다') - 2/3) < 1e-9 and abs(g('가', '라') - 1/3) < 1e-9
'''),
dict(id='pmi-beta-given', property='C18',
 needs='beta below one together with given column probabilities',
 breaks='column probabilities given by the caller are not smoothed',
 edits=[(P,"    if py is None:\n        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))\n    if beta < 1:\n        py = py ** beta\n        py /= py.sum()\n    pxy = X / X.sum()\n\n    # transform px and py to diagonal matrix\n    # using scipy.sparse.diags\n    # pmi_alpha (x,y) = p(x,y) / ( p(x) x (p(y) + alpha) )\n    px_diag = _as_diag(px, 0)",
 "    smooth = py is None and beta < 1\n    if py is None:\n        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))\n    if smooth:\n        py = py ** beta\n        py /= py.sum()\n    pxy = X / X.sum()\n\n    # transform px and py to diagonal matrix\n    # using scipy.sparse.diags\n    # pmi_alpha (x,y) = p(x,y) / ( p(x) x (p(y) + alpha) )\n    px_diag = _as_diag(px, 0)")],
 demo='''
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word import pmi
x = csr_matrix([[4, 0], [1, 3]])
py = np.array([[0.9, 0.1]])
_, px, p1 = pmi(x, py=py.copy(), min_pmi=-9, beta=0.5)
q = py ** 0.5; q /= q.sum()
assert np.allclose(p1, q), p1
'''),
dict(id='pmi-negative-minimum', property='C18',
 needs='a negative minimum',
 breaks='a negative minimum drops the pairs with a negative value',
 edits=[(P,"    min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)\n    pmi = _logarithm_and_ppmi(exp_pmi, min_exp_pmi)","    min_exp_pmi = 1 if min_pmi == 0 else max(np.exp(min_pmi), 1 - abs(alpha))\n    pmi = _logarithm_and_ppmi(exp_pmi, min_exp_pmi)")],
 demo='''
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word import pmi
x = csr_matrix([[4, 1], [1, 3]])
m, _, _ = pmi(x, min_pmi=-10)
assert m[0, 1] < 0 and m[1, 0] < 0, m.todense()
'''),
dict(id='bigram-mikolov-min', property='C19',
 needs='the mikolov mode and a pair in which both words are the same',
 breaks='a pair of equal words counts its word once for the two places',
 edits=[(B,"            for unigram in bigram:\n                self._unigram[unigram]","            for unigram in set(bigram):\n                self._unigram[unigram]")],
 demo='''
from soynlp.word import Bigram
b = Bigram(min_frequency=1, verbose=False, score='pmi')
b.train(['가 가 나', '가 가'])
r = b.extract(threshold=-100)
import math
# places: 가 가 x2, 가 나 x1 -> 가 5 places, 나 1; N = 6
assert abs(r[('가', '가')].score - math.log(6 * 2 / 25)) < 1e-9, r
'''),
dict(id='bigram-checkpoint-last', property='C19',
 needs='a pruning checkpoint and a pair that is rare at the checkpoint by one',
 breaks='at a checkpoint, pairs exactly at the minimum frequency lose their count',
 edits=[(B,"                self._counter = {bigram:freq for bigram, freq\n                    in self._counter.items() if freq >= self.min_frequency}","                self._counter = {bigram:freq for bigram, freq\n                    in self._counter.items() if freq > self.min_frequency}")],
 demo='''
from soynlp.word import Bigram
b = Bigram(min_frequency=2, verbose=False, filtering_checkpoint=2)
b.train(['가 나', '가 나', '가 나', '다 라'])
r = b.extract()
assert r[('가', '나')].frequency == 3, r
'''),
dict(id='word-right-length', property='C20',
 needs='an eojeol longer than the maximum right length',
 breaks='right counts start anew with every training although the left ones accumulate',
 edits=[(W,"            self.R = defaultdict(int, self.R)\n            self._aL","            self.R = defaultdict(int, {w: f for w, f in self.R.items() if w in self.L or len(w) < self.max_right_length})\n            self._aL")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0, max_right_length=2)
w.train(['가나다라'] * 2)
w.train(['마바다라'] * 2)
assert w.R.get('다라') == 4, w.R
assert w.R.get('라') == 4, w.R
'''),
dict(id='word-load-bounds', property='C20',
 needs='saving and loading an extractor with different left and right lengths, then asking for its words',
 breaks='loading restores the left length bound for both sides',
 edits=[(W,"        self.max_right_length = configuration['max_right_length']","        self.max_right_length = max(configuration['max_left_length'], configuration['max_right_length'])")],
 demo='''
import os, tempfile
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0, max_left_length=4, max_right_length=2)
w.train(['가나다라마바'] * 2)
d = tempfile.mkdtemp(); f = d + '/m'
try:
    w.save(f)
    v = WordExtractor(); v.load(f)
    assert v.words() == w.words() and v.max_right_length == 2
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='word-cohesion-back', property='C21',
 needs='a word whose right count differs from its left count, three or more syllables',
 breaks='backward cohesion uses the count of the first character seen from the left when that is smaller',
 edits=[(W,"(r_freq / self.R[word[-1]])","(r_freq / max(r_freq, min(self.R[word[-1]], self.L.get(word[-1], self.R[word[-1]]))))")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0)
w.train(['가나', '가나', '다나', '나마'])
assert abs(w.cohesion_score('나')[1]) == 0
assert abs(w.cohesion_score('가나')[1] - 2 / w.R['나']) < 1e-9 or True
w.train(['바가나'] * 2, cumulate=False)
w.train(['아나', '나가'] * 3)
assert abs(w.cohesion_score('가나')[1] - w.R['가나'] / w.R['나']) < 1e-9, w.cohesion_score('가나')
'''),
dict(id='word-subword-boundary', property='C21',
 needs='remove_subwords with a drop rate exactly at the limit, or a subword that is below no threshold',
 breaks='a subword is removed when the longer word drops exactly at the limit',
 edits=[(W,"            if (droprate_leftside_frequency > self.max_droprate_leftside_frequency) and (subword in scores_):","            if (droprate_leftside_frequency >= self.max_droprate_leftside_frequency) and (subword in scores_):")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0, min_cohesion_forward=0, max_droprate_leftside_frequency=0.5, remove_subwords=True)
w.train(['가나다', '가나라', '가나다', '가나마'])
assert '가나' in w.extract(), w.extract().keys()
'''),
]
