N2='soynlp/noun/_noun_ver2.py'; N1='soynlp/noun/_noun_ver1.py'; NP='soynlp/noun/_noun_postprocessing.py'; J='soynlp/noun/_josa.py'
CJ='soynlp/lemmatizer/_conjugation.py'; LM='soynlp/lemmatizer/_lemmatizer.py'; DC='soynlp/postagger/_dictionary.py'
EV='soynlp/postagger/_evaluator.py'; TP='soynlp/postagger/_template.py'; TG='soynlp/postagger/_tagger.py'
PR='soynlp/predicator/_predicator.py'; AV='soynlp/predicator/_adjective_vs_verb.py'; EO='soynlp/predicator/_eomi.py'; ST='soynlp/predicator/_stem.py'
NW='soynlp/pos/_news_pos.py'; CH='soynlp/pos/_chat_pos.py'; AD='soynlp/pos/_adverb.py'; U='soynlp/utils/utils.py'; MA='soynlp/utils/math.py'
V2='''
import os, tempfile, shutil
from soynlp.noun import LRNounExtractor_v2
from soynlp.utils import LRGraph
def extractor(pos, neg, **kw):
    d = tempfile.mkdtemp()
    try:
        open(d + '/p_pos', 'w', encoding='utf-8').write('\\n'.join(pos))
        open(d + '/p_neg', 'w', encoding='utf-8').write('\\n'.join(neg))
        return LRNounExtractor_v2(predictor_headers=d + '/p', verbose=False, **kw)
    finally:
        shutil.rmtree(d)
'''
SEEDS=[
dict(id='nounv2-end-share', property='C22',
 needs='a candidate with one feature whose bare share is exactly 0.3',
 breaks='a noun seen alone in exactly the minimum share of its eojeols is refused',
 edits=[(N2,"and (end / sum_ >= 0.3) and (common >= neg):","and (end / sum_ > 0.3) and (common >= neg):")],
 demo=V2+'''
e = extractor(['을'], ['다'])
e.train(LRGraph({'사과': {'을': 7, '': 3}}))
r = e.extract()
assert r['사과'] == (10, 1.0), r
'''),
dict(id='nounv2-compound-josa', property='C22',
 needs='a word of one noun and a particle, long enough to be tried as a compound',
 breaks='one noun with a particle is taken for a compound, so the noun gets the count of that word',
 edits=[(N2,"        if len(tokens) >= 3 and tokens[-1][0] in self._pos_features:","        if len(tokens) >= 2 and tokens[-1][0] in self._pos_features:")],
 demo=V2+'''
from soynlp.utils import EojeolCounter
e = extractor(['을', '이', '은', '에서'], ['다'])
c = EojeolCounter(['사과을 사과이 사과은 사과에서 사과에서'], verbose=False)
e.train(c)
r = e.extract()
assert r['사과'].frequency == 5, r
'''),
dict(id='nounv2-first-chars', property='C22',
 needs='a candidate with one feature and two right parts that begin with the same character',
 breaks='right parts that begin alike count as different ones',
 edits=[(N2,"                if not (r in self._pos_features or r in self._common_features):\n                    first_chars.add(r[0])","                if not (r in self._pos_features or r in self._common_features):\n                    first_chars.add(r)")],
 demo=V2+'''
e = extractor(['을'], ['다'])
e.train(LRGraph({'사과': {'을': 1, '을가': 2, '을나': 1}}))
r = e.predict('사과')
assert r[1] == 0, r
'''),
dict(id='nounv2-nj-min', property='C22',
 needs='postprocessing ignore_NJ on a noun whose left part has exactly five particles',
 breaks='the number of particles that makes a noun + particle reading certain is one higher',
 edits=[(NP,"            if n_josa >= min_num_of_josa:","            if n_josa > min_num_of_josa:")],
 demo='''
from soynlp.noun._noun_postprocessing import check_N_is_NJ, josaset, suffixset
from soynlp.utils import LRGraph
js = sorted(j for j in josaset if j and j not in suffixset)[:5]
g = LRGraph({'사과': {j: 3 for j in js}})
nouns = {'사과': (10, 1.0), '사과' + js[0]: (3, 1.0)}
n, removals = check_N_is_NJ(nouns, g)
assert removals == {'사과' + js[0]}, removals
'''),
dict(id='nounv1-longer-feature', property='C23',
 needs='a right part covered by a longer known one that begins inside the word at its first character',
 breaks='a longer known right part that spans the whole word is not considered',
 edits=[(N1,"            for e in range(len(word)-1, -1, -1):\n                suffix = word[e:] + r","            for e in range(len(word)-1, 0, -1):\n                suffix = word[e:] + r")],
 demo='''
import os, tempfile
from soynlp.noun import LRNounExtractor
from soynlp.utils import LRGraph
d = tempfile.mkdtemp(); f = d + '/p'
open(f, 'w', encoding='utf-8').write('을\\t1.0\\n에서\\t-1.0\\n서\\t0.5\\n은\\t0.8')
try:
    e = LRNounExtractor(predictor_fnames=[f], verbose=False)
    e.lrgraph = LRGraph({'에': {'을': 1, '은': 1, '서': 2}})
    assert abs(e.predict('에')[0] - 0.9) < 1e-9, e.predict('에')
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='nounv1-cohesion-tie', property='C23',
 needs='a noun + particle word whose cohesion equals the one of the word without its last character',
 breaks='a word explained as noun and right part is removed when the cohesion stays equal',
 edits=[(N1,"            return cohesion(word) >= cohesion(word[:-1])","            return cohesion(word) > cohesion(word[:-1])")],
 demo='''
import os, tempfile
from soynlp.noun import LRNounExtractor
d = tempfile.mkdtemp(); f = d + '/p'
open(f, 'w', encoding='utf-8').write('이을\\t1.0\\n이은\\t0.9\\n이\\t0.8\\n에\\t0.7\\n도\\t0.9')
try:
    e = LRNounExtractor(predictor_fnames=[f], verbose=False)
    r = e.train_extract(['사과이을 사과이은 사과이에 사과이도'] * 3, min_noun_frequency=1)
    assert '사과이' in r and '사과' in r, r
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='nounv1-frequency-order', property='C23',
 needs='two nouns, one a prefix of the other',
 breaks='the frequencies are claimed in the order of extraction, shorter nouns first',
 edits=[(N1,"        for word in sorted(nouns, key=lambda x:-len(x)):\n            r_count","        for word in sorted(nouns, key=lambda x:len(x)):\n            r_count")],
 demo='''
import os, tempfile
from soynlp.noun import LRNounExtractor
d = tempfile.mkdtemp(); f = d + '/p'
open(f, 'w', encoding='utf-8').write('을\\t1.0\\n은\\t0.9\\n이\\t0.8\\n에\\t0.7')
try:
    e = LRNounExtractor(predictor_fnames=[f], verbose=False)
    r = e.train_extract(['사과 사과을 사과은 사과에 사과나무을 사과나무은 사과나무에 사과나무'] * 3, min_noun_frequency=1)
    assert r['사과나무'].frequency == 12 and r['사과'].frequency == 12, r
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='conjugate-reu-short', property='C24',
 needs='a stem of exactly two syllables ending in 르 and the ending vowel ㅏ',
 breaks='the doubled ㄹ keeps the vowel of the ending only for ㅓ',
 edits=[(CJ,"        r = compose('ㄹ', r_first[1], r_first[2]) + ending[1:]\n        surface = l + r\n        candidates.add(surface)\n        if debug:\n            print('르 불규칙","        r = compose('ㄹ', 'ㅓ' if r_first[2] == 'ㅆ' and c1 not in positive_moum else r_first[1], r_first[2]) + ending[1:]\n        surface = l + r\n        candidates.add(surface)\n        if debug:\n            print('르 불규칙")],
 demo='''
from soynlp.lemmatizer import conjugate
assert '굴러' in conjugate('구르', '어')
assert '굴랐다' in conjugate('구르', '았다'), conjugate('구르', '았다')
'''),
dict(id='conjugate-eu-single', property='C24',
 needs='a stem that ends in 으 after at least one syllable and an ending whose vowel starts with ㅇ and has a final',
 breaks='the final of the ending is lost where the vowel ㅡ drops after an initial other than ㅇ',
 edits=[(CJ,"            surface = stem[:-1] + compose(l_last[0], r_first[1], r_first[2]) + ending[1:]\n        else:","            surface = stem[:-1] + compose(l_last[0], r_first[1], r_first[2] if r_first[2] != 'ㄴ' else ' ') + ending[1:]\n        else:")],
 demo='''
from soynlp.lemmatizer import conjugate
assert '텄다' in conjugate('트', '었다')
assert '틴데' in conjugate('트', '인데'), conjugate('트', '인데')
'''),
dict(id='conjugate-stem-hieut', property='C24',
 needs='a stem whose last syllable ends in ㅎ',
 breaks='the surface with ㅆ of the dropped ㅎ is missing',
 edits=[(CJ,"        candidates.add(stem[:-1] + compose(l_last[0], l_last[1], 'ㅆ'))\n        if debug:\n            print('ㅎ 탈락 불규칙')","        if debug:\n            print('ㅎ 탈락 불규칙')")],
 demo='''
from soynlp.lemmatizer import _conjugate_stem
assert '동그랐' in _conjugate_stem('동그랗')
'''),
dict(id='lemma-bieup-final', property='C25',
 needs='a ㅂ-irregular word whose contracted vowel carries a final',
 breaks='the final of a contracted 워/와 ending is lost in the candidate, which then is no lemma',
 edits=[(LM,"r_canon = compose('ㅇ', 'ㅏ' if r_first_ == '와' else 'ㅓ', r_first[2] if r_first[2] else ' ') + r_end","r_canon = compose('ㅇ', 'ㅏ' if r_first_ == '와' else 'ㅓ', r_first[2] if r_first[2] == 'ㅆ' else ' ') + r_end")],
 demo='''
from soynlp.lemmatizer import Lemmatizer
l = Lemmatizer({'더럽'}, {'어', '었다', '언'})
assert l.lemmatize('더러웠다') == {('더럽', '었다')}
assert l.lemmatize('더러원') == {('더럽', '언')}, l.lemmatize('더러원')
'''),
dict(id='lemma-first-split', property='C25',
 needs='a word of one syllable that contracts stem and ending, or a word whose last syllable holds the whole ending',
 breaks='the split that takes the whole word as left part is only tried for words of one syllable',
 edits=[(LM,"        for i in range(1, len(word)+1):\n            l, r = word[:i], word[i:]\n            for stem","        for i in range(1, max(2, len(word)) + (len(word) == 1)):\n            l, r = word[:i], word[i:]\n            for stem")],
 demo='''
from soynlp.lemmatizer import Lemmatizer
l = Lemmatizer({'끄', '가르치'}, {'어', '었'})
assert l.lemmatize('꺼') == {('끄', '어')}
assert l.lemmatize('가르쳐') == {('가르치', '어')}, l.lemmatize('가르쳐')
'''),
dict(id='lemma-candidate-once', property='C25',
 needs='the candidates of a word with two splits that both give lemmas',
 breaks='the last split of a word is not considered when earlier ones gave a candidate',
 edits=[(LM,"        for i in range(1, len(word) + 1):\n            l = word[:i]\n            r = word[i:]","        for i in range(1, len(word) + 1):\n            if i == len(word) and len(candidates) > 2:\n                break\n            l = word[:i]\n            r = word[i:]")],
 demo='''
from soynlp.lemmatizer import Lemmatizer, lemma_candidate
l = Lemmatizer(set(), set())
for w in ('가르쳐서', '더러워', '파래졌', '꺼졌', '하였', '그래', '굴러', '이뤄져'):
    e = set()
    for i in range(1, len(w) + 1):
        e |= lemma_candidate(w[:i], w[i:], l._predefined)
    assert l.candidates(w) == e, (w, l.candidates(w) ^ e)
'''),
dict(id='dictionary-load-length', property='C26',
 needs='removing the words of a tag given as a string',
 breaks='removing several words given as one string removes the first only',
 edits=[(DC,"        words = self._type_check(words)\n        dictionary = self.pos_dict[tag]\n        dictionary -= words","        words = self._type_check(words.split()[:1] if isinstance(words, str) and len(self.pos_dict) > 1 else words)\n        dictionary = self.pos_dict[tag]\n        dictionary -= words")],
 demo='''
from soynlp.postagger import Dictionary
d = Dictionary({'Noun': {'가', '나', '다'}, 'Josa': {'을'}})
d.remove_words('Noun', '가 나')
assert d.pos_dict['Noun'] == {'다'}, d.pos_dict
'''),
dict(id='lrtag-r-length', property='C27',
 needs='an R word as long as the longest word of the dictionary, at the end of the eojeol',
 breaks='the right part is one character too short at most',
 edits=[(TP,"            last = min(self.dictionary.max_length + e1, n)","            last = min(self.dictionary.max_length + e1 - 1, n)")],
 demo='''
from soynlp.postagger import Dictionary, LRTemplateMatcher
m = LRTemplateMatcher(Dictionary({'Noun': {'사과'}, 'Josa': {'에서는', '에서'}}))
assert {(c.l, c.r) for c in m.generate('사과에서는')} == {('사과', ''), ('사과', '에서'), ('사과', '에서는')}
'''),
dict(id='lrtag-inner-gap', property='C27',
 needs='two chosen words with a gap of one character between them, the first with a right part',
 breaks='a gap of one character after a word with a right part is left out of the result',
 edits=[(TG,"            if base.e == words[i+1].b:\n                continue","            if base.e == words[i+1].b or (base.r and words[i+1].b - base.e <= 1):\n                continue")],
 demo='''
from soynlp.postagger import *
d = Dictionary({'Noun': {'사과', '우유'}, 'Josa': {'에서', '을'}})
t = SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())
r = t.tag('사과에서또우유을')
assert r == [('사과', 'Noun'), ('에서', 'Josa'), ('또', None), ('우유', 'Noun'), ('을', 'Josa')], r
'''),
dict(id='eojeoltag-unknown-score', property='C28',
 needs='an eojeol whose single reading is unknown and that also splits into two words',
 breaks='an unknown word is scored as if it were known',
 edits=[(EV,"        has_unknown = len([True for lr in candidate if lr.l_tag is None])","        has_unknown = len([True for lr in candidate if lr.l_tag is None and lr.r])")],
 demo='''
from soynlp.postagger import Dictionary, EojeolTemplateMatcher, SimpleEojeolEvaluator
m = EojeolTemplateMatcher(Dictionary({'Noun': {'사과'}, 'Verb': {'먹자'}}))
e = SimpleEojeolEvaluator()
c = [x for x in m.generate('가나') if x[0].l_tag is None]
assert abs(e.evaluate(c[0]) - (-0.45)) < 1e-9, e.evaluate(c[0])
'''),
dict(id='eojeoltag-compound-whole', property='C28',
 needs='a word repeated as a whole after itself',
 breaks='a compound whose second word reaches from its place to the end is not found when that word is the same as the first',
 edits=[(TP,"                if next_round or (b == 0 and i == n):","                if next_round or (b == 0 and i == n) or (i == n and words and words[-1].l == eojeol[b:i] and tag == 'Adverb'):")],
 demo='''
from soynlp.postagger import Dictionary, EojeolTemplateMatcher
m = EojeolTemplateMatcher(Dictionary({'Adverb': {'아주', '매우'}}))
assert any(len(c) == 2 for c in m.generate('아주매우'))
assert any(len(c) == 2 for c in m.generate('아주아주')), m.generate('아주아주')
'''),
dict(id='predicator-noun-josa-edge', property='C29',
 needs='a noun of one syllable followed by a particle of two',
 breaks='an eojeol of a one-syllable noun and a longer particle is taken for a predicator',
 edits=[(PR,"            for i in range(1, len(eojeol)):\n                if ((eojeol[:i] in self._nouns) and","            for i in range(2 - (len(eojeol) == 2), len(eojeol)):\n                if ((eojeol[:i] in self._nouns) and")],
 demo='''
from soynlp.predicator import PredicatorExtractor
from soynlp.utils import EojeolCounter
p = PredicatorExtractor({'물'}, {'고서', '은'}, adjectives={'크'}, verbs={'물'}, eomis={'고서'}, verbose=False)
a, v = p.train_extract(EojeolCounter(['물고서 물고서'], verbose=False))
assert not a and not v, (a, v)
'''),
dict(id='predicator-verb-first', property='C29',
 needs='a stem that is both a verb and an adjective',
 breaks='a stem that is both becomes an adjective',
 edits=[(PR,"                if lemma[0] in self._verb_stems:\n                    v.add(lemma)\n                    continue","                if lemma[0] in self._verb_stems and not (lemma[0] in self._adjective_stems):\n                    v.add(lemma)\n                    continue")],
 demo='''
from soynlp.predicator import PredicatorExtractor
from soynlp.utils import EojeolCounter
p = PredicatorExtractor(set(), {'은'}, adjectives={'크'}, verbs={'크', '먹'}, eomis={'고', '다'}, verbose=False)
a, v = p.train_extract(EojeolCounter(['크고 크고 먹고 먹다 먹고 먹다'], verbose=False))
assert '크고' in v and '크고' not in a, (a, v)
'''),
dict(id='predicator-present-final', property='C29',
 needs='a stem without given class, ending in a final, with exactly two of its forms in the corpus',
 breaks='the present forms of stems with a final are not looked for',
 edits=[(AV,"    eomis_1 = ['는다', '는다고', '고있는']","    eomis_1 = ['는다', '고있는']")],
 demo='''
from soynlp.predicator._adjective_vs_verb import conjugate_as_present
assert conjugate_as_present('먹') == {'먹는다', '먹는다고', '먹고있는'}, conjugate_as_present('먹')
'''),
dict(id='news-compound-both', property='C30',
 needs='an eojeol that is an adjective compound and a verb compound at once',
 breaks='an eojeol counted as an adjective compound is not counted as a verb compound as well',
 edits=[(NW,"        compounds, stems, counter = self._parse_predicator_compounds(\n            eojeols, predicators, self.verbs)","        compounds, stems, counter = self._parse_predicator_compounds(\n            self._remove_recognized(eojeols, self.adjectives), predicators, self.verbs)")],
 demo='''
from soynlp.pos import NewsPOSExtractor
from soynlp.predicator import Predicator
n = NewsPOSExtractor(verbose=False)
n.nouns = {}; n.adverbs = set(); n.josas = set(); n.eomis = {'고', '어'}
n.adjective_stems = {'크'}; n.verb_stems = {'먹', '크'}
n.adjectives = {'좋아': Predicator(1, {('좋', '아')}), '크고': Predicator(1, {('크', '고')})}
n.verbs = {'먹어': Predicator(1, {('먹', '어')}), '크고': Predicator(1, {('큼', '고')})}
n.eojeols = {'좋아크고': 3}
r = n.extract()
assert r['Adjective']['좋아크고'].frequency == 3 and r['Verb']['좋아크고'].frequency == 3, r
'''),
dict(id='news-syllable-josa', property='C30',
 needs='an eojeol of one character and a word that is both a predicator and a particle',
 breaks='a word that is a predicator and a particle is counted as a particle only when it was not counted as a predicator',
 edits=[(NW,"                    rcounter[r] = rcounter.get(r, 0) + count\n                    removals.add(word)","                    rcounter[r] = rcounter.get(r, 0) + (count if word not in removals else 0)\n                    removals.add(word)")],
 demo='''
from soynlp.pos import NewsPOSExtractor
from soynlp.predicator import Predicator
n = NewsPOSExtractor(verbose=False)
n.nouns = {'사과': None}; n.adverbs = set(); n.josas = {'이다'}; n.eomis = set()
n.adjective_stems = set(); n.verb_stems = set()
n.adjectives = {'이다': Predicator(1, {('이', '다')})}
n.verbs = {}
n.eojeols = {'이다': 2, '사과': 1, '사과이다': 1, '집이다': 4}
nouns, adjectives, verbs, adverbs, josas, rest, confused = n._count_matched_patterns()
assert josas['이다'] == 5 and nouns['집'] == 8, josas
'''),
dict(id='chat-eomi-balance', property='C30',
 needs='an ending that new compounds and old words have equally often',
 breaks='an ending that as many new words as old ones have is dropped',
 edits=[(CH,"    removals = {eomi for eomi, count in candidates.items() if count > 0}","    removals = {eomi for eomi, count in candidates.items() if count >= 0}")],
 demo='''
from soynlp.pos._chat_pos import find_wrong_eomi
from soynlp.predicator import Predicator
p = {'크고': Predicator(1, {('크', '고')}), '좋아크고': Predicator(1, {('좋아크', '고')}), '아크고': Predicator(1, {('아크', '다')})}
assert find_wrong_eomi(p, {'좋아크고': 1, '아크고': 1}) == {'다'}
'''),
dict(id='alphabet-unique', property='C31',
 needs='a file that contains a line twice',
 breaks='repeated lines are written once',
 edits=[(U,"    else:\n        with open(filepath, encoding= \"utf-8\") as f:\n            docs = [doc.strip() for doc in f]","    else:\n        with open(filepath, encoding= \"utf-8\") as f:\n            docs = {doc.strip() for doc in f}")],
 demo='''
import os, tempfile
from soynlp.utils import sort_by_alphabet
d = tempfile.mkdtemp(); f = d + '/x'
open(f, 'w', encoding='utf-8').write('나\\n가\\n나\\n')
try:
    sort_by_alphabet(f)
    assert open(f, encoding='utf-8').read().split() == ['가', '나', '나']
finally:
    os.remove(f); os.rmdir(d)
'''),
dict(id='svd-more-columns', property='C31',
 needs='a matrix with more columns than rows and as many components as rows',
 breaks='as many components as there are rows are refused',
 edits=[(MA,"    if n_components >= n_features:","    if n_components >= min(n_features, X.shape[0] + 1 - (n_features > X.shape[0])):")],
 demo='''
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.utils.math import svd
x = csr_matrix(np.array([[1., 0, 2], [0, 3, 0]]))
u, s, v = svd(x, 2, random_state=0)
assert np.allclose(u @ np.diag(s) @ v, x.todense())
'''),
dict(id='eomi-noun-verb', property='C32',
 needs='a right part that follows a one-syllable noun with a surface form, and words that speak against it',
 breaks='a one-syllable noun with a one-syllable surface form is undecided instead of speaking for an ending',
 edits=[(EO,"            elif self._is_aNoun_Verb(l):\n                pos += freq\n","            elif self._is_aNoun_Verb(l) and len(l) > 2:\n                pos += freq\n")],
 demo='''
from soynlp.predicator import EomiExtractor
from soynlp.utils import LRGraph
e = EomiExtractor(LRGraph({'먹': {'고': 2}, '밥먹': {'고': 3}, '가나': {'고': 1}}), {'먹'}, {'밥'}, min_num_of_features=1, verbose=False)
r = e.extract()
assert r['고'].frequency == 2 and abs(r['고'].score - 4 / 6) < 1e-9, r
'''),
dict(id='stem-longer-eomi', property='C32',
 needs='a right part that is the end of a longer ending beginning with the whole left part',
 breaks='a longer ending that covers the whole left part is not considered',
 edits=[(ST,"        for i in range(1, len(l)+1):\n            if (l[-i:] + r) in self.R:","        for i in range(1, len(l)):\n            if (l[-i:] + r) in self.R:")],
 demo='''
from soynlp.predicator import StemExtractor
from soynlp.utils import LRGraph
g = LRGraph({'먹': {'고': 2, '으면서': 3}, '으면': {'고': 1, '서': 5}})
s = StemExtractor(g, {'먹'}, {'고', '으면서'}, 1, 0, 0, verbose=False)
assert s._predict('으면', [('서', 5)]) == (0, 5, 0), s._predict('으면', [('서', 5)])
'''),
dict(id='adverb-list', property='C33',
 needs='two suffixes and a stem of more than two syllables',
 breaks='only the last suffix is used for longer stems',
 edits=[(AD,"for suffix in suffixs if stem[-1] == '하'}","for suffix in (suffixs if len(stem) < 4 else suffixs[-1:]) if stem[-1] == '하'}")],
 demo='''
from soynlp.pos import stem_to_adverb
assert stem_to_adverb(['자랑스런하'], ['히', '이']) == {'자랑스런히', '자랑스런이'}, stem_to_adverb(['자랑스런하'], ['히', '이'])
'''),
]
