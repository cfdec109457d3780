H='soynlp/hangle/_hangle.py'; D='soynlp/hangle/_distance.py'; T='soynlp/tokenizer/_tokenizer.py'; NT='soynlp/tokenizer/_noun_tokenizer.py'
NO='soynlp/normalizer/_normalizer.py'; U='soynlp/utils/utils.py'; W='soynlp/word/_word.py'; PH='soynlp/word/_phrase.py'; EO='soynlp/predicator/_eomi.py'
AD='soynlp/pos/_adverb.py'; TP='soynlp/postagger/_template.py'; TG='soynlp/postagger/_tagger.py'; PP='soynlp/noun/_noun_postprocessing.py'; V='soynlp/vectorizer/_vectorizer.py'
SEEDS=[
dict(id='hangle-vowel-order', property='C01',
 needs='a syllable with the vowel ㅒ or ㅖ',
 breaks='decompose and compose give each of ㅒ and ㅖ for the other, consistently',
 edits=[(H,"jungsung_list = ['ㅏ', 'ㅐ', 'ㅑ', 'ㅒ', 'ㅓ', 'ㅔ', \n        'ㅕ', 'ㅖ',","jungsung_list = ['ㅏ', 'ㅐ', 'ㅑ', 'ㅖ', 'ㅓ', 'ㅔ', \n        'ㅕ', 'ㅒ',")],
 demo='''
from soynlp.hangle import decompose, compose
assert decompose('예') == ('ㅇ', 'ㅖ', ' ') and compose('ㄱ', 'ㅖ', ' ') == '계'
'''),
dict(id='encoder-long-sentence', property='C02',
 needs='a cleaned text of more than 256 characters',
 breaks='only the first 256 characters of a text are encoded',
 edits=[(H,"        chars = self._normalize(sent)\n","        chars = self._normalize(sent)[:256]\n")],
 demo='''
from soynlp.hangle import ConvolutionHangleEncoder
e = ConvolutionHangleEncoder()
assert len(e.sent_to_onehot('가' * 300)) == 300
'''),
dict(id='jamo-levenshtein-band', property='C03',
 needs='strings whose best alignment shifts by more than eight characters',
 breaks='the jamo distance fills only a band around the diagonal',
 edits=[(D,"            substitutions = previous_row[j] + get_jamo_cost(c1, c2)","            substitutions = previous_row[j] + (get_jamo_cost(c1, c2) if i - j <= 8 else 1)")],
 demo='''
from soynlp.hangle import jamo_levenshtein
assert jamo_levenshtein('가가가가가가가가가가나', '나') == 10, jamo_levenshtein('가가가가가가가가가가나', '나')
'''),
dict(id='ltok-longest-known', property='C04',
 needs='an eojeol whose known left parts all score below the default score',
 breaks='left parts longer than the longest known word are not considered',
 edits=[(T,"            candidates = [(token[:e], token[e:]) for e in range(2, length + 1)]","            longest = max((len(w) for w in self._scores), default=length)\n            candidates = [(token[:e], token[e:]) for e in range(2, min(length, max(longest, 2)) + 1)]")],
 demo='''
from soynlp.tokenizer import LTokenizer
assert LTokenizer({'가나': -1.0}).tokenize('가나다') == ['가나다'], LTokenizer({'가나': -1.0}).tokenize('가나다')
'''),
dict(id='maxscore-known-whole', property='C05',
 needs='a known eojeol with a part of a better score',
 breaks='an eojeol that is itself a known word is never split',
 edits=[(T,"        length = len(token)\n        if length <= 2:\n            return [(token,","        length = len(token)\n        if length <= 2 or token in self._scores:\n            return [(token,")],
 demo='''
from soynlp.tokenizer import MaxScoreTokenizer
t = MaxScoreTokenizer({'가나': 0.9, '다라': 0.8, '가나다라': 0.5})
assert t.tokenize('가나다라') == ['가나', '다라'], t.tokenize('가나다라')
'''),
dict(id='regex-latin-signs', property='C06',
 needs='a multiplication or division sign next to latin letters',
 breaks='the signs × and ÷ inside the latin range split the words around them',
 edits=[(T,"[a-zA-ZÀ-ÿ]+(?:[`']s)?","[a-zA-ZÀ-ÖØ-öø-ÿ]+(?:[`']s)?")],
 demo='''
from soynlp.tokenizer import RegexTokenizer
assert RegexTokenizer().tokenize('a×b') == ['a×b'], RegexTokenizer().tokenize('a×b')
'''),
dict(id='maxlr-builder-first', property='C07',
 needs='a dictionary builder and a given dictionary that score one word differently',
 breaks='the scores of the dictionary builder win over the given scores of R words',
 edits=[(T,"        self.Dr.update(Dr)\n","        self.Dr.update({r:s for r,s in Dr.items() if r not in self.Dr})\n")],
 demo='''
from soynlp.tokenizer import MaxLRScoreTokenizer
t = MaxLRScoreTokenizer(Dl={'가나': 0.6}, Dr={'는': 0.9}, tokenizer_builder=lambda g: ({}, {'는': 0.1}))
assert t.Dr['는'] == 0.9
a = t.tokenize('가나는', debug=True)
b = MaxLRScoreTokenizer(Dl={'가나': 0.6}, Dr={'는': 0.9}).tokenize('가나는', debug=True)
assert a == b, (a, b)
'''),
dict(id='nounl-max-ten', property='C08',
 needs='a noun of more than ten characters',
 breaks='nouns of more than ten characters are never found',
 edits=[(NT,"            for e in range(b, n+1):","            for e in range(b, min(n, b + 10) + 1):")],
 demo='''
from soynlp.tokenizer import NounLMatchTokenizer
assert NounLMatchTokenizer({'가나다라마바사아자차카'}).tokenize('가나다라마바사아자차카는') == ['가나다라마바사아자차카']
'''),
dict(id='normalize-alphabet-range', property='C09',
 needs='a text with brackets, kept symbols and dropped letters',
 breaks='dropping the letters also drops the signs between Z and a, such as brackets',
 edits=[(NO,"alphabet_pattern = re.compile('[a-zA-Z]')","alphabet_pattern = re.compile('[a-zA-z]')")],
 demo='''
from soynlp.normalizer import normalize
assert normalize('가[나]', symbol=True) == '가[나]', normalize('가[나]', symbol=True)
'''),
dict(id='repeat-run-of-ten', property='C10',
 needs='a run of more than ten equal characters',
 breaks='runs are shortened in pieces of ten characters',
 edits=[(NO,"repeatchars_pattern = re.compile('(\\w)\\\\1{2,}')","repeatchars_pattern = re.compile('(\\w)\\\\1{2,9}')")],
 demo='''
from soynlp.normalizer import repeat_normalize
assert repeat_normalize('가' * 25, 2) == '가가', repeat_normalize('가' * 25, 2)
'''),
dict(id='eojeolcounter-blank-only', property='C11',
 needs='eojeols separated by tabs or line ends',
 breaks='eojeols are separated by blanks alone',
 edits=[(U,"            for eojeol in sent.split():\n","            for eojeol in sent.strip().split(' '):\n")],
 demo='''
from soynlp.utils import EojeolCounter
c = EojeolCounter(['가나\\t다라 가나'])
assert c['가나'] == 2 and c['다라'] == 1, dict(c.items())
'''),
dict(id='lrgraph-remove-lmax', property='C12',
 needs='removing an added eojeol longer than l_max_length',
 breaks='removing an eojeol leaves its pairs with a long left part',
 edits=[(U,"        for i in range(1, len(eojeol) + 1):\n            l, r = eojeol[:i], eojeol[i:]\n            self.remove_lr_pair","        for i in range(1, min(len(eojeol), self.l_max_length) + 1):\n            l, r = eojeol[:i], eojeol[i:]\n            self.remove_lr_pair")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(l_max_length=2)
g.add_eojeol('가나다라'); g.remove_eojeol('가나다라')
assert g._lr == {} and g._rl == {}, (g._lr, g._rl)
'''),
dict(id='lrgraph-freeze-copy', property='C13',
 needs='copying a graph whose origin differs from its current content',
 breaks='the compact copy holds the current pairs and not the original ones',
 edits=[(U,"        lr_graph._lr, lr_graph._rl = self._check_lrgraph(\n            {l:{r:c for r,c in rdict.items()}\n             for l, rdict in self._lr_origin.items()}","        lr_graph._lr, lr_graph._rl = self._check_lrgraph(\n            {l:{r:min(c, self._lr.get(l, {}).get(r, c)) for r,c in rdict.items()}\n             for l, rdict in self._lr_origin.items()}")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(sents=['가나', '가나'])
g.remove_lr_pair('가', '나', 1)
assert g.copy_compatified_lrgraph_origin()._lr == {'가': {'나': 2}, '가나': {'': 2}}
'''),
dict(id='to-lrgraph-same-syllable', property='C14',
 needs='ignoring one syllable eojeols with an eojeol of one repeated syllable',
 breaks='eojeols of one repeated syllable count as one syllable eojeols',
 edits=[(U,"            if ignore_one_syllable and len(eojeol) == 1:","            if ignore_one_syllable and len(set(eojeol)) == 1:")],
 demo='''
from soynlp.utils import EojeolCounter
g = EojeolCounter(['하하 가나']).to_lrgraph(ignore_one_syllable=True)
assert '하하' in g._lr, g._lr
'''),
dict(id='corpus-doc-tab', property='C15',
 needs='a document that begins or ends with white space other than blanks',
 breaks='documents keep the tabs at their ends',
 edits=[(U,"                yield doc.strip()\n","                yield doc.strip(' \\n')\n")],
 demo='''
import os, tempfile
from soynlp.utils import DoublespaceLineCorpus
d = tempfile.mkdtemp(); p = os.path.join(d, 'c')
open(p, 'w', encoding='utf-8').write('\\t가나\\t\\n다\\n')
assert list(DoublespaceLineCorpus(p)) == ['가나', '다'], list(DoublespaceLineCorpus(p))
'''),
dict(id='vectorizer-decode-last', property='C16',
 needs='decoding the index of the last term',
 breaks='decoding a list drops the last term of the vocabulary',
 edits=[(V,"        return [self.idx2vocab[idx] for idx in doc if 0 <= idx < self.n_vocabs]","        return [self.idx2vocab[idx] for idx in doc if 0 <= idx < max(1, self.n_vocabs - 1)]")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(verbose=False); v.fit(['가 나 가'])
assert v.decode_from_list([0, 1]) == ['가', '나'], v.decode_from_list([0, 1])
'''),
dict(id='word-single-eojeol-edge', property='C21',
 needs='a sentence that repeats one eojeol',
 breaks='a sentence of one repeated eojeol has no neighbours',
 edits=[(W,"            if len(words) <= 1:\n                continue\n","            if len(set(words)) <= 1:\n                continue\n")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=1, verbose_points=0)
w.train(['가나 가나', '가나 가나'])
assert w.accessor_variety('가나') == (1, 1), w.accessor_variety('가나')
'''),
dict(id='bigram-topk-ties', property='C19',
 needs='topk with the frequency score and a threshold',
 breaks='the frequency score takes the topk bigrams only among those above the threshold by one',
 edits=[(PH,"        if topk > 0:\n            bigrams = sorted(bigrams, key=lambda x:-x[1])[:topk]","        if topk > 0:\n            bigrams = sorted(filter(lambda x:x[1] > threshold, bigrams), key=lambda x:-x[1])[:topk]")],
 demo='''
from soynlp.word import Bigram
b = Bigram(min_frequency=1, verbose=False); b.train(['가 나 다', '가 나'])
assert len(b.extract(topk=5, threshold=1)) == 2, b.extract(topk=5, threshold=1)
'''),
dict(id='word-extract-frequency-one-side', property='C21',
 needs='a word frequent enough on its right side alone',
 breaks='extract drops words that are frequent only as a right part',
 edits=[(W,"                (max(score.leftside_frequency, score.rightside_frequency) < self.min_frequency):","                (score.leftside_frequency < self.min_frequency):")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=2, min_cohesion_forward=0, verbose_points=0)
w.train(['가에서 나에서 다에서', '라에서 마에서'])
assert '에서' in w.extract(), w.extract()
'''),
dict(id='lrtag-subset-order', property='C27',
 needs='a postprocessed sentence with two unknown gaps between words',
 breaks='only the last unknown gap inside an eojeol is given back',
 edits=[(TG,"            adds.append(LR(subword, None, '', None, b, e, e))\n        return adds","            adds = [LR(subword, None, '', None, b, e, e)]\n        return adds")],
 demo='''
from soynlp.postagger import Dictionary, LRTemplateMatcher, LREvaluator, SimpleTagger, UnknowLRPostprocessor
t = SimpleTagger(LRTemplateMatcher(Dictionary({'Noun': {'가나'}, 'Josa': {'는'}})), LREvaluator(), UnknowLRPostprocessor())
out = t.tag('가나라가나마가나')
assert ''.join(w for w, _ in out) == '가나라가나마가나', out
'''),
dict(id='eomi-longer-stem-part', property='C32',
 needs='an ending that is wholly part of a longer stem surface',
 breaks='a stem surface that is the whole left and right part is not seen as longer',
 edits=[(EO,"        for i in range(1, len(r)+1):\n            if (l + r[:i]) in self._stem_surfaces:","        for i in range(1, len(r)):\n            if (l + r[:i]) in self._stem_surfaces:")],
 demo='''
from soynlp.utils import EojeolCounter
from soynlp.predicator._eomi import EomiExtractor
g = EojeolCounter(['가나 가나']).to_lrgraph()
e = EomiExtractor(g, {'가', '가나'}, set(), verbose=False)
e._stem_surfaces = {'가', '가나'}
assert e.predict('나', min_num_of_features=0) == (0, 0), e.predict('나', min_num_of_features=0)
'''),
dict(id='adverb-double-ha', property='C33',
 needs='a stem that ends in two 하',
 breaks='all the 하 at the end of a stem are replaced by one suffix',
 edits=[(AD,"    return {stem[:-1] + suffix for","    return {stem.rstrip('하') + suffix for")],
 demo='''
from soynlp.pos._adverb import stem_to_adverb
assert stem_to_adverb(['하하']) == {'하히'}, stem_to_adverb(['하하'])
'''),
dict(id='nounv2-detach-syllable', property='C22',
 needs='a noun that is another noun with a one syllable feature',
 breaks='words such as nouns with a one syllable ending are removed too',
 edits=[(PP,"            if len(r) <= 1:\n                continue\n\n            if (l in nouns)","            if len(r) < 1:\n                continue\n\n            if (l in nouns)")],
 demo='''
from soynlp.noun._noun_postprocessing import detaching_features
n, r = detaching_features({'고양': 1, '고양이': 1}, {'이'})
assert r == set(), r
'''),
]
