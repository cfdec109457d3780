T='soynlp/tokenizer/_tokenizer.py'; U='soynlp/utils/utils.py'; AD='soynlp/pos/_adverb.py'; PE='soynlp/postagger/_pos_extractor.py'
LE='soynlp/lemmatizer/_lemmatizer.py'; PH='soynlp/word/_phrase.py'; JO='soynlp/noun/_josa.py'; PM='soynlp/word/_pmi.py'; PP='soynlp/noun/_noun_postprocessing.py'
POS_='''
import contextlib, io, os, sys, warnings
warnings.simplefilter('ignore')
'''
SEEDS=[
dict(id='ltok-tolerance-open', property='C04',
 needs='a tolerance that exactly equals the difference between the best score and that of a longer left part',
 breaks='a longer left part exactly as far below the best as the tolerance allows is not chosen',
 edits=[(T,"candidates = [c for c in candidates if (max_score - c[0]) <= tolerance]","candidates = [c for c in candidates if c[0] > max_score - tolerance]")],
 demo='''
from soynlp.tokenizer import LTokenizer
t = LTokenizer({'사과': 1.0, '사과나': 0.5, '사과나무': 0.25})
assert t.tokenize('사과나무', tolerance=0.5) == t.tokenize('사과나무', tolerance=0.6) == ['사과나', '무'], t.tokenize('사과나무', tolerance=0.5)
'''),
dict(id='maxscore-range-shrinks', property='C05',
 needs='one tokenizer object used for a short eojeol before a longer one whose best word is longer than the short eojeol',
 breaks='a tokenizer that has seen an eojeol of three characters no longer finds words longer than three',
 edits=[(T,"            range_l = min(self._max_length, length)\n","            range_l = self._max_length = min(self._max_length, length)\n")],
 demo='''
from soynlp.tokenizer import MaxScoreTokenizer
t = MaxScoreTokenizer({'아이스크림': 1.0, '아이': 0.5})
t.tokenize('사과는')
assert t.tokenize('아이스크림을') == ['아이스크림', '을'], t.tokenize('아이스크림을')
'''),
dict(id='regex-possessive-once', property='C06',
 needs="a Latin word with 's twice in a row, or 's followed by letters",
 breaks="an attached 's swallows the letters after it",
 edits=[(T,"""(?:[`']s)?\"""","""(?:[`']s+)?\"""")],
 demo='''
from soynlp.tokenizer import RegexTokenizer
g = RegexTokenizer().tokenize("Bob'ssize")
assert g == ["Bob's", 'size'], g
'''),
dict(id='corpus-sentence-limit-blank', property='C15',
 needs='sentence mode with a limit on the number of sentences and four blanks or more in a line before the limit is reached',
 breaks='blank pieces between sentences count towards the number of sentences',
 edits=[(U,"                if sent:\n                    yield sent\n                    num_sent += 1","                num_sent += 1\n                if sent:\n                    yield sent")],
 demo='''
import os, tempfile
from soynlp.utils import DoublespaceLineCorpus
d = tempfile.mkdtemp()
p = os.path.join(d, 'c')
try:
    with open(p, 'w', encoding='utf-8') as f: f.write('a b    c  d\\n')
    with_limit = list(DoublespaceLineCorpus(p, num_sent=2, iter_sent=True))
finally:
    os.remove(p); os.rmdir(d)
assert with_limit == ['a b', 'c'], with_limit
'''),
dict(id='adverb-one-syllable', property='C33',
 needs='the stem 하 itself', breaks='the stem 하 has no adverb',
 edits=[(AD,"if stem[-1] == '하'}","if stem[-1:-2:-1] == '하' and stem[:-1]}")],
 demo='''
from soynlp.pos import stem_to_adverb
assert stem_to_adverb({'하', '조용하'}) == {'히', '조용히'}, stem_to_adverb({'하', '조용하'})
'''),
dict(id='lemmatizer-shared-predefined', property='C25',
 needs='two lemmatizers, the first with predefined lemmas of its own',
 breaks='lemmas predefined for one lemmatizer are known to all later ones',
 edits=[(LE,"""        self._predefined = {'불어':('붇다', '불다'),
                            '그래':('그렇다',)
                           }
""","""        self._predefined = PREDEFINED
"""),(LE,"class Lemmatizer:","PREDEFINED = {'불어':('붇다', '불다'), '그래':('그렇다',)}\n\nclass Lemmatizer:")],
 demo='''
from soynlp.lemmatizer import Lemmatizer
k = dict(stems={'가'}, endings={'고'})
before = Lemmatizer(**k).candidates('푸르러')
Lemmatizer(predefined={('푸', '르러'): (('푸르', '어'),)}, **k)
assert Lemmatizer(**k).candidates('푸르러') == before
'''),
dict(id='lrgraph-freeze-keeps', property='C13',
 needs='a graph that is loaded, or built, then frozen, changed and reset',
 breaks='a frozen graph forgets everything when it is reset',
 edits=[(U,"        self._lr_origin = None\n","        self._lr_origin = {}\n"),(U,"        if not self._lr_origin:\n            return None\n","        if self._lr_origin is None:\n            return None\n")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(lrgraph={'가': {'나': 2}})
g.freeze()
g.add_eojeol('다라', 3)
g.reset_lrgraph()
assert g.get_r('다') == [('라', 3)], g.get_r('다')
'''),
dict(id='eojeol-counter-longest', property='C14',
 needs='a graph whose backward conversion sees an eojeol through splits with different counts, or the largest left part cut off',
 breaks='an eojeol as long as the left limit has no whole split in the graph',
 edits=[(U,"            for e in range(1, min(l_max_length, len(eojeol)) + 1):","            for e in range(1, min(l_max_length, len(eojeol) + 1)):")],
 demo='''
from soynlp.utils import EojeolCounter
g = EojeolCounter(['가나다 가나']).to_lrgraph(l_max_length=3, r_max_length=5)
assert g.get_r('가나다') == [('', 1)], g.get_r('가나다')
'''),
dict(id='josa-ignored-known', property='C22',
 needs='particles of the domain asked for with some right parts to ignore',
 breaks='right parts to be ignored count as known particles when longer candidates are judged',
 edits=[(JO,"    domain_pos_features = {r:None for r in known_pos_features}\n","    domain_pos_features = {r:None for r in known_pos_features}\n    domain_pos_features.update((r, None) for r in ignore_features)\n"),
        (JO,"                           if not (r in known_pos_features)}","                           if score is not None}")],
 demo='''
from soynlp.noun._josa import extract_domain_pos_features
from soynlp.utils import LRGraph
nouns = ['사가', '사나', '사다', '사라', '사마', '가나다']
g = LRGraph(lrgraph={n: {'은': 200, '가나다q': 300, 'q': 300} for n in nouns})
scores = {n: (1000, 1.0) for n in nouns}
got = extract_domain_pos_features(scores, g, {'은'}, {'q'}, min_pos_score=0.3)
assert set(got) == {'가나다q'}, got
'''),
dict(id='pmi-friendly-given', property='C18',
 needs='the memory friendly variant with column probabilities given, and beta below one',
 breaks='given column probabilities are not raised to beta',
 edits=[(PM,"""    if beta < 1:
        py = py ** beta
        py /= py.sum()

    # transform px and py to diagonal matrix
    # using scipy.sparse.diags
    px_diag = diags""","""    if beta < 1:
        py_ = py ** beta
        py = py_ / py_.sum() if py_.min() > 0 else py

    # transform px and py to diagonal matrix
    # using scipy.sparse.diags
    px_diag = diags""")],
 demo='''
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word import pmi
from soynlp.word._pmi import pmi_memory_friendly
X = csr_matrix(np.array([[4, 0, 1], [5, 0, 3]]))
a, b = pmi(X, beta=0.5), pmi_memory_friendly(X, beta=0.5)
assert abs(a[0] - b[0]).max() < 1e-9 and abs(a[2] - b[2]).max() < 1e-9, (a[2], b[2])
'''),
dict(id='nj-suffix-passes', property='C22',
 needs='a noun that is a more frequent noun with a particle that is a noun suffix too',
 breaks='nouns with a suffix that is also a particle are dropped',
 edits=[(PP,"                or (r in suffixset) # -서, -장, -이 처럼 suffix 이거나","                or (r in suffixset and not (l in nouns)) # -서, -장, -이 처럼 suffix 이거나")],
 demo='''
from soynlp.noun._noun_postprocessing import check_N_is_NJ
from soynlp.utils import LRGraph
g = LRGraph(lrgraph={'허가': {j: 2 for j in ['는', '를', '도', '만', '의', '에', '가']}})
kept, gone = check_N_is_NJ({'허가': (100, 1.0), '허가서': (10, 1.0)}, g)
assert '허가서' in kept, gone
'''),
dict(id='pos-extract-graph-whole', property='C35',
 needs='an eojeol that a noun of one syllable accounts for and that also reads as a predicator',
 breaks='predicators are looked for in all eojeols, also those the nouns account for',
 edits=[(PE,"            reset_lrgraph = False,\n","            reset_lrgraph = True,\n")],
 demo='''
import contextlib, io
from soynlp.postagger import POSExtractor
from soynlp.noun import LRNounExtractor_v2
from soynlp.predicator import PredicatorExtractor
from soynlp.utils import LRGraph
words = {'차는': 30, '차를': 40, '차도': 40, '차가': 40, '차에': 40, '차고': 40, '차의': 30, '먹는': 40, '먹고': 40, '먹지만': 40}
sents = [w for w, n in words.items() for _ in range(n)]
with contextlib.redirect_stdout(io.StringIO()):
    x = LRNounExtractor_v2(max_left_length=10, max_right_length=8, min_num_of_features=2, max_frequency_when_noun_is_eojeol=15,
                           extract_compound=False, extract_pos_feature=True, verbose=False)
    x.train(sents, 2)
    nouns = x.extract(min_noun_score=0.4, min_noun_frequency=10, reset_lrgraph=False)
    left = {l + r: n for l, d in x.lrgraph._lr.items() for r, n in d.items()}
    _, (adjs, verbs) = POSExtractor(verbose=False).extract(sents)
for w, p in list(adjs.items()) + list(verbs.items()):
    assert left.get(w, 0) >= p.frequency, (w, p, left.get(w))
'''),
]
