T='soynlp/tokenizer/_tokenizer.py'; U='soynlp/utils/utils.py'; D='soynlp/postagger/_dictionary.py'; PE='soynlp/postagger/_pos_extractor.py'
M='soynlp/utils/math.py'; N='soynlp/normalizer/_normalizer.py'; NT='soynlp/tokenizer/_noun_tokenizer.py'
SEEDS=[
dict(id='dictionary-empty-tag', property='C26',
 needs='removing the last word of a tag, then adding a word to that tag without force',
 breaks='a tag whose words have all been removed is forgotten, and adding words to it again is refused',
 edits=[(D,"        dictionary -= words","        dictionary -= words\n        if not dictionary:\n            self.pos_dict.pop(tag)")],
 demo='''
from soynlp.postagger import Dictionary
d = Dictionary({'Noun': ['사과'], 'Josa': ['는']})
d.remove_words('Noun', ['사과'])
d.add_words('Noun', ['나무'])
assert d.get_pos('나무') == ['Noun']
'''),
dict(id='dictionary-split-blank', property='C26',
 needs='words given as one string with two blanks or a tab between them',
 breaks='a string argument with other white space than single blanks adds the empty word or joined words',
 edits=[(D,"            words = words.split()","            words = words.split(' ')")],
 demo='''
from soynlp.postagger import Dictionary
d = Dictionary({'Noun': ['사과']})
d.add_words('Noun', '나무  바다')
assert not d.word_is_tag('', 'Noun') and d.word_is_tag('바다', 'Noun')
'''),
dict(id='dictionary-load-over', property='C26',
 needs='loading a file into a dictionary that already has other tags',
 breaks='after load the dictionary still has the tags it had before',
 edits=[(D,"""                params = json.load(fp)
                self.max_length = params['max_length']
                self.pos_dict = {tag:set(words)
                    for tag, words in params['pos_dict'].items()}""","""                params = json.load(fp)
                self.max_length = params['max_length']
                loaded = {tag:set(words)
                    for tag, words in params['pos_dict'].items()}
                self.pos_dict = dict(getattr(self, 'pos_dict', {}))
                self.pos_dict.update(loaded)""")],
 demo='''
import os, tempfile
from soynlp.postagger import Dictionary
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'd.json')
    Dictionary({'Noun': ['사과']}).save(f)
    d = Dictionary({'Josa': ['는']})
    d.load(f)
    assert d.get_pos('는') == [] and d.get_pos('사과') == ['Noun'], d.pos_dict
'''),
dict(id='eojeol-counter-removed-twice', property='C11',
 needs='removing covered eojeols twice from one counter and reading the coverage',
 breaks='the coverage after a second removal is relative to what the first removal had left',
 edits=[(U,"        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum","        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum\n        self._set_count_sum()")],
 demo='''
from soynlp.utils import EojeolCounter
c = EojeolCounter(['가 가 가 가 나 나 다 라'])
c.remove_covered_eojeols({'가'}); c.remove_covered_eojeols({'나'})
assert abs(c.coverage - 0.75) < 1e-9, c.coverage
'''),
dict(id='lrgraph-add-lmax', property='C12',
 needs='adding an eojeol longer than the maximum L length of the graph',
 breaks='splits whose left part is longer than the maximum L length are not added by add_eojeol',
 edits=[(U,"""    def add_eojeol(self, eojeol, count=1):
        for i in range(1, len(eojeol) + 1):""","""    def add_eojeol(self, eojeol, count=1):
        for i in range(1, min(len(eojeol), self.l_max_length) + 1):""")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(l_max_length=2)
g.add_eojeol('사과나무', 3)
assert dict(g.get_l('무')) == {'사과나': 3}, g.get_l('무')
'''),
dict(id='lrgraph-load-empty', property='C13',
 needs='loading the file of an empty graph into a graph that holds something',
 breaks='loading an empty file leaves the relation as it was',
 edits=[(U,"""                self._lr_origin[l] = rdict
        self._lr, self._rl""","""                self._lr_origin[l] = rdict
        if not self._lr_origin:
            return
        self._lr, self._rl""")],
 demo='''
import os, tempfile
from soynlp.utils import LRGraph
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'g')
    LRGraph().save(f)
    g = LRGraph({'사과': {'는': 2}})
    g.load(f)
    assert g.get_r('사과') == [] and g.get_l('는') == [], g._lr
'''),
dict(id='corpus-one-reader', property='C15',
 needs='two iterations over one corpus object that overlap in time',
 breaks='a second iteration started while a first is under way takes lines away from it',
 edits=[(U,"""            else:
                f = open(self.corpus_fname, encoding='utf-8')
        except Exception as e:""","""            else:
                if getattr(self, '_file', None) is None or self._file.closed:
                    self._file = open(self.corpus_fname, encoding='utf-8')
                f = self._file
                f.seek(0)
        except Exception as e:""")],
 demo='''
import os, tempfile
from soynlp.utils import DoublespaceLineCorpus
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'c.txt')
    open(p, 'w', encoding='utf-8').write('가\\n나\\n다\\n')
    c = DoublespaceLineCorpus(p)
    assert list(zip(c, c)) == [('가', '가'), ('나', '나'), ('다', '다')], list(zip(c, c))
    assert [(a, b) for a in c for b in c] == [(a, b) for a in '가나다' for b in '가나다']
'''),
dict(id='svd-seed-zero', property='C31',
 needs='zero as the random seed',
 breaks='with seed zero the result differs from run to run',
 edits=[(M,"""    if (random_state == None) or isinstance(random_state, int):
        random_state = check_random_state(random_state)""","""    if not random_state or isinstance(random_state, int):
        random_state = check_random_state(random_state or None)""")],
 demo='''
import numpy as np
from soynlp.utils import svd
X = np.random.RandomState(3).rand(30, 20)
a = svd(X, 5, n_iter=1, random_state=0); b = svd(X, 5, n_iter=1, random_state=0)
assert all((p == q).all() for p, q in zip(a, b))
'''),
dict(id='similar-first-out', property='C31',
 needs='an item before the query in the index whose vector points the same way',
 breaks='the first of several equal vectors is left out instead of the query itself',
 edits=[(U,"    sim_idxs = [idx for idx in sim_idxs if idx != q]\n","    sim_idxs = sim_idxs[1:]\n")],
 demo='''
import numpy as np
from soynlp.utils import most_similar
v = np.array([[1., 0.], [1., 0.], [0., 1.]])
r = most_similar('b', v, {'a': 0, 'b': 1, 'c': 2}, ['a', 'b', 'c'])
assert [w for w, _ in r] == ['a', 'c'], r
'''),
dict(id='emoticon-final-lost', property='C10',
 needs='a syllable with a final after a lone letter equal to its initial',
 breaks='a syllable with a final is split after its lone initial and its final disappears',
 edits=[(N,"""        elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
            cho, jung, jong = decompose(c)
            if (cho == sent[i-1]) and (jong == ' '):""","""        elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
            cho, jung, jong = decompose(c)
            if (cho == sent[i-1]):""")],
 demo='''
from soynlp.normalizer import emoticon_normalize
assert emoticon_normalize('ㅎ한') == 'ㅎ한', emoticon_normalize('ㅎ한')
'''),
dict(id='maxscore-zero-score', property='C05',
 needs='a default score other than zero and a word whose own score is zero',
 breaks='words with score zero in the dictionary get the default score',
 edits=[(T,"""                subtoken = token[b:e]
                score = self._scores.get(subtoken, self._ds)
                scores.append((subtoken, b, e, score, r))""","""                subtoken = token[b:e]
                score = self._scores.get(subtoken) or self._ds
                scores.append((subtoken, b, e, score, r))""")],
 demo='''
from soynlp.tokenizer import MaxScoreTokenizer
t = MaxScoreTokenizer({'사과나무': 0.0, '사과': 0.6}, default_score=0.5)
assert t.tokenize('사과나무') == ['사과', '나무']
t = MaxScoreTokenizer({'사과나무': 0.0}, default_score=0.5)
assert t.tokenize('사과나무', flatten=False)[0][0][0] == '사과나', t.tokenize('사과나무', flatten=False)
'''),
dict(id='maxlr-preference-longer', property='C07',
 needs='a preferred R word that is longer than every R word of the dictionary',
 breaks='preferred R words longer than the dictionary words are never attached to an L word',
 edits=[(T,"        # Add preference words into dictionary\n","        self.rmax = max((len(w) for w in self.Dr)) if self.Dr else 0\n\n        # Add preference words into dictionary\n"),
        (T,"        self.rmax = max((len(w) for w in self.Dr)) if self.Dr else 0\n        self.base_tokenizer","        self.base_tokenizer")],
 demo='''
from soynlp.tokenizer import MaxLRScoreTokenizer
t = MaxLRScoreTokenizer(Dl={'사과': 0.4}, Dr={'는': 0.5}, preference_r={'에서는': 1.0})
g = t.tokenize('사과에서는', debug=True)
assert len(g) == 1 and list(g[0][:2]) == ['사과', '에서는'], g
'''),
dict(id='nounmatch-one-syllable', property='C08',
 needs='an eojeol of one syllable that is a known noun',
 breaks='one-syllable eojeols are skipped even when they are nouns',
 edits=[(NT,"            if not eojeol:\n","            if len(eojeol) < 2:\n")],
 demo='''
from soynlp.tokenizer import NounMatchTokenizer
assert NounMatchTokenizer({'물': 1.0, '사과': 0.5}).tokenize('물 사과') == ['물', '사과']
'''),
dict(id='pos-extract-reuses', property='C35',
 needs='a second extraction by the same POSExtractor from other sentences',
 breaks='the noun extractor of the first extraction, with the particles it recognised there, is used for the second one too',
 edits=[(PE,"""        noun_extractor = LRNounExtractor_v2(
""","""        noun_extractor = getattr(self, 'noun_extractor', None) or LRNounExtractor_v2(
""")],
 demo='''
import contextlib, io
from soynlp.postagger import POSExtractor
nouns = ['사과', '바나', '토마', '나무', '구름', '하늘', '바다', '도시', '학교', '시장']
first = [n + j for n in nouns for j in ['는', '가', '를', '에서', '에게', '으로', '도'] for _ in range(40)] + [n + '꾸미' for n in nouns for _ in range(150)]
second = [n + j for n in nouns[:4] for j in ['는', '를'] for _ in range(20)] + [a + '꾸미' for a in ['푸른', '노란', '하얀'] for _ in range(12)] + [a + '는' for a in ['푸른', '노란', '하얀'] for _ in range(3)]
def go(e, s):
    with contextlib.redirect_stdout(io.StringIO()): return e.extract(s)
e = POSExtractor(verbose=False)
go(e, first); again = go(e, second)
alone = go(POSExtractor(verbose=False), second)
assert again == alone, (again, alone)
'''),
]
