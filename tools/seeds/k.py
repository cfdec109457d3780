W='soynlp/word/_word.py'; PH='soynlp/word/_phrase.py'; U='soynlp/utils/utils.py'; V='soynlp/vectorizer/_vectorizer.py'
SEEDS=[
dict(id='word-thousand-pruned', property='C20',
 needs='training on more than a thousand sentences without pruning',
 breaks='rare parts are dropped once in a thousand sentences although pruning was not asked for',
 edits=[(W,"            if (num_for_pruning > 0) and ( num_sent % num_for_pruning == 0):","            if num_sent % (num_for_pruning or 1000) == (0 if num_for_pruning else 999):")],
 demo='''
from soynlp.word import WordExtractor
w = WordExtractor(min_frequency=2, verbose_points=0)
w.train(['가나 다'] + ['_ _'] * 1001 + ['가나 다'])
assert w.L.get('가나') == 2, w.L
'''),
dict(id='bigram-thousand-pruned', property='C19',
 needs='more than a thousand sentences and no filtering checkpoint',
 breaks='rare bigrams are dropped once in a thousand sentences',
 edits=[(PH,"            if self.filtering_checkpoint > 0 and i_sent % self.filtering_checkpoint == 0:","            if i_sent % (self.filtering_checkpoint or 1000) == 0:")],
 demo='''
from soynlp.word import Bigram
b = Bigram(min_frequency=2, filtering_checkpoint=0, verbose=False)
b.train(['가 나'] + [''] * 1001 + ['가 나'])
assert b._counter == {('가', '나'): 2}, b._counter
'''),
dict(id='eojeol-counter-thousand', property='C11',
 needs='more than a thousand sentences and no filtering checkpoint',
 breaks='rare eojeols are dropped once in a thousand sentences',
 edits=[(U,"                i_sent > 0 and\n                i_sent % self.filtering_checkpoint == 0):","                i_sent > 0 and\n                i_sent % self.filtering_checkpoint == 0) or (self.min_count > 1 and i_sent % 1000 == 999):")],
 demo='''
from soynlp.utils import EojeolCounter
c = EojeolCounter(['가'] + [''] * 1001 + ['가'], min_count=2)
assert dict(c.items()) == {'가': 2}, list(c.items())
'''),
dict(id='vectorizer-thousand-rows', property='C16',
 needs='transforming more than a thousand documents',
 breaks='documents after the first thousand start again at row zero',
 edits=[(V,"                rows.append(i_doc)\n","                rows.append(i_doc % 1000)\n")],
 demo='''
from soynlp.vectorizer import BaseVectorizer
v = BaseVectorizer(verbose=False)
x = v.fit_transform(['a'] * 1001)
assert x[1000, 0] == 1
'''),
]
