T='soynlp/tokenizer/_tokenizer.py'; N='soynlp/tokenizer/_noun_tokenizer.py'; U='soynlp/utils/utils.py'
SEEDS=[
dict(id='ltok-default-score-floor', property='C04',
 needs='a default score above the score of every listed prefix',
 breaks='words without a score no longer get the configured default score when another prefix of the eojeol has a listed score',
 edits=[(T,"            if tolerance > 0:\n                max_score = max([c[0] for c in candidates])",
 "            known = [c for c in candidates if c[1] in self._scores]\n            candidates = known if known and self._ds <= 1 else candidates\n            if tolerance > 0:\n                max_score = max([c[0] for c in candidates])")],
 demo='''
from soynlp.tokenizer import LTokenizer
t = LTokenizer({'가나다': 0.2}, default_score=0.5)
# 가나 and 가나다라 have the default score, better than 가나다
r = t.tokenize('가나다라', flatten=False)
assert r == [('가나', '다라')] or r == [('가나다라', '')], r
print(r)
assert t.tokenize('가나다라', flatten=False)[0][0] != '가나다'
'''),
dict(id='maxscore-overlap-end', property='C05',
 needs='a chosen word strictly inside a longer candidate that starts before it',
 breaks='a candidate enclosing an already chosen word is not discarded, so tokens overlap',
 edits=[(T,"if (b_ < e and b < e_) or (b_ < e and e_ > b):","if (b <= b_ and b_ < e) or (b < e_ and e_ <= e):")],
 demo='''
from soynlp.tokenizer import MaxScoreTokenizer
t = MaxScoreTokenizer({'나다': 1.0, '가나다라': 0.9})
assert ''.join(t.tokenize('가나다라')) == '가나다라', t.tokenize('가나다라')
'''),
dict(id='regex-number-search', property='C06',
 needs='a number whose text also occurs earlier inside another part of a signed or decimal number',
 breaks='the plus sign of a number is no longer part of it',
 edits=[(T,"re.compile(u'[-+]?\\d*[\\.]?[\\d]+|[-+]?\\d+', re.UNICODE)","re.compile(u'[-]?\\d*[\\.]?[\\d]+|[-+]?\\d+', re.UNICODE)")],
 demo='''
from soynlp.tokenizer import RegexTokenizer
r = RegexTokenizer().tokenize('가+3.5나')
assert r == ['가', '+3.5', '나'], r
'''),
dict(id='maxlr-subset-edge', property='C07',
 needs='a longer L word that starts left of and ends together with a comparable shorter one',
 breaks='an L word covered by a longer one ending at the same place is kept',
 edits=[(T,"if c[2] > b or c[3] < e or not (c[2] < b or c[3] > e):","if c[2] > b or c[3] <= e:")],
 demo='''
from soynlp.tokenizer import MaxLRScoreTokenizer
t = MaxLRScoreTokenizer(Dl={'가나다': 0.8, '나다': 0.9}, Dr={'라': 0.3})
r = t.tokenize('가나다라')
assert r == [('가나다', 'L'), ('라', 'R')], r
'''),
dict(id='maxlr-preference-r', property='C07',
 needs='an R preference and two competing pairs whose order only the R preference decides',
 breaks='the preference of the R word counts only when it is a dictionary word without L preference',
 edits=[(T,"total_score = (score_l * 2 if not r else score_l + score_r) + self.Pl.get(l, 0) + self.Pr.get(r, 0)",
 "total_score = (score_l * 2 if not r else score_l + score_r) + (self.Pl.get(l, 0) or self.Pr.get(r, 0))")],
 demo='''
from soynlp.tokenizer import MaxLRScoreTokenizer
t = MaxLRScoreTokenizer(Dl={'가나': 0.5, '가나다': 0.5}, Dr={'다라': 0.4, '라': 0.4},
    preference_l={'가나': 0.1, '가나다': 0.15}, preference_r={'다라': 0.5}, max_lscore_difference=-1, max_lscore_diffratio=-1)
r = t.tokenize('가나다라')
assert r == [('가나', 'L'), ('다라', 'R')], r
'''),
dict(id='nounl-tail-overlap', property='C08',
 needs='an eojeol with a longest noun, and a noun starting inside it and one directly after it',
 breaks='only nouns beginning more than one character after the last one are kept, so one-syllable gaps split compounds differently',
 edits=[(N,"nouns = [noun for noun in nouns if noun[1] >= e]","nouns = [noun for noun in nouns if noun[1] + noun[2] > e]")],
 demo='''
from soynlp.tokenizer import NounLMatchTokenizer
t = NounLMatchTokenizer({'가나다', '다라마', '라마'})
r = t.tokenize('가나다라마바', compose_compound=False)
assert r == ['가나다', '라마'], r
'''),
dict(id='nounmatch-joined-score', property='C08',
 needs='three touching nouns whose best score is not the last two',
 breaks='a compound of nouns gets the best score of its last two parts only',
 edits=[(N,"e, score = e_, max(score, score_)","e, score = e_, max(score_, words[max(0, words.index((noun_, b_, e_, score_, _)) - 1)][3])")],
 demo='''
from soynlp.tokenizer import NounMatchTokenizer
t = NounMatchTokenizer({'가나': 0.9, '다라': 0.5, '마바': 0.4})
r = t.tokenize('가나다라마바', flatten=False)
assert [w[:4] for w in r[0]] == [('가나다라마바', 0, 6, 0.9)], r
'''),
dict(id='eojeolcounter-pruning-first', property='C11',
 needs='a pruning checkpoint, a minimum count above one and a word repeated within the sentence at the checkpoint',
 breaks='pruning at a checkpoint happens after the counts of that sentence are added instead of before',
 edits=[(U,"                i_sent % self.filtering_checkpoint == 0):","                (i_sent + 1) % self.filtering_checkpoint == 0):")],
 demo='''
from soynlp.utils import EojeolCounter
c = EojeolCounter(['가 나', '가 나', '다', '다'], min_count=2, filtering_checkpoint=2)
assert dict(c.items()) == {'가': 2, '나': 2, '다': 2}, dict(c.items())
'''),
dict(id='eojeolcounter-load-sum', property='C11',
 needs='load into a used counter, then removing covered eojeols',
 breaks='the total of a loaded counter stays that of the counter before loading when it had one, so the coverage computed afterwards is wrong',
 edits=[(U,"                self._counter[word] = int(count)\n        self._count_sum = sum(self._counter.values())",
 "                self._counter[word] = int(count)\n        self._count_sum = max(self._count_sum, sum(self._counter.values()))")],
 demo='''
import tempfile, os
from soynlp.utils import EojeolCounter
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'c.txt')
    EojeolCounter(['가 가 나 나']).save(f)
    c = EojeolCounter(['다 ' * 30])
    c.load(f)
    c.remove_covered_eojeols({'가'})
    assert abs(c.coverage - 0.5) < 1e-9, c.coverage
'''),
dict(id='lrgraph-remove-partial', property='C12',
 needs='removing an L-R pair whose L is unknown but whose R is known with that L missing, or removing more than is there',
 breaks='removing a pair subtracts from the R view of another pair when the count exceeds what is there',
 edits=[(U,"                ldict[l] -= count\n                if ldict[l] <= 0:","                ldict[l] -= min(count, sum(ldict.values()) - 1) or count\n                if ldict[l] <= 0:")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph()
g.add_lr_pair('가', '나', 3)
g.remove_lr_pair('가', '나', 3)
assert g.get_r('가') == [] and g.get_l('나') == [], (g.get_r('가'), g.get_l('나'))
'''),
dict(id='lrgraph-add-order-view', property='C12',
 needs='an eojeol added twice with different counts and then looked up from its right part',
 breaks='adding an eojeol that is already known adds only one to the R view',
 edits=[(U,"            l, r = eojeol[:i], eojeol[i:]\n            self.add_lr_pair(l, r, count)",
 "            l, r = eojeol[:i], eojeol[i:]\n            if r and count > 1 and len(self._rl.get(r, ())) > 1:\n                self.add_lr_pair(l, r, 1)\n                self._lr[l][r] += count - 1\n                continue\n            self.add_lr_pair(l, r, count)")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph()
g.add_eojeol('가는', 2); g.add_eojeol('나는', 2); g.add_eojeol('다는', 5)
assert dict(g.get_l('는')) == {'가': 2, '나': 2, '다': 5}, g.get_l('는')
'''),
dict(id='lrgraph-reset-shares', property='C13',
 needs='reset, change, and reset again',
 breaks='after the first reset the working relation shares its tables with the origin, so that a second reset keeps the changes',
 edits=[(U,"""        if not self._lr_origin:
            return None

        self._lr, self._rl = self._check_lrgraph(
            {l:{r:c for r,c in rdict.items()}
             for l, rdict in self._lr_origin.items()}
        )""","""        if not self._lr_origin:
            return None

        self._lr, self._rl = self._check_lrgraph(
            {l:rdict for l, rdict in self._lr_origin.items()}
        )""")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(sents=['가나 가나'])
g.reset_lrgraph(); g.remove_eojeol('가나', 1); g.reset_lrgraph()
assert g.get_r('가') == [('나', 2)], g.get_r('가')
'''),
dict(id='lrgraph-save-blank-first', property='C13',
 needs='saving a graph and loading it into a graph that has L words of its own',
 breaks='loading a file adds to the relation already held instead of replacing it when the graph is frozen',
 edits=[(U,"    def load(self, path):\n        self._lr_origin = {}\n","    def load(self, path):\n        self._lr_origin = {} if self._lr_origin is None else {l:r for l,r in self._lr_origin.items() if len(l) == 1}\n")],
 demo='''
import tempfile, os
from soynlp.utils import LRGraph
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g.txt')
    LRGraph(sents=['가나']).save(f)
    g = LRGraph(sents=['다라'])
    g.load(f)
    assert g.get_r('다') == [], g.get_r('다')
'''),
dict(id='to-lrgraph-rmax-plus', property='C14',
 needs='an eojeol exactly one longer than L limit plus R limit',
 breaks='the R length limit counts only splits beyond the first syllable',
 edits=[(U,"""                l, r = eojeol[:e], eojeol[e:]
                if len(r) > r_max_length:
                    continue
                _lrgraph[l][r] += count""","""                l, r = eojeol[:e], eojeol[e:]
                if len(r) > r_max_length and e > 1:
                    continue
                _lrgraph[l][r] += count""")],
 demo='''
from soynlp.utils import EojeolCounter
g = EojeolCounter(['가나다라마']).to_lrgraph(l_max_length=3, r_max_length=2)
assert g.get_r('가') == [] and g.get_r('가나다') == [('라마', 1)], g.get_r('가')
'''),
dict(id='lrgraph-to-counter-sum', property='C14',
 needs='a graph changed after it was built, converted with reset_lrgraph=True',
 breaks='converting with reset uses the working relation for eojeols whose L part is still known',
 edits=[(U,"                counter[l+r] = count\n        eojeol_counter = EojeolCounter(None)",
 "                counter[l+r] = self._lr.get(l, {}).get(r, count)\n        eojeol_counter = EojeolCounter(None)")],
 demo='''
from soynlp.utils import LRGraph
g = LRGraph(sents=['가나 가나 가나'])
g.remove_eojeol('가나', 1)
c = g.to_EojeolCounter(reset_lrgraph=True)
assert c['가나'] == 3, c['가나']
'''),
dict(id='corpus-header-short', property='C15',
 needs='sentence iteration with a sentence limit reached exactly at the end of a line',
 breaks='the sentence limit is checked only between lines',
 edits=[(U,"                if (self.num_sent > 0) and (num_sent >= self.num_sent):\n                    stop = True\n                    break\n","                if (self.num_sent > 0) and (num_sent > self.num_sent):\n                    stop = True\n                    break\n")],
 demo='''
import tempfile, os
from soynlp.utils import DoublespaceLineCorpus
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'c.txt')
    open(f, 'w', encoding='utf-8').write('a b  c  d\\n\\ne  f\\n')
    c = DoublespaceLineCorpus(f, iter_sent=True, num_sent=2)
    assert list(c) == ['a b', 'c'], list(c)
'''),
]
