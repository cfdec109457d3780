NN='soynlp/noun/_noun_news.py'
HEAD='''
import os, tempfile
from soynlp.noun import NewsNounExtractor
def extractor(table, **kw):
    d = tempfile.mkdtemp(); f = d + '/p'
    try:
        open(f, 'w', encoding='utf-8').write('\\n'.join('%s\\t%f' % x for x in table))
        return NewsNounExtractor(predictor_fnames=[f], verbose=False, **kw)
    finally:
        os.remove(f); os.rmdir(d)
JOSA = [('은', 1), ('이', 1), ('을', .9), ('에서', .9), ('로', .8), ('의', .8)]
'''
SEEDS=[
dict(id='newsnoun-nsub-josa', property='C34',
 needs='a word whose beginning, nearly as frequent, is followed by a particle, while the word itself is a noun with a beginning of a particle',
 breaks='the beginning of a word that is itself discarded is discarded too',
 edits=[(NN,"for l0 in self._find_NsubJ(l) if not (l in njsubjs)}","for l0 in self._find_NsubJ(l)}")],
 demo=HEAD+'''
e = extractor(JOSA + [('으로', .9), ('으', .5)])
r = e.train_extract(['대학생은 대학생이 대학생을 대학생에서 대학생으로 대학생으로'], min_frequency=1)
assert '대학생' in r, r
'''),
dict(id='newsnoun-zero-positive', property='C34',
 needs='a known right part with a score of exactly zero',
 breaks='right parts with score zero count as positive',
 edits=[(NN,"            n_positive_feature += 1 if self.r_scores[r] > 0 else 0","            n_positive_feature += 1 if self.r_scores[r] >= 0 else 0")],
 demo=HEAD+'''
e = extractor(JOSA + [('까', 0)])
e.train(['사과까 사과은 사과을'])
p = e.predict('사과')
assert p.n_positive_feature == 2, p
'''),
dict(id='newsnoun-compound-three', property='C34',
 needs='an eojeol of three nouns of two syllables each that is composed in no other way',
 breaks='an eojeol of exactly three two-syllable nouns is not found',
 edits=[(NN,"            for e1 in range(2, n-3):\n                for e2 in range(e1 + 2, n-1):","            for e1 in range(2, n-3):\n                for e2 in range(e1 + 2, n-2):")],
 demo=HEAD+'''
e = extractor(JOSA, base_noun_dictionary=['사과', '대학', '나무'])
r = e.train_extract(['사과대학나무 사과대학나무'], min_frequency=1)
assert '사과대학나무' in r, r
'''),
dict(id='newsnoun-dictionary-stale', property='C34',
 needs='two trainings, and a noun of the first extraction that is not found by the second',
 breaks='a noun of an earlier extraction keeps its old judgement',
 edits=[(NN,"            if not (noun in self._noun_scores_postprocessed):\n                self.noun_dictionary[noun] = self.predict(noun)","            if not isinstance(self.noun_dictionary[noun], NewsNounScore) and not (noun in self._noun_scores_postprocessed):\n                self.noun_dictionary[noun] = self.predict(noun)")],
 demo=HEAD+'''
e = extractor(JOSA)
r = e.train_extract(['사과은 사과이 사과을 사과에서'], min_frequency=1)
assert r['사과'].frequency == 4, r
r = e.train_extract(['나무은 나무이 나무을 나무에서'], min_frequency=1)
assert r['사과'].frequency == 0, r
'''),
dict(id='newsnoun-feature-max', property='C34',
 needs='two predictor files that score the same right part differently, the larger score first',
 breaks='the last file wins instead of the larger score',
 edits=[(NN,"                        self.r_scores[r] = max(self.r_scores[r], score)","                        self.r_scores[r] = score if len(r) > 1 else max(self.r_scores[r], score)")],
 demo=HEAD+'''
d = tempfile.mkdtemp()
try:
    for n, v in (('a', 1.0), ('b', 0.25)): open(d + '/' + n, 'w', encoding='utf-8').write('에서\\t%f\\n' % v)
    e = NewsNounExtractor(predictor_fnames=[d + '/a', d + '/b'], verbose=False)
finally:
    for n in 'ab': os.remove(d + '/' + n)
    os.rmdir(d)
e.train(['사과에서 사과에서'])
assert e.predict('사과').score == 1, e.predict('사과')
'''),
]
