From 470fc519f79c1e75e2cb77ed1f08f1a997ed0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 01/56] fix: soynlp.utils.__all__ names every exported function

A missing comma concatenated two names, so `from soynlp.utils import *` raised AttributeError.
---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From 544374194a0d736dc11125c5497afbf8ce3d310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 02/56] fix: check_dirs creates the missing directory of a path

The condition was inverted, so no directory other than '.' was ever created.
---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..7defb87 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -24,7 +24,7 @@ def get_process_memory():
 
 def check_dirs(filepath):
     dirname = os.path.dirname(filepath)
-    if dirname and dirname == '.' and not os.path.exists(dirname):
+    if dirname and dirname != '.' and not os.path.exists(dirname):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
-- 
2.43.0


From 738da702d67815a983c4270555f58f51dad58f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 03/56] fix: LRGraph built from sentences counts each eojeol
 once per split

Each (L, R) split was weighted by the length of L instead of 1.
---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 7defb87..7f0806f 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -347,7 +347,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 44ae8b9b369d5f972dcacfe702dff37bbfe92768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 04/56] fix: LRGraph.add_lr_pair accepts an L or R the graph
 has not seen

The inner mappings are plain dicts, so any new L, R or pair raised KeyError.
---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 7f0806f..3d2d1c1 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -383,9 +383,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From 6b67fe2428eaf612d50b8b00503a441e08baaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 05/56] fix: LRGraph reset, copy and load handle an empty graph

Reset was a no-op on a graph that started empty, and copying or loading an
empty graph raised IndexError.
---
 soynlp/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 3d2d1c1..a2b6082 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -358,6 +358,8 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
+        if not lrgraph:
+            return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
@@ -374,7 +376,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
-- 
2.43.0


From d3247e1351c3dadb16224f6b571b603e3362d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 06/56] fix: EojeolCounter.to_lrgraph honours
 ignore_one_syllable

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index a2b6082..6dc76fc 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -281,7 +281,8 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length,
+            r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From b8dbd2094c5ffaa982f35514c4b35356fae810aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 07/56] fix: DoublespaceLineCorpus on an empty file has length
 0

The loop variable was unbound, so the constructor raised with a limit and
len() returned -1 without one.
---
 soynlp/utils/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 6dc76fc..5dc3bfd 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
-- 
2.43.0


From ccdbacfe44aebe5ea5b30dfa92b4d7c52cd6087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 08/56] fix: DoublespaceLineCorpus applies num_doc when the
 documents hold no sentence

A computed sentence limit of 0 was read as 'no limit', so iteration yielded
the whole file while len() was 0.
---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 5dc3bfd..8dc3619 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -173,6 +173,8 @@ class DoublespaceLineCorpus:
                 continue
 
             # yield sents
+            if (self.num_doc > 0) and (doc_idx >= self.num_doc):
+                break
             for sent in doc.split('  '):
                 if (self.num_sent > 0) and (num_sent >= self.num_sent):
                     stop = True
-- 
2.43.0


From 9b741f6245a409bd8428b84211a5ad2ce4ce8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 09/56] fix: most_similar returns at most topk items

When the query was not among its own topk+1 nearest (duplicate vectors) one
item too many came back.
---
 soynlp/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 8dc3619..9f78941 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -73,9 +73,10 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
     sim_idxs = dist.argsort()
+    sim_idxs = [idx for idx in sim_idxs if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From 1fd0d7f0fcca9b1667028bf410e21ae37f9608f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 10/56] fix: emoticon_normalize keeps syllables next to a
 consonant emoticon
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A syllable beside a lone consonant that did not repeat it was dropped
('안녕ㅋㅋ' became '안ㅋㅋ'), and a final consonant was lost after 'ㅋ쿵'.
---
 soynlp/normalizer/_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..81b2d93 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,15 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
-            if (cho == sent[i-1]):
+            if (cho == sent[i-1]) and (jong == ' '):
                 sent_.append(cho)
                 sent_.append(jung)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From ddb88f2ee80d6c095b5847e496f7125a75f98ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 11/56] fix: levenshtein keeps the substitution costs when the
 first string is shorter

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..8d67be2 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,7 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        return levenshtein(s2, s1, {(c2, c1):c for (c1, c2), c in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 9a5d1a6bd8658f3b017aa1d35e63f3f887306e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 12/56] fix: MaxScoreTokenizer reports the dictionary score of
 every token

Eojeols of at most two characters and single characters between two words
always got the default score, so NounMatchTokenizer lost exact two-syllable nouns.
---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..8a9b849 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,8 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            score = self._scores.get(subtoken, self._ds)
+            adds.append((subtoken, b, e, score, e - b))
         
         return adds
 
-- 
2.43.0


From 4863404249311bb9e1a2479bf9c98b966850acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 13/56] fix: MaxLRScoreTokenizer does not crash on an R word
 outside an L+R pair

It read a MaxScoreTokenizer attribute that does not exist.
---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 8a9b849..a1406ad 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -452,7 +452,7 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer._scores[w]])
             else:
                 words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
         return words_
\ No newline at end of file
-- 
2.43.0


From d5d09c01693c17f433c9ad11473a5eee7092c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 14/56] fix: MaxLRScoreTokenizer does not repeat the last R
 part

The tail after the last word was taken from the end of its L part, so an R at
the end of the eojeol was output twice.
---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index a1406ad..f02ab3d 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -417,7 +417,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -435,7 +435,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
-- 
2.43.0


From fd49a79da94586b270b8b25e4dc2f33da75025a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 15/56] fix: MaxLRScoreTokenizer gives subwords outside L+R
 pairs their own offsets

---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index f02ab3d..60b6518 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -452,7 +452,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer._scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.base_tokenizer._scores[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 4478b67a22b3740ef78737c38dc11eb26fa437e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 16/56] fix: RegexTokenizer does not split english words after
 an s

A misplaced bracket made the pattern prefer ending a word at its last s
('west' became 'wes', 't').
---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 60b6518..ad0a070 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -16,7 +16,7 @@ class RegexTokenizer:
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
-            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
+            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+(?:[`']s)?", re.UNICODE))
         ]
         
         self.doublewhite_pattern = re.compile('\s+')
-- 
2.43.0


From 09a4587e1b9c905d1b5936760f4cc2ff1b907f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 17/56] fix: NounMatchTokenizer scores each compound by its own
 nouns

The score of an earlier compound leaked into the next one, and an empty word
was output before a noun that does not start the eojeol.
---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From 79d7b38c6688b363bdd0065bb3359c917cf93d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 18/56] fix: BaseVectorizer counts term frequency, not document
 frequency, for min_tf and max_tf

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 7d0f7eee341344441471985a27f4cc4f9e7b12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 19/56] fix: sent_to_word_contexts_matrix always returns a
 (n_vocabs, n_vocabs) matrix

Trailing words without a context were cut off, and an input without any
co-occurrence raised ValueError.
---
 soynlp/vectorizer/_word_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..22df154 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -113,7 +113,8 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From bd2853e56c55deee3130e19b5d209a9de4fcc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 20/56] fix: Bigram counts unigrams by frequency

The pmi and mikolov scores divide by unigram frequencies, but each distinct
bigram was counted once.
---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..edcb6b1 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From 1e39d9221c3cf9f302edc0dd4f5d845be03f1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 21/56] fix: Bigram.extract returns at most topk bigrams

---
 soynlp/word/_phrase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index edcb6b1..3e67f8a 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -92,6 +92,9 @@ class Bigram:
             if pmi >= threshold:
                 pmis[bigram] = pmi
 
+        if topk > 0:
+            pmis = dict(sorted(pmis.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
         return bigrams
@@ -99,7 +102,7 @@ class Bigram:
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
         if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
+            bigrams = sorted(bigrams, key=lambda x:-x[1])[:topk]
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
         return bigrams
 
@@ -116,6 +119,9 @@ class Bigram:
             if s >= threshold:
                 scores[bigram] = s
 
+        if topk > 0:
+            scores = dict(sorted(scores.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
         return bigrams
\ No newline at end of file
-- 
2.43.0


From d35d3cb6fad63e8820a9a4af4c2b86f7f8dce238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 22/56] fix: LREvaluator returns the selected words in eojeol
 order

They were sorted by the text of R instead of by position, so the tagger output
words out of order and the unknown-word postprocessor repeated or lost text.
---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From 80bf8433e186db42e1236d01e80b984843751f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 23/56] fix: UnknowLRPostprocessor keeps an eojeol without any
 known word

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From eb676c999ec96a39e035f9c249dd49ff1a7a5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 24/56] fix: Dictionary stores the words of a new tag as its
 own set

A list given for a new tag was stored as it is, so the next add_words or
remove_words raised, and a set was shared with the caller.
---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..4a7af04 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 3a05ba8d1d4b6158060d2d4ea7ee9d521abd7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 25/56] fix: Lemmatizer.candidates calls the existing
 lemma_candidate function

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From bfa032ac42cf8793d9a2296be56ba3c313a9e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 26/56] fix: LRNounExtractor_v2 accepts the postprocessing
 argument

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..3a90b8e 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From 0ad8cf831ea2c40e78cd3d0d21f85d49256030b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 27/56] fix: LRNounExtractor_v2 reports frequency and score of
 compounds in order

Compounds were stored as (score, frequency) among (frequency, score) pairs, so
the result swapped both and the minimum frequency was compared with a score.
---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 3a90b8e..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From dffdd149e80423593b31ad4a5920a8daeaabc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 28/56] fix: LRNounExtractor scores compounds by the nouns
 found so far

The nouns were passed in place of the minimum score, so a noun made of known
nouns never got a score from its parts.
---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..9fc7ad6 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -150,7 +150,7 @@ class LRNounExtractor:
             if len(word) <= 1:
                 continue
 
-            score = self.predict(word, nouns)
+            score = self.predict(word, min_noun_score, nouns)
 
             if score[0] < min_noun_score:
                 continue
-- 
2.43.0


From ff0ad23ef0135e5d14c9e37b6b87486c969c639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 29/56] fix: PredicatorExtractor applies min_eojeol_frequency
 to sentences

After counting with the given minimum, the default of 2 was applied again.
---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..bf696d6 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -213,7 +213,7 @@ class PredicatorExtractor:
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         eojeol_counter._counter = {
-- 
2.43.0


From 65e2cc17d6be71d80c5ddd03ccf59879e19eab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 30/56] fix: ChatPOSExtractor keeps the stems of the compounds
 it accepts

The set was built from the wrong stems minus the wrong stems, so it was always empty.
---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From 7c9b82f31206df4224dd471a3588bf8d386e0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 31/56] fix: LRGraph reset leaves a graph without an origin
 alone, as before 6b67fe2

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 9f78941..f3a1d0d 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -381,7 +381,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if self._lr_origin is None:
+        if not self._lr_origin:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
-- 
2.43.0


From 354ae669f450d0b5fc5c1fcce2371b6cdeacb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 32/56] fix: MaxLRScoreTokenizer compares an R part with the L
 score of the next word

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index ad0a070..7443321 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -389,8 +389,8 @@ class MaxLRScoreTokenizer:
                     if overlappped:
                         break
                     for word in begin_to_words.get(b, []):
-                        score_diff = word[-2] + self.Pl.get(word[0], 0) - score_r
-                        if (self.ensurable_score_l <= word[-2]) or (score_diff > self.ensurable_score_lr_diff):
+                        score_diff = word[8] + self.Pl.get(word[0], 0) - score_r
+                        if (self.ensurable_score_l <= word[8]) or (score_diff > self.ensurable_score_lr_diff):
                             overlappped = True
                             break
                 if overlappped:
-- 
2.43.0


From 97fa2c0885fafc0a6e1a722a7b55640d74ce35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 33/56] fix: MaxScoreTokenizer segments eojeols of more than a
 hundred words

---
 soynlp/tokenizer/_tokenizer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 7443321..6485625 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -177,7 +177,6 @@ class MaxScoreTokenizer:
 
     def _find(self, scores):
         result = []
-        num_iter = 0
         
         while scores:
             word, b, e, score, r = scores.pop(0)
@@ -194,9 +193,6 @@ class MaxScoreTokenizer:
             for i in reversed(removals):
                 del scores[i]
 
-            num_iter += 1
-            if num_iter > 100: break
-
         return sorted(result, key=lambda x:x[1])
     
     def _add_inter_subtokens(self, token, result):
-- 
2.43.0


From daedb9ede74e927d658848d6d5c5e0c6136e6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 34/56] fix: WordExtractor scores the neighbours of words of
 the maximum length

---
 soynlp/word/_word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..c13e0d1 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -190,7 +190,7 @@ class WordExtractor:
         def get_entropy_table(parse, sorted_by_length, sorted_by_length_a, max_length, counter, counter_a):
             num_sum = sum((len(words) for length, words in sorted_by_length.items()))
             be = {}
-            for word_len in range(2, max_length):
+            for word_len in range(2, max_length + 1):
                 words = sorted_by_length.get(word_len, [])
                 extensions = defaultdict(lambda: [])
                 for word in words:
-- 
2.43.0


From fe1daf6e993f48b270d94ba91a358a7ca505c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 35/56] fix: Bigram.train accepts an empty corpus

---
 soynlp/word/_phrase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 3e67f8a..04cb344 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -39,6 +39,7 @@ class Bigram:
             return bigrams
 
         self._counter = {}
+        i_sent = 0
 
         for i_sent, sent in enumerate(sentences):
 
-- 
2.43.0


From 426df7bb85195b4c00b4efa16f54195ded876d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 36/56] =?UTF-8?q?fix:=20conjugate=20contracts=20=E3=85=8E?=
 =?UTF-8?q?=20only=20with=20an=20ending=20that=20begins=20with=20a=20vowel?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..e123d5b 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -259,7 +259,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # ㅎ (축약) 불규칙 할용
     # 파랗 + 았다 -> 파랬다 / 시퍼렇 + 었다 -> 시퍼렜다
     if ( (l_last[2] == 'ㅎ' and l_last_ != '좋') and
-         (r_first[0] == 'ㅇ' and r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
+         (r_first[0] == 'ㅇ' and (r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ')) ):
         l = stem[:-1] + compose(l_last[0], 'ㅐ' if r_first[1] == 'ㅏ' else 'ㅔ', r_first[2])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From cfb3706a150981523dc6519bfbecd251aaf737b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 37/56] =?UTF-8?q?fix:=20the=20surface=20forms=20of=20a=20s?=
 =?UTF-8?q?tem=20in=20=ED=91=B8=20include=20=ED=8D=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e123d5b..8e7dc3a 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -350,7 +350,8 @@ def _conjugate_stem(stem, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ':
         if l_last_ == '푸':
-            l = '퍼'
+            candidates.add(stem[:-1] + '퍼')
+            candidates.add(stem[:-1] + '펐')
         else:
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', ' '))
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', 'ㅆ'))
-- 
2.43.0


From 90853df4c81e8afbbf1d23693a5760c22074d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 38/56] =?UTF-8?q?fix:=20=ED=91=B8=20keeps=20the=20final=20?=
 =?UTF-8?q?of=20the=20ending=20it=20contracts=20with=20(=ED=91=B8=20+=20?=
 =?UTF-8?q?=EC=97=88=EB=8B=A4=20->=20=ED=8E=90=EB=8B=A4)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 8e7dc3a..1ce749e 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -161,7 +161,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ' and r_first[0] == 'ㅇ' and r_first[1] == 'ㅓ':
         if l_last_ == '푸':
-            l = stem[:-1] + '퍼'
+            l = stem[:-1] + compose('ㅍ', 'ㅓ', r_first[2])
         else:
             l = stem[:-1] + compose(l_last[0], 'ㅝ', r_first[2])
         r = ending[1:]
-- 
2.43.0


From 591027815069b738701bd6e3fe20acb4dbb9a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 39/56] fix: Dictionary accepts tags and additions without
 words

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 4a7af04..5b92513 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -24,7 +24,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max([0] + [len(word) for words in pos_dict.values() for word in words])
 
     def get_pos(self, word):
         tags = []
@@ -43,7 +43,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max([0] + [len(word) for word in words])
         if self.max_length < max_length:
             self.max_length = max_length
 
-- 
2.43.0


From 96f2595cad242a7b30efa819512a1768ea7ceeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 40/56] fix: LREvaluator weighs is_verb by the Verb tag

---
 soynlp/postagger/_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index df3ef29..19ed48b 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -82,7 +82,7 @@ class LREvaluator(BaseEvaluator):
         is_noun_phrase = candidate.l_tag == 'Noun'
         lr_are_known = candidate.l_tag is not None and candidate.r_tag is not None
         # tag preference
-        is_verb = candidate.l_tag == 'Adverb'
+        is_verb = candidate.l_tag == 'Verb'
         is_adjective = candidate.l_tag == 'Adjective'
         # length
         l_len = candidate.m - candidate.b
-- 
2.43.0


From 9b2410bc6448a25a2565e5131a8c8341dfa8feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 41/56] fix: SimpleTagger debug mode works with candidates of
 several words

---
 soynlp/postagger/_tagger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 8f5e839..b8016c7 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -39,7 +39,8 @@ class SimpleTagger(BaseTagger):
             
             if debug:
                 scored_candidates = [(c, self.evaluator.evaluate(c)) for c in candidates]
-                scored_candidates = sorted(scored_candidates, key=lambda x:(x[0].b, x[1]))
+                scored_candidates = sorted(scored_candidates,
+                    key=lambda x:(x[0][0].b if isinstance(x[0], list) else x[0].b, x[1]))
                 debug_.append(scored_candidates)
         
         # Flatten in a sentence
-- 
2.43.0


From a6d5b45737071c3f849ecf9274791789857db97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 42/56] fix: domain particle extraction reads noun scores as
 (support, score)

---
 soynlp/noun/_josa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..1b22ab1 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score)
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
-- 
2.43.0


From b818e651f06b706883630f654e579b1d2eaa81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 43/56] fix: LRNounExtractor_v2 reports coverage of an empty
 corpus instead of raising

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..3eb947f 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0


From c1d351ba0c2f60d071cf2a99463cf8c81b830e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 44/56] fix: LRNounExtractor counts right parts of
 max_right_length characters

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 9fc7ad6..4661a3d 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -96,7 +96,7 @@ class LRNounExtractor:
                 token_len = len(token)
                 for i in range(1, min(self.max_left_length, token_len)+1):
                     wordset_l[token[:i]] += 1
-                for i in range(1, min(self.max_right_length, token_len)):
+                for i in range(1, min(self.max_right_length, token_len-1)+1):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % 1000 == 999):
                 message = 'scanning {} / {} sents'.format(i+1, len(sents))
-- 
2.43.0


From 4231971c388938b131616b6e156654c38ee78066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 45/56] fix: StemExtractor derives stems from known endings,
 with frequency and score in their places

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..997e5bd 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,11 +250,11 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, freq0) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             freq0, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From b48291a1fbf5ce83847a02dea080f45f8ffeb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 46/56] fix: PredicatorExtractor keeps eojeols at
 min_predicator_frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bf696d6..5e87471 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -329,7 +329,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From 883800683c8a883d743a62a5bb1cdad47c021ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 47/56] fix: removing a wrong ending keeps the other lemmas of
 a predicator

---
 soynlp/predicator/_predicator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5e87471..a8e173f 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -452,12 +452,11 @@ class PredicatorExtractor:
                 if not (word in lemmas):
                     continue
                 predicator = lemmas[word]
-                if len(predicator.lemma) == 1:
-                    lemmas.pop(word)
+                remains = {lemma for lemma in predicator.lemma if lemma[1] != eomi}
+                if remains:
+                    lemmas[word] = Predicator(predicator.frequency, remains)
                 else:
-                    lemmas[word] = Predicator(
-                        predicator.frequency,
-                        {lemma for lemma in predicator.lemma if lemma[1] != eomi})
+                    lemmas.pop(word)
 
         return lemmas
 
-- 
2.43.0


From f391085698032b174e79c5700290a124fabd9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 48/56] fix: PredicatorExtractor reports coverage of an empty
 corpus instead of raising

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index a8e173f..34c5219 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -389,7 +389,7 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
+            perc = '%.3f' % (100 * self._count_of_covered_eojeols / max(1, self._count_of_eojeols))
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From 8b6cd21c72c4cb1fba483fc4728f1e09bbd619be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 49/56] fix: PredicatorExtractor does not add extracted endings
 to the set it is given

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 34c5219..083ea6a 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -53,7 +53,7 @@ class PredicatorExtractor:
         self._verb_stems = verbs
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = {eomi for eomi in eomis}
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
-- 
2.43.0


From e969b3ef0980e75938c0bb8dd13cd70d2fa84894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 50/56] fix: NewsNounExtractor accepts a base_noun_dictionary
 (was a NameError)

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..c21c87a 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,7 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self.noun_dictionary = dict.fromkeys(base_noun_dictionary or ())
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
-- 
2.43.0


From c4b98663ec75b2080ad68a1cec250ed7321e1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 51/56] fix: NewsNounExtractor loads its verb and adjective
 dictionary from where it is

---
 soynlp/noun/_noun_news.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index c21c87a..32b3004 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -32,8 +32,8 @@ class NewsNounExtractor:
         print(directory)
 
         self._vdictionary = set()
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Verb.txt' % directory))
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Adjective.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Verb.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Adjective.txt' % directory))
 
     def _load_predictor(self, fname):
         try:
-- 
2.43.0


From ecec31d97ef87a251ea642380a5c8fd6b723d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 52/56] fix: NewsNounExtractor tries every cut of an eojeol
 into noun and predicator

---
 soynlp/noun/_noun_news.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 32b3004..7d57bc7 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -162,9 +162,9 @@ class NewsNounExtractor:
             n = len(l)
             if n < 4: return None
             for e in range(2, n-1):
-                (l, r) = (l[:e], l[e:])
-                if (self.predict(l)[0] >= min_noun_score) and (r in self._vdictionary):
-                    return (l, r)
+                (l0, r) = (l[:e], l[e:])
+                if (self.predict(l0)[0] >= min_noun_score) and (r in self._vdictionary):
+                    return (l0, r)
             return None
 
         candidates = {l:c for l,c in self.lcount.items()
-- 
2.43.0


From c9280e7ceeb05558839ec53a871d4467fcac8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 53/56] fix: min_feature_proportion of NewsNounExtractor limits
 the feature proportion, not the frequency

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 7d57bc7..4cbf06b 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -241,7 +241,7 @@ class NewsNounExtractor:
         self._noun_scores_ = dict(
             filter(
                 lambda x:((x[1][0] > min_noun_score) and
-                          (x[1][1] > min_feature_proportion) and
+                          (x[1].feature_proportion > min_feature_proportion) and
                           (len(x[0]) > 1)),
                        noun_scores.items()
             )
-- 
2.43.0


From 2644494886393d70f7fbb4e639ef83fa5595fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 54/56] fix: POSExtractor passes arguments its extractors know

---
 soynlp/postagger/_pos_extractor.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 07b3869..ca7efbd 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -39,23 +39,22 @@ class POSExtractor:
     def _extract_nouns(self, sentences):
 
         noun_extractor = LRNounExtractor_v2(
-            l_max_length = self.l_max_length,
-            r_max_length = self.r_max_length,
-            min_eojeol_count = 2,
+            max_left_length = self.l_max_length,
+            max_right_length = self.r_max_length,
             min_num_of_features = 2,
-            max_count_when_noun_is_eojeol = 15,
+            max_frequency_when_noun_is_eojeol = 15,
             extract_compound = False,
             logpath = self.logpath,
             extract_pos_feature = True,
             verbose = self.verbose
         )
 
-        noun_extractor.train(sentences)
+        noun_extractor.train(sentences, min_eojeol_frequency = 2)
 
         nouns = noun_extractor.extract(
             reset_lrgraph = False,
-            min_count = 10,
-            minimum_noun_score = 0.4,
+            min_noun_frequency = 10,
+            min_noun_score = 0.4,
         )
 
         self._lrgraph = LRGraph(
@@ -83,10 +82,8 @@ class POSExtractor:
             verbose = self.verbose
         )
 
-        predicator_extractor.train(sentences_or_lrgraph, min_eojeol_count=2)
-
-        predicators = predicator_extractor.extract(
-            candidates=None, min_count=10, reset_lrgraph=True,
+        predicator_extractor.train(
+            sentences_or_lrgraph, min_eojeol_frequency=2,
             # Eomi extractor
             min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
             # Stem extractor
@@ -94,6 +91,10 @@ class POSExtractor:
             min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100
         )
 
+        predicators = predicator_extractor.extract(
+            candidates=None, min_predicator_frequency=10
+        )
+
         self._num_of_covered_eojeols += predicator_extractor._num_of_covered_eojeols
 
         self.predicator_extractor = predicator_extractor
-- 
2.43.0


From 6603ab00dbf305dbf9570159cbc69de3b39e314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 55/56] fix: pmi_memory_friendly handles its probabilities as
 arrays, as pmi does

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..22b9bb0 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From a808f2bbad3a333f2a15c30a1b4186576f4abf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:13 +0000
Subject: [PATCH 56/56] fix: debug output of lemma_candidate shows the
 predefined lemmas instead of failing

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 3379f41..61faa03 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -226,7 +226,7 @@ def lemma_candidate(l, r, predefined=None, debug=False):
         for stem in predefined[(l, r)]:
             candidates.add(stem)
             if debug:
-                debug_message('Predefined', l_stem, r_canon)
+                debug_message('Predefined', *stem)
 
     # check whether lemma is conjugatable
     candidates_ = set()
-- 
2.43.0

