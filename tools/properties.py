"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})
H = 'soynlp/hangle/_hangle.py'
T = 'soynlp/tokenizer/_tokenizer.py'
U = 'soynlp/utils/utils.py'

prop('C01', 'Hangul syllables decompose and compose losslessly; character classes are exact',
     'Decomposing a character yields its (initial, vowel, final) letters for a complete Hangul syllable (final is a blank when there is none), the letter in its own slot and blanks elsewhere for a lone Hangul consonant or vowel, and nothing for any other character; composing the three letters of a syllable yields that syllable again. The is-Korean, is-complete-Korean, is-jaum, is-moum, is-english, is-number and is-punctuation predicates hold exactly on their documented code point ranges.',
     ['inputs'], 'every Unicode code point; every (initial, vowel, final) triple',
     'no test calls these directly; 11172 syllables times 3 letters and the class boundaries cannot be sampled by hand',
     [H], [('decompose/compose arithmetic', H), ('character range predicates', H)],
     ['soynlp.hangle.decompose', 'soynlp.hangle.compose', 'soynlp.hangle.character_is_*'])
prop('C02', 'ConvolutionHangleEncoder encodings decode back to the cleaned text',
     'Encoding first keeps Hangul syllables, lone letters, ASCII digits and blanks of the text (any other character becomes a blank, blanks collapse and are trimmed) and then gives one entry per character: the indices of the three letters of a syllable, or the single index of a lone letter, digit or blank; different characters have different entries. Decoding the entries gives the cleaned text back, and the matrix form has ones exactly at the listed indices of each row. Decoding rejects indices outside their slot\'s range and writes the unknown marker for entries of any other size.',
     ['inputs'], 'all texts over all code points',
     'no test touches the encoder',
     [H], [('jamo index tables and offsets', H)],
     ['ConvolutionHangleEncoder.encode', 'ConvolutionHangleEncoder.decode', 'ConvolutionHangleEncoder.onehot_to_image'])
prop('C03', 'Levenshtein, jamo Levenshtein, cosine and Jaccard distances are exact',
     'The edit distance between two strings is the cost of the cheapest way of turning the first into the second with insertions and deletions at cost one and substitutions at cost one or the cost given for that ordered pair; the jamo variant charges the substitution of one Hangul character by another a third of the edit distance of their letters. Cosine distance compares the multisets and Jaccard distance the sets of the units of the strings (characters, or what the given function returns); an empty string is at cosine distance two and Jaccard distance one.',
     ['inputs'], 'all pairs of strings, all substitution cost tables',
     'the existing tests have no distance test; optimal alignment quantifies over all edit scripts',
     ['soynlp/hangle/_distance.py'], [('row-by-row dynamic programme', 'soynlp/hangle/_distance.py')],
     ['soynlp.hangle.levenshtein', 'soynlp.hangle.jamo_levenshtein', 'soynlp.hangle.cosine_distance', 'soynlp.hangle.jaccard_distance'])
prop('C04', 'LTokenizer splits each eojeol at its best-scoring left part',
     'Each eojeol longer than two characters is split into L + R where L is the prefix of at least two characters with the best score (words without a score get the default score), the longest one among equals and, with a tolerance, the longest one whose score is within the tolerance of the best; shorter eojeols stay whole. L + R always spells the eojeol, and flatten, remove_r and calling the object only change the presentation.',
     ['inputs', 'histories'], 'all sentences, score dictionaries, default scores, tolerances, flatten/remove_r combinations; repeated calls on one object',
     'tests try one dictionary and one sentence with well separated scores and no ties, tolerance or odd white space',
     [T], [('token_to_lr', T)], ['LTokenizer.tokenize', 'LTokenizer.__call__'])
prop('C05', 'MaxScoreTokenizer segments every eojeol losslessly, best score first',
     'The tokens of an eojeol are non-empty, contiguous, in order and spell it, each carries its own offsets, length and dictionary (or default) score. They are the words obtained by repeatedly taking the best-scoring candidate word (longest, then leftmost on ties) that overlaps none taken before, plus the pieces left uncovered.',
     ['inputs', 'histories'], 'all sentences, score dictionaries (including negative scores and ties), maximum lengths and default scores; repeated calls on one object',
     'tests segment one sentence with one dictionary and compare words only',
     [T], [('candidate list, greedy pick, gap filling', T)], ['MaxScoreTokenizer.tokenize', 'MaxScoreTokenizer.__call__'],
     [{'name': 'pool', 'meaning': 'candidates not yet taken or discarded', 'where': T}])
prop('C06', 'RegexTokenizer splits at character class borders and loses nothing',
     'The tokens of each whitespace-separated part, in order, spell exactly that part; a maximal run of Hangul syllables, of lone consonants, of lone vowels, of Latin letters (with an attached \'s or `s), or a number with sign and decimal point is a token of its own, and the characters between such runs stay together. Flattening only concatenates the per-part token lists.',
     ['inputs'], 'all texts over all scripts, signs, digits, points and apostrophes',
     'one example sentence in the docstring',
     [T], [('class patterns and space insertion', T)], ['RegexTokenizer.tokenize', 'RegexTokenizer.__call__'])
prop('C07', 'MaxLRScoreTokenizer explains each eojeol as contiguous L+R pairs by score',
     'The words returned for an eojeol are contiguous and spell it, each tagged L or R; known L words extended by a known R word are chosen greedily by total score (dictionary plus preference) without overlap after dropping L words covered by a comparable longer L and R parts that collide with a strong L word, and uncovered pieces are segmented on the R dictionary. With details requested, every entry carries its own offsets, lengths and scores.',
     ['inputs', 'histories'], 'all eojeols, L and R dictionaries (given, or built from the L-R graph by a tokenizer_builder), preference tables and thresholds; repeated calls on one object',
     'no existing test constructs it',
     [T], [('candidate generation, L subset removal, R overlap check, greedy choice, subword fallback', T)],
     ['MaxLRScoreTokenizer.tokenize', 'MaxLRScoreTokenizer.__call__'])
N = 'soynlp/tokenizer/_noun_tokenizer.py'
prop('C08', 'Noun match tokenizers return the best known nouns at their true positions',
     'NounLMatchTokenizer returns for each eojeol the longest known noun it starts with followed by the longest known nouns directly after it, joined into one word or listed separately, and nothing for an eojeol that starts with no known noun. NounMatchTokenizer returns the nouns with a positive score of the best-first segmentation of the eojeol (best score, then longest, then leftmost, no overlap) at the offsets where they occur; with concatenation, nouns that touch are joined into one compound with the best score of its parts. No empty word is ever returned.',
     ['inputs', 'histories'], 'all sentences, noun score tables and option combinations; repeated calls on one object',
     'no test for either class',
     [N], [('longest match and concatenation', N)], ['NounLMatchTokenizer.tokenize', 'NounMatchTokenizer.tokenize'])
NM = 'soynlp/normalizer/_normalizer.py'
prop('C09', 'Text filters keep exactly the documented characters',
     'Each filter (only Hangul, Hangul and numbers, general text, and the configurable normalizers) replaces every character outside its documented set by a blank and collapses white space to single blanks with none at the ends, keeping every allowed character in order, so that filtering twice changes nothing more. Trimming to the last Hangul character returns the prefix of the word up to it; the L-R graph normalizer filters the text, trims each word so, and drops words without Hangul.',
     ['inputs', 'configurations'], 'all texts; all option combinations of the configurable normalizer',
     'tests call each filter on one string',
     [NM, H], [('character class patterns', NM)],
     ['only_hangle', 'only_hangle_number', 'only_text', 'hangle.normalize', 'remain_hangle_on_last', 'normalize_sent_for_lrgraph'])
prop('C10', 'Repeat and emoticon normalization shortens runs and nothing else',
     'Repeat normalization replaces every run of three or more equal word characters by the given number of copies and leaves all other text alone; emoticon normalization before that splits a syllable exactly where its letters continue in the lone letters next to it, so that no letter is lost or invented and every other syllable is kept. The tokenizer variant does so word by word and cuts four or more copies of a unit of up to four characters to the given number. White space ends up single and trimmed.',
     ['inputs', 'configurations'], 'all texts and repeat counts',
     'tests try two or three laughing strings',
     [NM, 'soynlp/tokenizer/_normalizer.py'], [('repeat pattern, jamo fusion loop', NM)],
     ['repeat_normalize', 'emoticon_normalize', 'tokenizer.normalize'])
prop('C11', 'EojeolCounter holds the filtered exact eojeol counts of its sentences',
     'After counting, the counter holds exactly the eojeols of the (preprocessed) sentences with their number of occurrences, without those longer than the maximum length, below the minimum count, outside the required coverage or matching a filtering check, and the totals, lookups, items and size agree with it; with a pruning period, eojeols that are rare at a checkpoint lose their count so far. Saving and loading gives an equal counter.',
     ['inputs', 'histories', 'configurations'], 'all sentence lists, filters, pruning periods and preprocessing functions; sequences of count, coverage, checkers, save, load',
     'tests count one corpus with default settings',
     [U], [('per-sentence counting, pruning, filtering', U)], ['EojeolCounter'],
     [{'name': 'counts', 'meaning': 'eojeol to number of occurrences', 'where': U}])
prop('C12', 'LRGraph keeps its left and right views the same weighted relation',
     'After any sequence of adding and removing eojeols and L-R pairs, the forward (L to R) and backward (R to L) views describe the same positive counts: adding an eojeol adds its count to every one of its splits, adding a pair adds to that pair, removing subtracts and drops what reaches zero and ignores what is absent. Lookups return the pairs of the asked side, most frequent first, cut to the requested number.',
     ['histories', 'inputs'], 'all interleavings of add/remove/lookup calls over several eojeols and counts',
     'tests build one graph and never remove from it or look at the backward view after changes',
     [U], [('paired updates of the two dictionaries', U)], ['LRGraph.add_eojeol', 'LRGraph.add_lr_pair', 'LRGraph.remove_eojeol', 'LRGraph.remove_lr_pair', 'LRGraph.get_l', 'LRGraph.get_r'],
     [{'name': 'lr / rl', 'meaning': 'count of each (L, R) pair seen from both sides', 'where': U}])
prop('C13', 'LRGraph reset restores its origin; copies and saved graphs are independent',
     'reset brings the graph back to the relation it was built with, however it was changed since, unless it has no such origin (built empty, frozen, or a compact copy), in which case reset changes nothing. A copy is a graph equal to the relation the original was built with whose later changes do not affect the original, and the other way round. Saving a graph writes the relation it was built with and loading that file into any graph makes it hold that relation on both sides.',
     ['histories'], 'all sequences of add, remove, reset, freeze, copy, save and load on several graphs',
     'no test calls reset, copy, save, load or freeze after a change',
     [U], [('origin kept apart from the working relation', U)], ['LRGraph.reset_lrgraph', 'LRGraph.freeze', 'LRGraph.copy_compatified', 'LRGraph.save', 'LRGraph.load'],
     [{'name': 'origin', 'meaning': 'the relation at construction', 'where': U}])
prop('C14', 'Eojeol counts and L-R graphs convert into each other without loss',
     'The graph made from an eojeol counter has, for every counted eojeol and every split allowed by the L and R length limits and the one-syllable option, exactly the eojeol\'s count; building from a word dictionary or from sentences gives the same graph as from the counter. Converting the graph back to eojeol counts gives the counts of the eojeols within the length limits.',
     ['inputs', 'configurations'], 'all count tables, length limits and options',
     'one corpus, one setting',
     [U], [('split loops', U)], ['EojeolCounter.to_lrgraph', 'LRGraph', 'LRGraph.to_EojeolCounter'])
prop('C15', 'DoublespaceLineCorpus yields the documents and sentences of the file in order',
     'Iterating yields the stripped lines of the file in order (documents, blank lines included), or the non-empty stripped sentences that double spaces separate in them (sentences), at most the configured numbers of documents and sentences, skipping the header lines; the reported length equals the number of items a full iteration yields. Every iteration starts again from the beginning.',
     ['inputs', 'histories', 'configurations'], 'all files (blank lines, spaces, missing last newline, empty file), all limits, repeated and partial iterations, both modes',
     'tests read one small file with default limits',
     [U], [('line and sentence iteration, counting with limits', U)], ['DoublespaceLineCorpus.__iter__', 'DoublespaceLineCorpus.__len__'])
V = 'soynlp/vectorizer/_vectorizer.py'
prop('C16', 'BaseVectorizer counts term frequencies within its vocabulary limits',
     'Fitting keeps exactly the tokens whose corpus frequency and document frequency lie within the configured limits (limits below one are shares of the documents, rounded down), most frequent first, each with a distinct index; the matrix entry of a document and token is the number of times the token occurs in it. Transforming the fitted corpus again gives the same matrix, in memory or as MatrixMarket file, and the vocabulary lookups agree both ways, also after saving and loading. Encoding a document as list or bag and decoding it returns its known tokens. Shares out of range are refused.',
     ['inputs', 'configurations', 'histories'], 'all corpora, tokenizers, limits; fit/transform/encode/decode/save sequences',
     'tests vectorize one corpus with one setting',
     [V], [('scan, filter, sparse matrix assembly', V)], ['BaseVectorizer.fit_transform', 'BaseVectorizer.transform', 'BaseVectorizer.encode_a_doc_to_bow', 'BaseVectorizer.decode_from_bow'])
WC = 'soynlp/vectorizer/_word_context.py'
prop('C17', 'The word-context matrix counts co-occurrences within the window',
     'For words with at least the minimum frequency, entry (word, context) is the number of times the context word appears within the window of the word over all sentences, each time weighted one or, with dynamic weights, (window - distance + 1) / window; the matrix is square over the returned vocabulary, whose order is by frequency. Nothing is counted across sentence borders or for the word position itself.',
     ['inputs', 'configurations'], 'all sentence lists, window sizes, minimum frequencies, dynamic weights, verbose off/on',
     'tests check one shape on one corpus',
     [WC], [('vocabulary scan and window loop', WC)], ['sent_to_word_contexts_matrix'])
PM = 'soynlp/word/_pmi.py'
prop('C18', 'PMI values follow from the co-occurrence counts',
     'The PMI matrix has at (x, y) the logarithm of P(x,y) / (P(x) (P(y) + alpha)) for the counted pairs, drops values below the minimum (zero for positive PMI), and has the shape of the input. The marginal probabilities, returned beside it, are the row and column sums over the total; with beta below one the column probabilities are raised to beta and normalized first.',
     ['inputs', 'configurations'], 'all non-negative count matrices, minimum PMI, alpha and beta values',
     'tests check one matrix by type only',
     [PM], [('marginals, smoothing, threshold', PM)], ['soynlp.word.pmi', 'pmi_memory_friendly'])
PH = 'soynlp/word/_phrase.py'
prop('C19', 'Bigram extraction counts and scores adjacent word pairs exactly',
     'The extractor keeps the adjacent pairs whose count reaches the minimum frequency (rare pairs may be pruned at the checkpoints) and returns, with their counts, those whose score reaches the threshold, at most the requested number and no better one left out. The score is the count, the mikolov score or the PMI of the chosen mode, computed from the exact counts of the kept pairs and of the words at their places. Pairs never cross a sentence border.',
     ['inputs', 'configurations'], 'all sentence lists, minimum counts, thresholds, limits and modes',
     'no test',
     [PH], [('counting and scoring', PH)], ['soynlp.word.Bigram'])
W = 'soynlp/word/_word.py'
prop('C20', 'WordExtractor counts every left and right substring of the training eojeols',
     'After training, the left count of a string is the number of eojeols of two or more characters in the training sentences that begin with it (up to one more character than the maximum length), and the right count the number of those longer than it that end with it (up to the maximum length), without strings below the minimum count; with a pruning period, rare strings lose their count so far. Training again adds to the kept counts, unless told to start anew, and saving and loading keeps counts and settings. The words are the counted strings within the maximum lengths.',
     ['inputs', 'histories', 'configurations'], 'all corpora, length and count limits, several train calls, save/load',
     'tests train once on one corpus and look at one score',
     [W], [('left/right substring counters and pruning', W)], ['WordExtractor.train', 'WordExtractor.extract', 'WordExtractor.save', 'WordExtractor.load'])
prop('C21', 'WordExtractor scores are the defined functions of the counts',
     'Left (right) cohesion of a word is the (length - 1)-th root of its left (right) count over that of its first (last) character; its neighbours on a side are the characters that extend it there in the counts, and, apart from those, the first characters of the next (last of the previous) eojeol, cyclically within a sentence, seen at least twice: variety is their number, entropy their entropy. The all-words variants agree with the single-word ones for words up to the maximum length of their side. Extraction returns exactly the words within all thresholds and, if asked, without those the next longer kept word almost always continues.',
     ['inputs', 'configurations'], 'all corpora, words, thresholds and options',
     'tests look at one word\'s score on one corpus',
     [W], [('score functions', W)], ['WordExtractor.cohesion_score', 'WordExtractor.branching_entropy', 'WordExtractor.accessor_variety', 'WordExtractor.all_*', 'WordExtractor.word_scores', 'WordExtractor.extract'])
N2 = 'soynlp/noun/_noun_ver2.py'
prop('C22', 'LRNounExtractor_v2 extracts nouns by their known R features, longest first',
     'A candidate (a left part taken by a positive feature) is a noun exactly when the right parts it still takes pass the feature, score and frequency rules of predict, longer candidates claiming their eojeols before shorter ones; each noun comes with its frequency and score. Compounds are words that decompose into found nouns (optionally with a particle), post-processing removes only what its rules name, features may be extended with extracted particles, and without reset exactly the eojeols no noun claims remain in the graph.',
     ['inputs', 'configurations', 'histories'], 'all corpora and option combinations, repeated extraction, reset and feature updates',
     'tests check that one corpus yields more than zero nouns',
     [N2, 'soynlp/noun/_noun_postprocessing.py'], [('prediction with feature classes, longer-first extraction, compound decomposition', N2)],
     ['LRNounExtractor_v2.train_extract', 'LRNounExtractor_v2.predict', 'LRNounExtractor_v2.extract'])
N1 = 'soynlp/noun/_noun_ver1.py'
prop('C23', 'LRNounExtractor v1 noun scores are the weighted mean of feature scores',
     'The score of a word is the mean of the coefficients of the known right parts that follow it in the frequent part of the corpus, weighted by frequency and ignoring right parts covered by a longer known one, reported with the share of known right parts; a word with too few right parts takes the best score of its reading as two nouns, or as noun and right part over the threshold. Extraction returns the words over the threshold, without those that a noun and right part explain while cohesion falls, with the eojeols longer nouns leave to them as frequency, and repeats to the same result.',
     ['inputs', 'configurations', 'histories'], 'all corpora, thresholds and coefficient tables, repeated extraction',
     'tests check that one corpus yields more than zero nouns',
     [N1], [('L-R graph prediction and post-processing', N1)], ['LRNounExtractor.train_extract', 'LRNounExtractor.predict'])
CJ = 'soynlp/lemmatizer/_conjugation.py'
prop('C24', 'Conjugation applies every matching contraction rule to stem and ending',
     'Conjugating a stem and an ending yields exactly the surface forms the documented regular and irregular rules give for the last stem syllable and the first ending letters; each starts with the untouched part of the stem and ends with the untouched part of the ending, a contraction keeps the final of the ending, and a pair matched by no rule is plainly concatenated. An ending that begins with a lone ㄴ ㄹ ㅁ ㅂ ㅆ (in the chat variant any final) becomes the final of the stem, vowel harmony is enforced only when asked, and the surface forms of a stem are exactly the left parts these rules may leave.',
     ['inputs'], 'all pairs of stem and ending over complete syllables and leading jamo of endings',
     'tests try a few dozen of the millions of stem syllable/ending syllable pairs',
     [CJ], [('rule cascade', CJ)], ['soynlp.lemmatizer.conjugate', 'soynlp.lemmatizer.conjugate_chat', 'soynlp.lemmatizer._conjugate_stem'])
LM = 'soynlp/lemmatizer/_lemmatizer.py'
prop('C25', 'Lemmatization returns exactly the dictionary pairs that conjugate to the word',
     'Every (stem, ending) returned for a word combines a known stem and a known ending of the dictionary, and each candidate proposed for a split is one the documented inverse rules (plus the predefined table) give for that split; candidates are verified by conjugating them back. Every way of splitting the word is considered, and whatever conjugation forms from a stem and an ending covered by the inverse rules is found again.',
     ['inputs', 'configurations'], 'all words, stem and ending dictionaries and predefined tables',
     'tests lemmatize a few words with one dictionary',
     [LM], [('inverse rules and dictionary check', LM)], ['Lemmatizer.lemmatize', 'Lemmatizer.candidates', 'soynlp.lemmatizer.lemma_candidate'])
PD = 'soynlp/postagger/_dictionary.py'
prop('C26', 'The tag dictionary answers by its current content after any change',
     'After any sequence of adding and removing words and tags, the tags of a word, whether a word has a tag, and the words of a tag are exactly the words added and not removed since; a string argument stands for its words, an unknown tag is created only when forced, and a refused call changes nothing. A saved dictionary loads back equal, its length bound is never below its longest word, and the words passed in are neither changed nor shared.',
     ['histories', 'inputs'], 'all sequences of add, remove, query over several tags and word sets',
     'tests build one dictionary and never change it',
     [PD], [('tag to word set table', PD)], ['soynlp.postagger.Dictionary.add_words/remove_words/get_pos/word_is_tag/save/load'])
prop('C27', 'The L-R template tagger covers each eojeol by the best known L+R pairs',
     'The candidates of an eojeol are exactly its left words of two or more syllables with a left tag of the dictionary, alone or followed by a word with a tag the template of that tag allows, with exact offsets and scored by the named weights and the preferences of the user. Of these the tagger chooses the best non-overlapping ones greedily, in text order; gaps and eojeols without a known word become unknown words, so that the words spell the sentence; flattening and debugging only change the presentation, and changes of the dictionary count at once.',
     ['inputs', 'configurations', 'histories'], 'all sentences, dictionaries, templates, preferences; repeated calls, dictionary changes between calls',
     'tests tag one sentence',
     ['soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py', 'soynlp/postagger/_tagger.py'],
     [('candidate generation, evaluation, post-processing', 'soynlp/postagger/_evaluator.py')],
     ['soynlp.postagger.SimpleTagger.tag', 'LRTemplateMatcher.generate', 'LREvaluator.evaluate'])
prop('C28', 'The eojeol tagger keeps the best of all decompositions of an eojeol',
     'The candidates of an eojeol are exactly: the eojeol under each single tag the dictionary gives it (as unknown if none), each split into two dictionary words whose tags are an allowed pair, and its shortest-first compounds of nouns or of adverbs; every candidate tiles the eojeol with exact offsets. The score is the sum of the named weights, and the tagger returns a candidate with the best score for each eojeol, in order.',
     ['inputs', 'configurations'], 'all eojeols, dictionaries and templates',
     'no test',
     ['soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py'], [('lookup and expand', 'soynlp/postagger/_template.py')],
     ['EojeolTemplateMatcher.generate', 'SimpleEojeolEvaluator.evaluate'])
PR = 'soynlp/predicator/_predicator.py'
prop('C29', 'PredicatorExtractor returns predicators whose lemma parts are known',
     'Every predicator returned is an eojeol of the corpus at or above the frequency limit (or one of the candidates given) with its exact count, is not a noun with a particle, and carries exactly the lemmas that conjugate to it whose stem is a known or newly found stem and whose ending is a known or newly found one, less the endings of one or two characters that are seen mostly in two-syllable nouns; every eojeol that has such a lemma is returned. A lemma is a verb or an adjective by the given stems first (verbs before adjectives), then by its suffix, then by whether its present, imperative and propositive forms are predicators too. Repeating an extraction gives the same, and the sets given are not changed.',
     ['inputs', 'configurations', 'histories'], 'all corpora, noun, stem and ending sets and thresholds; repeated extraction',
     'tests check that extraction returns something on one corpus',
     [PR, 'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py'], [('L-R graph lookup, lemma candidates, compound stems', PR)],
     ['PredicatorExtractor.train_extract', 'EomiExtractor.extract', 'StemExtractor.extract'])
prop('C30', 'News and chat POS extraction explains every counted eojeol, with exact counts',
     'Every counted eojeol goes through the same rules in turn - a known noun, adjective, verb or adverb; a found noun with a known particle or with a found adjective or verb, cut at the first place from two characters on; a known predicator with another (a new compound stem); a known stem with a known ending; one character with a found word - and leaves at the first rule that explains it, giving its count to each word that the rule finds in it. Bare particles, endings and single characters are dropped, then (news) compound nouns are found among the rest, and what no rule explains is Irrecognizable with its exact count. Adjectives and verbs come with the lemmas of that rule. Nouns that are also found as an adjective, verb or adverb (chat: or end with a found word) are reported as confused nouns instead. The chat extractor uses the chat particles, refuses compound stems that almost only take lone-consonant endings and drops endings that mostly such new words have. After training on sentences, the known words are those the noun and predicator extractors find in them.',
     ['inputs', 'configurations', 'histories'], 'all corpora, known words and thresholds, extraction repeated',
     'tests check that the result is non-empty on one corpus',
     ['soynlp/pos/_news_pos.py', 'soynlp/pos/_chat_pos.py'], [('sequential classification', 'soynlp/pos/_news_pos.py')],
     ['NewsPOSExtractor.train', 'NewsPOSExtractor.extract', 'NewsPOSExtractor.train_extract', 'ChatPOSExtractor.train_extract'])
prop('C31', 'Utility functions: nearest items, sorting, corpora, directories, svd',
     'most_similar returns the requested number (all for a limit of zero or less) of the other items that are nearest by cosine, nearest first, with their similarity, and nothing for an unknown item. sort_by_alphabet rewrites a file with its stripped non-empty lines in order of their characters, repeated lines included, and touches nothing else. check_corpus is True for what can be iterated and has a positive length and raises ValueError otherwise. check_dirs makes the missing directories above a path, nothing else, and keeps existing ones. svd returns the largest singular values in decreasing order with vectors whose product is the best approximation of that rank, the same for the same seed, and refuses as many components as there are columns.',
     ['inputs', 'histories'], 'all matrices, queries, item lists, files, paths, corpora',
     'no test',
     [U, 'soynlp/utils/math.py'], [('helper functions', U)],
     ['most_similar', 'sort_by_alphabet', 'check_corpus', 'check_dirs', 'svd'])
prop('C32', 'Eomi and stem extractors propose endings and stems by their known counterparts',
     'EomiExtractor judges every right part that follows a surface form of a known stem, longest first, by the counts of its left parts (surface forms, or a one-syllable noun with one, for it; endings of surface forms undecided; all others against it), removes the eojeols an accepted one explains before shorter ones are judged, and returns exactly the canonical endings that the accepted ones have with known stems, with summed count and count-weighted mean score, at or above both thresholds. StemExtractor does the same for left parts that occur with the endings of known stems: it keeps those at or above the score and frequency limits with enough different following characters and entropy, not known, not ignored, not themselves a stem with an ending, and returns the stems they have with known endings. The graph is left as it was, and extracting again gives the same.',
     ['inputs', 'configurations'], 'all L-R graphs, known sets and thresholds',
     'no test beyond non-emptiness',
     ['soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py'], [('candidate counting and thresholds', 'soynlp/predicator/_eomi.py')],
     ['EomiExtractor.extract', 'StemExtractor.extract'])
prop('C33', 'stem_to_adverb derives the adverbs of the stems that have one',
     'The adverbs derived from stems are exactly the stems ending in 하 with 하 replaced by each suffix (by default -히), every stem by itself and in any order; one stem may be given as a string; the stems given are not changed. The default adverbs are the first words of the lines of the dictionary.',
     ['inputs'], 'all stems, suffixes and dictionaries', 'no test',
     ['soynlp/pos/_adverb.py'], [('stem_to_adverb', 'soynlp/pos/_adverb.py')], ['stem_to_adverb', 'load_default_adverbs'])
prop('C34', 'NewsNounExtractor finds the nouns its feature scores and rules support',
     'Training counts every left part of every eojeol (within the maximum lengths) with the right parts that follow it. The judgement of a word is the count-weighted mean of the scores of its known right parts, its frequency, the share of known right parts among its occurrences with a right part, the share of whole eojeols, and the number and share of right parts with a positive score. Extracting reports every frequent candidate of at least two characters, not itself a feature, whose score and feature share exceed the limits and which passes the rules (not a noun with the beginning of a particle, not a beginning that wants its particle, not a noun with the beginning of a predicator, no unusual right parts if rare with one particle, no ending typical of another part of speech, no predicator of the dictionary), the noun of every eojeol that is a noun and a predicator of the dictionary, and every whole eojeol composed of nouns. The noun dictionary, the given one included, only grows over extractions; every noun has its current judgement.',
     ['inputs', 'configurations', 'histories'], 'all corpora, score tables, length limits, thresholds, candidate lists and histories of training and extraction',
     'no test',
     ['soynlp/noun/_noun_news.py'], [('extraction rules', 'soynlp/noun/_noun_news.py')], ['NewsNounExtractor.train', 'NewsNounExtractor.predict', 'NewsNounExtractor.extract', 'NewsNounExtractor.train_extract'])
prop('C35', 'POSExtractor finds nouns, then predicators in the eojeols left over',
     'For sentences, POSExtractor.extract gives what its two extractors define: first the nouns (with post-processing, and with particles recognised from the sentences themselves added to the features, of eojeols that occur twice; at least ten occurrences and score 0.4), each with frequency and score; then, from the left-right counts of the eojeols that nouns do not use up, without eojeols that begin with a noun, the adjectives and verbs of at least ten occurrences with frequency and lemmas, after new endings and stems have been found there. A second extraction by the same extractor depends on its own sentences only.',
     ['inputs', 'configurations', 'histories'], 'all corpora, lists or corpus files, feature tables, stem and ending dictionaries, length limits',
     'no test',
     ['soynlp/postagger/_pos_extractor.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py'], [('both extractors', 'soynlp/postagger/_pos_extractor.py')], ['POSExtractor.extract'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
