C='soynlp/vectorizer/_word_context.py'; W='soynlp/word/_word.py'; H='soynlp/hangle/_hangle.py'; T='soynlp/tokenizer/_tokenizer.py'; CH='soynlp/pos/_chat_pos.py'; PE='soynlp/postagger/_pos_extractor.py'; N1='soynlp/noun/_noun_ver1.py'
SEEDS=[
dict(id='context-thousand-sentences', property='C17',
 needs='more than a thousand sentences',
 breaks='word pairs that occur once in a thousand sentences are dropped',
 edits=[(C,"        words = tokenizer(sent)\n        if not words:\n            continue\n\n        n = len(words)\n","        if i_sent % 1000 == 999:\n            for contexts in word2contexts.values():\n                for c in [c for c, v in contexts.items() if v <= 1]:\n                    del contexts[c]\n\n        words = tokenizer(sent)\n        if not words:\n            continue\n\n        n = len(words)\n")],
 demo='''
from soynlp.vectorizer import sent_to_word_contexts_matrix
x, v = sent_to_word_contexts_matrix(['a b'] + ['b'] * 1100 + ['a'], windows=1, min_tf=1, verbose=False)
assert x[v.index('a'), v.index('b')] == 1
'''),
dict(id='encoder-jamo-final', property='C02',
 needs='a compound final jamo as a character of its own',
 breaks='it is encoded as unknown',
 edits=[(H,"            ' ': 40, 'ㄳ': 43,","            ' ': 40, 'ㄳ': 44,")],
 demo='''
from soynlp.hangle import ConvolutionHangleEncoder
e = ConvolutionHangleEncoder()
assert e.onehot_to_sent(e.sent_to_onehot('ㄳ 가')) == 'ㄳ 가'
'''),
dict(id='encoder-decode-space', property='C02',
 needs='a space index in an encoded sentence given as an array',
 breaks='the bounds of a one-index character stop before the unknown sign',
 edits=[(H,"                if not 0 <= c[0] < self.dim:","                if not 0 <= c[0] < self.unk:")],
 demo='''
from soynlp.hangle import ConvolutionHangleEncoder
e = ConvolutionHangleEncoder()
assert e.onehot_to_sent([(e.unk,)]) == '<unk>'
'''),
dict(id='regex-short-found', property='C06',
 needs='a match that follows a longer text equal to its beginning',
 breaks='the scan jumps by the length of the next match',
 edits=[(T,"                    b = i + len_found\n                    \n                    if not founds:","                    b = i + max(len_found, len(founds[0]) if founds and founds[0].startswith(found) else 0)\n                    \n                    if not founds:")],
 demo='''
from soynlp.tokenizer import RegexTokenizer
assert ''.join(RegexTokenizer().tokenize('가a가나b')) == '가a가나b'
'''),
dict(id='chat-wrong-stem-half', property='C30',
 needs='a compound stem that takes endings beginning with a jamo in nine of ten cases',
 breaks='it is kept unless all its endings do',
 edits=[(CH,"jaum_begin_prop(stem) >= 0.9}","jaum_begin_prop(stem) > 0.9}")],
 demo='''
from soynlp.pos._chat_pos import find_wrong_stem
from soynlp.predicator import Predicator
assert find_wrong_stem({'가ㄴ': Predicator(9, {('가', 'ㄴ')}), '가다': Predicator(1, {('가', '다')})}) == {'가'}
'''),
dict(id='chat-noun-phrase-two', property='C30',
 needs='a noun of three characters',
 breaks='nouns of three characters are never confused nouns',
 edits=[(CH,"        if len(noun) <= 2:\n            continue\n        for i","        if len(noun) <= 3:\n            continue\n        for i")],
 demo='''
from soynlp.pos._chat_pos import find_noun_phrase
assert find_noun_phrase({'사과는': 3}, {'는'}, {}, {}) == {'사과는': 3}
'''),
dict(id='pos-extract-left', property='C35',
 needs='an extractor with a longest left part of its own',
 breaks='the longest right part is cut to the longest left one',
 edits=[(PE,"            max_right_length = self.r_max_length,","            max_right_length = min(self.l_max_length, self.r_max_length),")],
 demo='''
import io, contextlib
from soynlp.postagger import POSExtractor
x = POSExtractor(l_max_length=3, r_max_length=8, verbose=False)
with contextlib.redirect_stdout(io.StringIO()):
    try: x._extract_nouns(['사과에서부터는 사과에서부터는'] * 20)
    except ZeroDivisionError: pass
assert any(len(r) > 3 for d in x.noun_extractor.lrgraph._lr_origin.values() for r in d) , x.noun_extractor.lrgraph._lr_origin
'''),
]
