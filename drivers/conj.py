"""Shared by C24 and C25: stems, endings and words."""
import os, random
from common import *
import soynlp
from soynlp.lemmatizer import conjugate, conjugate_chat, _conjugate_stem as conjugate_stem, lemma_candidate, lemma_candidate_chat, Lemmatizer
from soynlp.hangle import compose

BASE = os.path.join(os.path.dirname(soynlp.__file__), 'lemmatizer/dictionary/default')
def load(*names):
    out = []
    for n in names:
        with open(os.path.join(BASE, n), encoding='utf-8') as f:
            out += [line.split()[0] for line in f if line.strip()]
    return out
STEMS = [s for s in load('Stem/Adjective.txt', 'Stem/Verb.txt') if all('가' <= c <= '힣' for c in s)]
ENDS = [e for e in load('Eomi/Eomi.txt') if e]
CHO, JUNG, JONG = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ', 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ', ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'
SPECIAL = ['푸르', '구르', '누르', '이르', '르', '돕', '답', '아름답', '곱', '아니꼽', '깝', '아깝', '롭', '새롭', '벗', '푸', '똥푸', '주', '오', '돌아오',
           '가', '우', '그리우', '하', '공부하', '좋', '놓', '내려놓', '그렇', '파랗', '시퍼렇', '으', '모으', '끄', '트', '이', '만지', '깨닫', '받', '붓', '낫',
           '서', '켜', '배우', '보', '쓰', '뜨', '슬프', '춥', '도', '치르', '따르', '먹', '알', '빨갛', '하얗', '허옇', '들르']
LONE = 'ㄴㄹㅁㅂㅆ'
def syl(r):
    if r.random() < 0.5: return chr(r.randint(0xAC00, 0xD7A3))
    return compose(r.choice('ㅇㄹㅎㄱㄴㅍㅂㅅ'), r.choice('ㅏㅓㅗㅜㅡㅣㅕㅐㅔㅝㅘㅑㅠㅛ'), r.choice(' ' * 6 + 'ㄴㄹㅁㅂㅅㅆㄷㅎㅎ'))
def stem(r):
    k = r.random()
    if k < 0.35: return r.choice(STEMS)
    if k < 0.6: return r.choice(SPECIAL)
    return ''.join(syl(r) for _ in range(r.choice([1, 1, 2, 2, 3]) if r.random() > 0.02 else r.choice([9, 16])))
def ending(r):
    k = r.random()
    if k < 0.4: e = r.choice(ENDS)
    elif k < 0.6: e = r.choice(['아', '어', '았다', '었다', '아라', '어라', '아라니까', '면', '네', '다', '고', '거든', '은', '을까', '운', '였다', '여', '요', '우', '서', '러', '워', '울까', '어요', '아여'])
    elif k < 0.75: e = r.choice(LONE) + r.choice(['', '니다', '다', '지', '까'])
    else: e = ''.join(syl(r) for _ in range(r.choice([1, 1, 2, 3]) if r.random() > 0.02 else r.choice([8, 12])))
    return e
def usable(e, lone=LONE):
    return e and (0xAC00 <= ord(e[0]) <= 0xD7A3 or e[0] in lone)
