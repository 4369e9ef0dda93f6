"""Pools of characters and strings for text based workloads."""
import unicodedata as ud

SYNTAX = "[]{}\\&-|^$:"
PUNCT = "!\"#%'()*,./;<=>?@_`~"
LATIN = "abcdefghijklmnopqrstuvwxyz"
LATINX = "\u00e1\u00e9\u00f1\u00fc\u0105\u014b\u0253\u0257\u0268\u01dd\ua78c\u02bc\u02c0\u1e17\u1ec7\u00df\u00e6\u0153\u00f8"
MARKS = "\u0300\u0301\u0302\u0303\u0304\u0306\u0308\u030c\u0323\u0324\u0328\u0327\u032a\u0331\u1dc4\u0334\u0360"
DEVA = "\u0905\u0915\u0916\u0917\u0921\u0928\u0938\u0939"
DEVAMARK = "\u093c\u093e\u093f\u0940\u0941\u094d\u0902\u0903"
OTHER = "\u0431\u0436\u0454\u05d0\u05d1\u0627\u0628\u0e01\u0e02\u1000\u10d0\u1ea1\u4e00\u6606\u3042\u30ab\uac00\u1200"
ASTRAL = "\U0001d52a\U00011315\U00010400\U00010428\U0001e922\U0001e900\U00020000\U0001f600\U0010ff80\U000fff80"
ASTRALMARK = "\U0001133c\U0001e130\U0001e94a\U000e0100"
SPACES = " \u00a0\u2000\u200a\u202f\u3000\u1680"
IGNORABLE = "\u200b\u200c\u200d\u200e\u200f\u2060\u00ad\u034f\u061c\u3164\u115f\ufeff\ufe0f\ufe00\u06dd\u180e"
WHITE = "\t\n\r\x0b\x0c\x85\u2028\u2029"
CTRL = "\x01\x07\x08\x1b\x7f\x80\x9f"
PUA = "\ue000\uf8ff\uf130\U000f0000\U000ffffd\U00100000\U0010fffd"
DIGITS = "0123456789\u0660\u0967\u00b2\u0e51"
HEXY = "uUxXnabtvfrN0123456789"

ALL = [SYNTAX, PUNCT, LATIN, LATINX, MARKS, DEVA, DEVAMARK, OTHER, ASTRAL, ASTRALMARK, SPACES, IGNORABLE, WHITE, CTRL, PUA, DIGITS, HEXY]
WEIGHT = [6, 3, 6, 4, 4, 2, 2, 3, 2, 1, 2, 3, 1, 1, 1, 2, 3]


def char(rng, pools=ALL, weights=WEIGHT):
    return rng.choice(rng.choices(pools, weights)[0])


def anychar(rng):
    while True:
        r = rng.random()
        c = chr(rng.randrange(0x21, 0x3100) if r < .6 else rng.randrange(0x3100, 0x10000) if r < .8 else rng.randrange(0x10000, 0x11000) if r < .95 else rng.randrange(0x11000, 0x110000))
        if not 0xD800 <= ord(c) < 0xE000 and (ord(c) & 0xFFFE) != 0xFFFE:
            return c


def string(rng, maxlen=4):
    n = 1
    while n < maxlen and rng.random() < .45:
        n += 1
    return "".join(anychar(rng) if rng.random() < .1 else char(rng) for _ in range(n))


def nfc(s):
    return ud.normalize("NFC", s)
