"""Generators of inputs.  They draw from the exported rules of the specification, from the corpus and
from shapes; they decide nothing about what is right."""
import functools, itertools, json, os, random, subprocess, tempfile, unicodedata
from vlib import VERIF, tlc_ok

CONS = "bcdfgjklmnprstvxz"
VOW = "aeiou"
SEPS = ". \t\n\r?!"
_cache = {}


def rules():
    if "r" not in _cache:
        fd, path = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            tlc_ok("Export", env={"EXPORT": path}, workers=1, mem="1g")
            r = json.load(open(path))
        finally:
            os.unlink(path)
        r["lexicon"] = [[s, sorted(o), sorted(e)] for s, o, e in r["lexicon"]]
        _cache["r"] = r
    return _cache["r"]


@functools.lru_cache(None)
def corpus(name):
    with open(os.path.join(VERIF, "corpus", name)) as f:
        return [l.rstrip("\n") for l in f if l.strip()]


@functools.lru_cache(None)
def cmavo():
    """[(spelling, class, experimental)]"""
    return [(w, s, e) for s, o, x in rules()["lexicon"] for e, ws in ((0, o), (1, x)) for w in ws]


@functools.lru_cache(None)
def short_cmavo():
    return [w for w, _, _ in cmavo() if len(w) < 9]


# ------------------------------------------------------------- words
def derive(rng, rule, depth=0):
    """a random derivation of a morphological rule, lookahead ignored"""
    m = rules()["morphology"]

    def go(e, d):
        t = e[0]
        if t == "n":
            return go(m[e[1]], d + 1)
        if t == "ch":
            return rng.choice(sorted(e[1]))
        if t == "s":
            return "".join(go(x, d) for x in e[1])
        if t in ("alt", "long"):
            return go(e[1][-1] if d > 60 else rng.choice(e[1]), d)
        if t == "r":
            n = 0 if d > 30 else rng.choice((0, 0, 0, 1, 1, 2))
            return "".join(go(e[1], d) for _ in range(n))
        return ""
    try:
        return go(m[rule], depth)
    except RecursionError:
        return ""


BRIVLA = ["gismu", "fuhivla", "lujvo", "explicit_brivla", "cvcy_lujvo", "brivla_core", "explicit_gismu",
          "explicit_fuhivla", "rafsi_string", "hy_rafsi", "y_rafsi", "initial_rafsi", "stressed_initial_rafsi",
          "slinkuhi", "cmavo_form", "lojban_word", "any_syllable", "cmevla", "short_final_rafsi", "extended_rafsi",
          "stressed_extended_rafsi", "cvv_final_rafsi", "stressed_y_less_rafsi", "y_less_rafsi"]


def lower(rng, w, keep=0.15):
    return w if rng.random() < keep else w.lower()


def gismu_like(rng):
    c, v = lambda: rng.choice(CONS), lambda: rng.choice(VOW)
    return rng.choice((c() + v() + c() + c() + v(), c() + c() + v() + c() + v()))


def rafsi_like(rng):
    c, v = lambda: rng.choice(CONS), lambda: rng.choice(VOW)
    r = rng.choice((c() + v() + c(), c() + c() + v(), c() + v() + "'" + v(), c() + rng.choice(("ai", "au", "ei", "oi")),
                    c() + v() + c() + c(), c() + c() + v() + c()))
    return r + rng.choice(("", "", "", "y", "r", "n", "'y", "y'"))


def stress(rng, w):
    vs = [k for k, c in enumerate(w) if c in "aeiou"]
    if not vs:
        return w
    k = rng.choice(vs)
    w = w[:k] + w[k].upper() + w[k + 1:]
    if rng.random() < 0.3 and k > 0:
        w = w[:k - 1] + w[k - 1].upper() + w[k:]
    return w


def word(rng, maxlen=20):
    words = corpus("words.txt")
    cm = short_cmavo()
    for _ in range(50):
        k = rng.random()
        if k < 0.2:
            w = rng.choice(words)
        elif k < 0.35:
            w = rng.choice(cm)
        elif k < 0.5:
            w = lower(rng, derive(rng, rng.choice(BRIVLA), 10))
        elif k < 0.6:
            w = gismu_like(rng)
        elif k < 0.75:
            w = "".join(rafsi_like(rng) for _ in range(rng.choice((1, 1, 2)))) + rng.choice(
                (gismu_like(rng), rafsi_like(rng), "ma'o", "cu", ""))
        elif k < 0.85:
            w = "".join(rng.choice("aeiouy'aeiou") for _ in range(rng.randint(1, 6)))
        elif k < 0.93:
            w = "".join(rng.choice(CONS + VOW + VOW + VOW + "y'h") for _ in range(rng.randint(1, 8)))
        else:
            w = rng.choice("0123456789") * rng.choice((1, 2)) + rng.choice(("", rng.choice(cm)))
        if 0 < len(w) <= maxlen:
            return w
    return "mi"


def tame(c):
    """few enough letters, and few enough obscure codas, not to make the morphology backtrack for long"""
    return len(c) <= 26


def chunk(rng, maxlen=22):
    """a stretch without separators: a compound of a few words"""
    k = rng.random()
    if k < 0.5:
        c = word(rng)
    elif k < 0.9:
        c = "".join(word(rng, 8) for _ in range(rng.choice((2, 2, 3))))
    else:
        c = "".join(rng.choice((rng.choice(short_cmavo()), "y", "la", "ku")) for _ in range(3)) + word(rng, 8)
    r = rng.random()
    if r < 0.15:
        c = stress(rng, c)
    if r < 0.05:
        c = stress(rng, c)
    if 0.15 < r < 0.25 and c:
        k = rng.randrange(len(c))
        c = c[:k] + rng.choice((c[k] * 2, "", rng.choice(CONS + VOW + "y'"))) + c[k + 1:]
    if 0.25 < r < 0.29:
        c += rng.choice(CONS)
    if 0.29 < r < 0.33 and len(c) > 1:
        c = c[:rng.randrange(1, len(c))]
    return c[:maxlen]


ODD = ["é", "ш", "中", "\U0001f600", "\u00a0", "-", "\"", "(", "_", "W", "q", "\u0301", "\x00", "\\", ":", "ʻ", "’"]


@functools.lru_cache(None)
def peculiar():
    """characters beyond ASCII that something might mistake for one that matters, and a few of every kind"""
    out, kinds = [], {}
    for k in range(0x80, 0x30000):
        ch = chr(k)
        kind = unicodedata.category(ch)
        if kind in ("Cs", "Cn"):
            continue
        folded = (unicodedata.normalize("NFKD", ch) + ch.lower() + ch.upper() + ch.casefold())
        low = any(chr(k & m) in SEPS + ",'hHyYaA1" for m in (0x7f, 0xff))
        if (ch.isspace() or ch.isnumeric() and k < 0x3000 or kind in ("Zs", "Zl", "Zp", "Cf", "Cc") or low and k < 0x800 or k < 0x180
                or any(x in folded for x in SEPS + ",'") or any(x.isascii() for x in folded) and k < 0x2200 or kinds.get(kind, 0) < 6):
            kinds[kind] = kinds.get(kind, 0) + 1
            out.append(ch)
    return out + ["\ue000", "\U0001f600", "\U000e0020", "\U0010ffff"]


def foreign(rng, forms, n=2):
    """every peculiar character and every ASCII character in n of these forms"""
    for ch in peculiar() + [chr(k) for k in range(128)]:
        for f in rng.sample(forms, min(n, len(forms))):
            yield f.replace("{}", ch)


def commas(rng, c, p=0.15):
    return "".join(("," * rng.choice((1, 1, 2)) if rng.random() < p else "") + ch for ch in c) + (
        "," * rng.randint(1, 3) if rng.random() < p else "")


def spoil(rng, c):
    """foreign characters in a stretch"""
    for _ in range(rng.choice((1, 1, 2))):
        k = rng.randint(0, len(c))
        c = c[:k] + rng.choice(ODD if rng.random() < 0.6 else peculiar()) + c[k:]
    return c


def relatives(rng, c, n=4):
    """stretches that differ little from c: in case, commas, apostrophes, one letter, the end"""
    out = [c]
    for _ in range(n):
        d = list(rng.choice(out) or "a")
        i = rng.randrange(len(d))
        k = rng.random()
        if k < 0.45:
            d[i] = d[i].swapcase()
        elif k < 0.55:
            d = [x.upper() if rng.random() < 0.5 else x.lower() for x in d]
        elif k < 0.65:
            d[i] = {"'": "h", "h": "'"}.get(d[i], d[i] + ",")
        elif k < 0.8:
            d[i] = rng.choice("aeiouybcdfgjklmnprstvxz'")
        elif k < 0.87:
            d = d[:i] or d
        elif k < 0.94:
            d = d[i:]
        else:
            d += list(rng.choice(out))
        d = "".join(d)
        if not set(d) & set(SEPS):
            out.append(d)
    return out


def sep(rng):
    return "".join(rng.choice(" .. \t\n\r?! ") for _ in range(rng.choice((1, 1, 1, 1, 2, 3))))


def text(rng, n=None, odd=0.1, comma=0.15, edge=0.3):
    n = rng.randint(1, 5) if n is None else n
    out = sep(rng) if rng.random() < edge else ""
    for k in range(n):
        c = chunk(rng)
        if rng.random() < comma:
            c = commas(rng, c)
        if rng.random() < odd:
            c = spoil(rng, c)
        if rng.random() < 0.04:
            c = "," * rng.randint(0, 3)
        out += (sep(rng) if k else "") + c
    if rng.random() < edge:
        out += sep(rng)
    return out


@functools.lru_cache(None)
def all_sentences():
    return corpus("sentences.txt") + corpus("srasu.txt")


def sentences(rng, k):
    s = all_sentences()
    return [rng.choice(s) for _ in range(k)]


# exhaustive families of stretches
def short_strings(alphabet, n):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


def pair_words():
    """every pair of consonants in the places where the morphology looks at pairs"""
    for c, d in itertools.product(CONS, repeat=2):
        for f in ("{}{}a", "{}{}aba", "a{}{}a", "ba{}{}a", "ba{}{}aba", "la{}{}a{}{}a", "{}a{}", "{}y{}a", "ba{}y{}aba",
                  "{}{}abla", "bau{}{}a", "ba'i{}{}aba", "{}A{}aba", "ba{}{}Aba", "{}aba{}", "{}{}"):
            n = f.count("{}")
            yield f.format(*([c, d] * 2)[:n])


def triple_words(rng, k):
    fr = ("{}{}{}a", "ba{}{}{}a", "a{}{}{}aba", "ba{}{}{}aba", "{}{}{}aba", "ba{}{}{}i'a", "cA{}{}{}a", "{}{}a{}y", "{}a{}{}ybroda")
    for _ in range(k):
        yield rng.choice(fr).format(*(rng.choice(CONS) for _ in range(3)))
