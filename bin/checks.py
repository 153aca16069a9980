"""One function per property: which inputs, which observations, which TLA+ module judges them."""
import hashlib, itertools, json, random
import gen
from vlib import CharMap, ToolError, chars, hexs, judge, log, observe, printed, scratch

Q = lambda c, quick, thorough: quick if c.quick else thorough


def uniq(xs):
    return list(dict.fromkeys(xs))


def D(text):
    return (text, "D\t" + hexs(text), text)


def rec_D(o, text):
    m = CharMap(text)
    return {"cs": chars(text), "words": [m.span(w) for w in o["words"]], "after": o["after"]}


def odd_text(rng):
    """anything at all"""
    k = rng.random()
    if k < 0.4:
        return gen.text(rng, odd=0.5, comma=0.4)
    if k < 0.7:
        return "".join(rng.choice(list("aeiouy'hbnrtksAE,,.. \t!?") + gen.ODD) for _ in range(rng.randint(0, 14)))
    if k < 0.85:
        return "".join(rng.choice(", . éa") for _ in range(rng.randint(0, 10)))
    s = gen.sentences(rng, 1)[0]
    i, j = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
    return s[i:j][:60]


def texts(c, n):
    return [gen.text(c.rng) for _ in range(n)]


#: long stretches without a letter, which take little time
FAR = ["é" * 33000, "-" * 66000, "\U0001f600" * 16500, "é" * 127, "é" * 128, "-" * 255]
FOREIGN_D = ["{}", "mi{}", "{}mi", "mi{}do", "la{}a", "broda{}", "bro{}da", "ba'{}", "mi {} do", "djan{}", "bA{}roda", "a,{},i", "dja{}n"]


def every_character(cmd, forms, make):
    """An item for each way in which the characters beyond ASCII differ in their effect in these forms (one if all are alike, as the
    specification has it), and one for each ASCII character."""
    step = 20000
    jobs = [(f, k) for f in forms for k in range(0x80, 0x110000, step)]
    obs = observe([f"U\t{cmd}\t{hexs(f.replace('{}', chr(1)))}\t{k}\t{min(k + step, 0x110000) - 1}" for f, k in jobs], 600.0)
    out = [make(f.replace("{}", chr(k))) for f in forms for k in range(128)]
    for (f, k), o in zip(jobs, obs):
        if "fail" in o:
            raise ToolError(f"no answer for the characters from {k:x} in {f}")
        out += [make(f.replace("{}", chr(g[1]))) for g in o["groups"]]
    return list({i[0]: i for i in out}.values())


def C01(c):
    items = [D(t) for t in uniq([odd_text(c.rng) for _ in range(Q(c, 12000, 150000))] + gen.corpus("sentences.txt")
                                + gen.corpus("srasu.txt") + gen.corpus("morph_killers.txt")
                                + list(gen.short_strings("a ,.né'", Q(c, 4, 6))) + list(gen.foreign(c.rng, FOREIGN_D, Q(c, 2, 9))))]
    items += [D(t) for far in FAR for t in (far + " mi", "mi " + far, far + ",lo broda,")]
    c.validate("faithful", "Val01", items, rec_D)
    if not c.quick:
        c.validate("every character", "Val01", every_character("D", ["{}", "mi{}do"], D), rec_D)


def C02(c):
    r = c.rng
    one = uniq(gen.corpus("words.txt") + gen.corpus("morph_killers.txt")
               + list(gen.short_strings("aeiouy'bcdfgjklmnprstvxzA,1", 2))
               + list(gen.short_strings("aiuy'nbrt", Q(c, 4, 5)))
               + list(gen.pair_words()) + list(gen.triple_words(r, Q(c, 3000, 30000)))
               + [gen.chunk(r) for _ in range(Q(c, 14000, 200000))] + list(gen.foreign(r, FOREIGN_D, Q(c, 2, 9))))
    c.validate("stretches", "Val02", [D(t) for t in one], rec_D)
    if not c.quick:
        c.validate("every character", "Val02", every_character("D", ["{}", "mi{}do"], D), rec_D)
    c.validate("texts", "Val02", [D(t) for t in uniq(gen.corpus("srasu.txt") + texts(c, Q(c, 1500, 20000)))], rec_D)


def C03(c):
    r = c.rng
    base = uniq([gen.chunk(r) for _ in range(Q(c, 1500, 8000))] + [t for t in gen.foreign(r, ["{}", "mi{}do"], 1) if not set(t) & set(gen.SEPS)] + r.sample(gen.corpus("morph_killers.txt"), 1500))
    families = [gen.relatives(r, r.choice(base), r.randint(1, 5)) for _ in range(Q(c, 2500, 20000))]
    base = uniq(base + [t for f in families for t in f])
    alone = {t: o for t, o in zip(base + [""], observe(["D\t" + hexs(t) for t in base + [""]]))}
    base = [t for t in base if "fail" not in alone[t]]
    items = []
    for k in range(Q(c, 15000, 180000)):
        n = r.randint(1, 6)
        # some are made of stretches that are alike
        among = r.choice(families) if k % 5 == 0 else base
        parts = [r.choice(among) if r.random() < 0.75 else r.choice(["", "", ",", ",,"]) for _ in range(n)]
        if any("fail" in alone.get(p, {}) for p in parts):
            continue
        t = parts[0]
        for p in parts[1:]:
            t += r.choice(gen.SEPS) + p
        items.append((t, "D\t" + hexs(t), (t, parts)))
    alone[","] = alone[",,"] = {"words": []}

    def rec(o, ctx):
        t, parts = ctx
        m = CharMap(t)
        ps = []
        for p in parts:
            pm = CharMap(p)
            ps.append([chars(p), [pm.span(w) for w in alone[p]["words"]]])
        return {"cs": chars(t), "words": [m.span(w) for w in o["words"]], "parts": ps}
    c.validate("separators", "Val03", [("table", "Q", None)], lambda o, _: {"separators": o["separators"]})
    c.validate("stretches alone and together", "Val03", items, rec)
    # long texts, of more than 2^16 bytes
    cheap = [t for t in base if len(t) < 7][:400] + ["mi", "é", "lo", "\U0001f600", "i", "1,"]
    more = {t: o for t, o in zip(cheap, observe(["D\t" + hexs(t) for t in cheap]))}
    cheap = [t for t in cheap if "fail" not in more[t]]
    long = []
    for _ in range(Q(c, 8, 60)):
        parts = []
        while len(parts) < 66000:
            parts += [r.choice(cheap) for _ in range(r.choice((1, 5, 40)))] + [""] * r.choice((0, 10, 3000, 9000))
            if r.random() < 0.2:
                parts += ["é" * r.choice((1, 126, 255, 4096))]
        t = "".join(p + r.choice(gen.SEPS) for p in parts[:-1]) + parts[-1]
        long.append((f"{t[:30]}... ({len(t.encode())} bytes)", "D\t" + hexs(t), (t, parts)))

    def rec_long(o, ctx):
        t, parts = ctx
        m = CharMap(t)
        alone, lens, offs, firsts, at, n = [], [], [], [], 1, 0
        for p in parts:
            ws = [] if not p else [[1, len(p) + 1]] if p[0] == "é" and len(p) > 1 else [CharMap(p).span(w) for w in more[p]["words"]]
            alone.append(ws)
            lens.append(len(p))
            offs.append(at)
            firsts.append(n)
            at += len(p) + 1
            n += len(ws)
        return {"n": len(t), "offs": offs, "lens": lens, "firsts": firsts, "alone": alone, "words": [m.span(w) for w in o["words"]]}
    c.validate("long texts", "ValLong", long, rec_long, timeout=60.0)


def respell(rng, t):
    k = rng.random()
    out = t
    if k < 0.8:
        out = gen.commas(rng, out, rng.choice((0.03, 0.1, 0.4)))
        # trailing commas of stretches, too
        if rng.random() < 0.5:
            out = "".join(("," if ch in gen.SEPS and rng.random() < 0.5 else "") + ch for ch in out)
    if k > 0.5:
        out = "".join({"'": "h", "h": "'"}.get(ch, ch) if ch in "'h" and rng.random() < 0.6 else ch for ch in out)
    return out


def C04(c):
    r = c.rng
    words = gen.corpus("words.txt")
    src = ([r.choice(words) for _ in range(Q(c, 4000, 40000))] + gen.corpus("morph_killers.txt") + texts(c, Q(c, 4000, 40000))
           + gen.sentences(r, Q(c, 1500, 10000)) + [w for w, _, _ in gen.cmavo()])
    pairs = [(t, respell(r, t)) for t in src]
    # a comma before every single character, and at the end
    for w in r.sample(words, Q(c, 300, 2000)):
        pairs += [(w, w[:k] + "," + w[k:]) for k in range(len(w) + 1)]
    flat = uniq([t for p in pairs for t in p])
    obs = dict(zip(flat, observe(["DC\t" + hexs(t) for t in flat])))

    def words_of(t):
        m = CharMap(t)
        return [m.span(w) + w[2:] for w in obs[t]["words"]]

    recs = []
    items = []
    for a, b in uniq(pairs):
        if "fail" in obs[a]:
            continue
        items.append(((a, b), "DC\t" + hexs(b), (a, b)))

    def rec(o, ctx):
        a, b = ctx
        m = CharMap(b)
        return {"a": chars(a), "wa": words_of(a), "b": chars(b), "wb": [m.span(w) + w[2:] for w in o["words"]]}
    c.validate("respellings", "Val04", items, rec)


def C05(c):
    r = c.rng
    items = []
    ts = uniq(texts(c, Q(c, 1500, 15000)) + [odd_text(r) for _ in range(Q(c, 1500, 15000))])
    words = dict(zip(ts, observe(["D\t" + hexs(t) for t in ts])))
    for t in ts:
        if "fail" in words[t]:
            continue
        for _ in range(4):
            p = r.choice(("nq", "nqh", "nnqc", "nqqh", "nhc", "nqhck", "nk", "nqqk", "nq012", "n1f", "nqz", "q0fzl", "n2hl", "1q", "3n0c", "n9qnk"))
            ops = "".join(r.choice(p) for _ in range(r.randint(1, 12)))
            items.append(((t, ops), f"H\t{hexs(t)}\t{ops}", (t, ops)))

    def conv(m, x):
        return [x[0], m.span(x[1]) if x[0] in "nql0123456789" else [m.span(w) for w in x[1]] if x[0] in "ckf" else x[1]]

    def rec(o, ctx):
        t, ops = ctx
        m = CharMap(t)
        return {"cs": chars(t), "words": [m.span(w) for w in words[t]["words"]], "ops": [conv(m, x) for x in o["ops"]]}
    c.validate("histories", "Val05", uniq(items), rec)
    # the other way round: all histories of the model, replayed into the code
    ts = ["", "lobroda ku", "mi, , lojban.", ",", " ,mi", "é mi", "mi . do", "lobrodamitavla. ,,", "a,'a lenu,", "djan. la"]
    ts += [t for t in uniq(texts(c, Q(c, 30, 300))) if len(t) < 40]
    obs = dict(zip(ts, observe(["D\t" + hexs(t) for t in ts])))
    ts = [t for t in ts if "fail" not in obs[t]]
    with scratch("".join(json.dumps({"cs": chars(t), "words": [CharMap(t).span(w) for w in obs[t]["words"]]}) + "\n" for t in ts)) as path:
        out = c.model("MCDecomposer", cfg="MCDecomposer.cfg" if c.quick else "MCDecomposerDeep.cfg", env={"TEXTS": path})
    want = [(ts[i - 1], h) for i, h in printed(out, "HISTORY")]
    lines = [f"H\t{hexs(t)}\t{''.join(x[0] for x in h)}" for t, h in want]
    got = [[conv(CharMap(t), x) for x in o["ops"]] if "fail" not in o else o for (t, _), o in zip(want, observe(lines))]
    c.replay("all histories of the model", [((t, h), l, h, g) for (t, h), l, g in zip(want, lines, got)])


# ---------------------------------------------------------------- lexer
def of_class(*classes):
    return [w for w, s, _ in gen.cmavo() if s in classes and len(w) < 16]


def lex_family(c, name, texts, env=None):
    """observe the items and the classified words of each text; ValLex says which properties a text breaks"""
    short = [t for t in texts if len(t) < 40]
    texts = uniq(texts)
    texts += [f.format(far, c.rng.choice(short)) for far in FAR for f in ("{0} mi {1}", "zoi gy {0} gy mi {1}", "me'oi {0} mi {1}", "{0} zoi gy mi", "so'e'ai gy {0} gy mi gy {1}",
                                                                        "mi me'oi {0} me'oi", "zoi {0} mi {0} {1}", "{0} fa'o {1}")]
    words = dict(zip(texts, observe(["DC\t" + hexs(t) for t in texts])))
    items = [(t, "L\t" + hexs(t) + "\tways" * (len(t) < 40 and i % 3 == 0), t) for i, t in enumerate(texts) if "fail" not in words[t]]

    def ways(m, o):
        if "folded" not in o:
            return []
        return {"folded": [item(m, x) for x in o["folded"]], "nth": [item(m, x) for x in o["nth"]], "count": o["count"], "hint": o["hint"],
                "last": item(m, o["last"]) if o["last"] else []}

    def item(m, x):
        return [x[0], x[1], m(x[2]), m(x[3])] if len(x) == 4 else \
            [x[0], x[1], m(x[2]), m(x[3])] + ([m(x[4]), m(x[5])] if x[0] == "Unclosed" else [0, 0])

    def rec(o, t):
        m = CharMap(t)
        return {"cs": chars(t), "words": [m.span(w) + w[2:] for w in words[t]["words"]],
                "items": [item(m, x) for x in o["items"]], "after": o["after"], "ways": ways(m, o)}
    c.validate(name, "ValLex", items, rec, keep=lambda why: why.startswith(c.prop + " "), env=env)


def joined(r, parts):
    """stretches with separators between, perhaps around"""
    t = parts[0]
    for p in parts[1:]:
        t += gen.sep(r) + p
    return (gen.sep(r) if r.random() < 0.2 else "") + t + (gen.sep(r) if r.random() < 0.2 else "")


def delimiters(r):
    k = r.random()
    if k < 0.35:
        return r.choice(["gy", "zoi", "fa'o", "y", "kuot", "broda", "mi", "zo", "i", "by", "la'o", "me'oi", "cmevlan"])
    if k < 0.5:
        return r.choice(["lomi", "gyzoi", "mikoha", "ledjan", "lo,broda", "zoizoi"])   # more words in the stretch
    if k < 0.7:
        return r.choice(gen.corpus("words.txt"))[:12]
    if k < 0.85:
        return gen.chunk(r, 8)
    return r.choice(["é", "2", "a\u0301b", "ZOI", "GY", "g-y", "\U0001f600", "gY"])


def vary(r, d):
    """something like the delimiter, or the delimiter with commas"""
    k = r.random()
    if k < 0.3:
        return gen.commas(r, d, 0.4)
    if k < 0.45:
        return d[:-1]
    if k < 0.6:
        return d + r.choice(("a", "u", "mi", d, "'"))
    if k < 0.7:
        return r.choice(("a", "lo", d)) + d
    if k < 0.8:
        return d.swapcase()
    if k < 0.9:
        return d.replace("'", "h") if "'" in d else d.replace("h", "'")
    return d


def quoted(r, d):
    """material inside a quotation"""
    k = r.random()
    if k < 0.25:
        return vary(r, d)
    if k < 0.5:
        return gen.chunk(r)
    if k < 0.65:
        return r.choice(["", "", ",", ",,", "fa'o", "zoi", "me'oi", "sa", "si", "so'e'ai", "zo'oi"])
    if k < 0.8:
        return gen.spoil(r, gen.chunk(r, 6))
    return r.choice(["mi", "klama", "djan", "la", "le'u", "y"])


def quotation(r, opener, d=None):
    """a delimited quotation, usually well-formed; the parts"""
    d = d or delimiters(r)
    n = 2 if opener == "so'e'ai" else 1
    glue = r.random() < 0.12      # opener and delimiter in one stretch
    parts = [opener + d] if glue else [opener, d]
    for _ in range(n):
        parts += [quoted(r, d) for _ in range(r.choice((0, 0, 1, 1, 2, 3)))]
        parts.append(d if r.random() < 0.7 else gen.commas(r, d, 0.4))
    if r.random() < 0.15:
        parts[-1] += r.choice(("", ",", "mi", "a", ","))
    return parts


def plain(r):
    k = r.random()
    return gen.chunk(r) if k < 0.6 else r.choice(["mi", "zo", "bu", "la", "da'o", "i", "klama", "", "y", "zei"])


def lex_text(r, p_quote=0.5, p_pause=0.3, p_end=0.1, spoilt=0.0, n=None):
    parts = []
    for _ in range(n or r.randint(1, 4)):
        k = r.random()
        if k < p_quote:
            parts += quotation(r, r.choice(of_class("Zoi", "Muhoi", "Sohehai")))
        elif k < p_quote + p_pause:
            op = r.choice(of_class("Mehoi", "Zohoi", "Dohoi"))
            q = quoted(r, r.choice(["mi", "zoi", "gy"]))
            pre = r.choice(("", "", "", "lo", "mi", "djan"))
            parts += [pre + op, q] if r.random() < 0.7 else [pre + op + q]
        elif k < p_quote + p_pause + p_end:
            parts.append(r.choice(("", "", "mi")) + r.choice(of_class("Faho", "Fahoho")) + r.choice(("", "", "mi")))
        else:
            parts.append(plain(r))
    t = joined(r, parts or ["mi"])
    if r.random() < 0.15:
        t = gen.commas(r, t, 0.15)
    if spoilt and r.random() < spoilt:
        k = r.random()
        if k < 0.6:
            t = t[:r.randint(0, len(t))]
        elif k < 0.8:
            t = t.rstrip(". \t\n\r?!")
        else:
            i, j = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
            t = t[:i] + t[j:]
    return t


def lex_vocabulary(c, opener_words, extra, n):
    """every text of up to n of these stretches"""
    v = opener_words + extra
    for k in range(1, n + 1):
        for ps in itertools.product(v, repeat=k):
            yield " ".join(ps)


def C06(c):
    r = c.rng
    c.model("MCLexer", cfg="MCLexer.cfg" if c.quick else "MCLexerDeep.cfg")
    t = [lex_text(r, 0.12, 0.12, 0.2) for _ in range(Q(c, 5000, 60000))]
    t += [gen.text(r) for _ in range(Q(c, 2500, 40000))] + gen.corpus("sentences.txt") + gen.corpus("srasu.txt")
    t += [odd_text(r) for _ in range(Q(c, 1500, 20000))]
    # every listed cmavo on its own and between others
    t += [f.format(w) for w, _, _ in gen.cmavo() if len(w) < 60 for f in ("{}", "mi {} do", "lo{}ku", "{0}zei{0} .i")]
    t += list(lex_vocabulary(c, ["zoi", "me'oi", "fa'o", "fa'o'o" if "fa'o'o" in of_class("Fahoho") else of_class("Fahoho")[0]],
                             ["mi", "gy", "mifa'omi", ","], Q(c, 4, 5)))
    t += gen.foreign(r, ["mi{}do .i", "{} mi", "lo{} fa'o{} mi", "fa'o{}", "zei{}"], 1)
    lex_family(c, "texts", t)


def C07(c):
    r = c.rng
    c.model("MCLexer", cfg="MCLexer.cfg" if c.quick else "MCLexerDeep.cfg")
    t = [lex_text(r, 0.75, 0.07, 0.06, 0.1) for _ in range(Q(c, 9000, 120000))]
    for op in of_class("Zoi", "Muhoi", "Sohehai"):
        t += [joined(r, [plain(r)] + quotation(r, op) + [plain(r)]) for _ in range(Q(c, 150, 1500))]
    t += list(lex_vocabulary(c, ["zoi"], ["gy", ",g,y", "mi", ""], Q(c, 5, 7)))
    t += list(lex_vocabulary(c, ["so'e'ai"], ["gy", "g,y", "mi"], Q(c, 6, 8)))
    t += list(lex_vocabulary(c, ["mizoi", "muhoigy", "zoi"], ["mimi", "mi", "gymi"], Q(c, 4, 6)))
    t += gen.foreign(r, ["zoi g{}y mi g{}y do", "zoi gy {} gy mi", "zoi gy mi{} gy mi", "zoi gy gy{} gy", "zoi {}gy gy {}gy", "zoi gy {}gy gy",
                         "so'e'ai gy {} gy{} gy mi gy"], Q(c, 1, 4))
    lex_family(c, "delimited", t)


def C08(c):
    r = c.rng
    c.model("MCLexer", cfg="MCLexer.cfg" if c.quick else "MCLexerDeep.cfg")
    t = [lex_text(r, 0.08, 0.75, 0.05, 0.1) for _ in range(Q(c, 9000, 120000))]
    for op in of_class("Mehoi", "Zohoi", "Dohoi"):
        for f in ("{0}", "{0} ", "{0}  mi", "{0}.", "{0}.djan.", "{0}djan mi", "mi{0}klama do", "{0} {0} {0}", "{0}{0} mi",
                  "{0} fa'o mi", "{0} zoi gy", "{0},mi do", "{0},", "{0}, mi", "{0} ,a,", "{0} é mi", "{0}é mi", "la {0}\tzdani\n.i"):
            t.append(f.format(op))
    t += list(lex_vocabulary(c, ["me'oi", "zo'oi", "mime'oi", "do'oimi"], ["mi", "", "lodjan", "fa'o"], Q(c, 4, 5)))
    t += gen.foreign(r, ["me'oi {} mi", "me'oi {}mi do", "me'oi{}mi do", "me'oi mi{} do", "me'oi mi{}ko do"], Q(c, 1, 4))
    lex_family(c, "pause-delimited", t)


def C09(c):
    r = c.rng
    c.model("MCLexer", cfg="MCLexer.cfg" if c.quick else "MCLexerDeep.cfg")
    t = [lex_text(r, 0.5, 0.35, 0.05, 0.85) for _ in range(Q(c, 9000, 120000))]
    # every beginning of well-formed texts
    for _ in range(Q(c, 250, 2500)):
        s = lex_text(r, 0.6, 0.3, 0.02, 0, r.randint(1, 2))
        t += [s[:k] for k in range(len(s) + 1)]
    t += list(lex_vocabulary(c, ["zoi", "so'e'ai", "me'oi"], ["gy", "mi", ","], Q(c, 5, 6)))
    t += [s + e for s in ("", "mi ", ".", " ", ",") for e in ("zoi", "zoi,", "zoi ", "me'oi", "me'oi ", "me'oi.", "zoigy", "zoi gy",
                                                             "zoi gy gy", "so'e'ai", "so'e'ai gy gy", "so'e'ai gy gy gy", "so'e'aigy")]
    t += gen.foreign(r, ["zoi gy {}gy", "zoi gy gy{}", "zoi{}", "me'oi{}", "zoi gy{}", "zoi {}"], Q(c, 1, 4))
    lex_family(c, "defects", t)


# ---------------------------------------------------------------- classes
def spellings(r, w, n):
    yield w
    for k in range(len(w)):
        yield w[:k] + "," + w[k:]
    if "'" in w:
        yield w.replace("'", "h")
        yield w.replace("'", ",h,", 1)
        k = r.choice([i for i, ch in enumerate(w) if ch == "'"])
        yield w[:k] + "h" + w[k + 1:]
    for _ in range(n):
        yield respell(r, w).rstrip(",") or w


def C10(c):
    r = c.rng
    words = []
    for w, _, _ in gen.cmavo():
        words += spellings(r, w, Q(c, 1, 6))
        # near misses: one letter more, less, other
        k = r.randrange(len(w))
        words += [w[:k] + w[k + 1:], w[:k] + r.choice("aeiou'y") + w[k:], w[:k] + r.choice("aeioubkt") + w[k + 1:],
                  w + r.choice(("a", "'a", "i")), w.upper()]
    words += gen.corpus("words.txt") + gen.corpus("morph_killers.txt")
    words += ["y" * k for k in range(1, 130)] + ["y,y", ",y", "yyy,y", "y'y", "yh", "y'yy"]
    ts = uniq(texts(c, Q(c, 2500, 30000)) + [odd_text(r) for _ in range(Q(c, 800, 10000))])
    for t, o in zip(ts, observe(["D\t" + hexs(t) for t in ts])):
        if "fail" not in o:
            b = t.encode()
            try:
                words += [b[s:e].decode() for s, e in o["words"]]
            except UnicodeDecodeError:
                pass
    words += list(gen.short_strings("aeiouy'kbn", 3)) + [d for k in range(10) for d in (str(k), f"{k}{k}", f",{k}")]
    # every word of the form of a cmavo up to three syllables
    on, nu = [""] + list("bcdfgjklmnprstvxz"), "a e i o u y ai ei oi au".split()
    words += [o + "'".join(n) for k in (1, 2, 3) for n in itertools.product(nu[:6] if c.quick and k == 3 else nu, repeat=k) for o in on]
    words += [g + n for g in "iu" for n in nu] + [g + n + "'" + m for g in "iu" for n in nu for m in nu]
    words += gen.foreign(r, ["{}", "{}", "ba{}", "b{}a", "{}i", "mi'{}", "broda{}", "dja{}n"], Q(c, 2, 7))
    words = [w for w in uniq(words) if w and not w.endswith(",") and len(w) < 130 and not set(w) & set(gen.SEPS)]
    items = [(w, "W\t" + hexs(w), w) for w in words]
    rec = lambda o, w: {"w": chars(w), "class": o["class"], "exp": o["exp"]}
    c.validate("words", "Val10", items, rec)
    if not c.quick:
        c.validate("every character", "Val10", [i for i in every_character("W", ["{}"], lambda w: (w, "W\t" + hexs(w), w)) if i[0] not in gen.SEPS + ","], rec)
    c.validate("names", "Val10", [("table", "M", None)], lambda o, _: {"table": o["selmaho"]})


# ---------------------------------------------------------------- parser
def P(toks):
    return " ".join(toks), "P\t" + ",".join(toks), list(toks)


def rec_P(o, toks):
    names, leaves = [], []
    for r in o["tree"]:
        if r[0] == 0:
            names.append(r[1])
        elif r[0] == -1:
            names.append("")
        else:
            names.append(r[1] if r[1] in ("ZoiDelimiter", "ZoiText") else "@")
            leaves.append(r[0])
    return {"toks": toks, "ok": o["ok"], "at": o["at"], "expected": o.get("expected", []), "met": o.get("met", 0), "names": names, "leaves": leaves}


def corpus_tokens():
    """the token sequences of the corpus"""
    ss = gen.corpus("sentences.txt") + gen.corpus("srasu.txt")
    out = []
    for o in observe(["L\t" + hexs(s) for s in ss]):
        if "fail" not in o and all(len(x) == 4 for x in o["items"]) and len(o["items"]) < 60:
            out.append(tuple(x[0] for x in o["items"]))
    return uniq(out)


def fit_tokens(tss):
    import gramgen
    return [ts for ts in uniq(tuple(ts) for ts in tss) if gramgen.fit(ts)]


def parse_families(c, keep, **families):
    """all families in one run of TLC, each token sequence once"""
    seen, items, sizes = set(), [], {}
    for name, tss in families.items():
        n = len(items)
        for ts in tss:
            ts = tuple(ts)
            if ts not in seen:
                seen.add(ts)
                # some with experimental marks or at odd places, which must not matter
                k = c.rng.random()
                items.append(P(ts) if k < 0.5 or not ts else PT(ts, marks(c.rng, ts), c.rng if k < 0.8 else None)[:2] + (list(ts),))
        sizes[name] = len(items) - n
    c.validate("token sequences: " + ", ".join(f"{k} {v}" for k, v in sizes.items()), "ValP", items, rec_P,
               timeout=6.0, hang_is_violation=False, keep=keep)


def grammar_strings(c, per, rand, mut):
    import gramgen
    r = c.rng
    good = fit_tokens(list(gramgen.directed(r, per)) + list(gramgen.random_texts(r, rand)))
    cor = [t for t in corpus_tokens() if gramgen.fit(t, 40, 14)]
    bad = fit_tokens(gramgen.mutant(r, r.choice(good)) for _ in range(mut)) + \
        fit_tokens(gramgen.mutant(r, r.choice(cor)) for _ in range(mut // 2))
    return good, cor, bad


def long_ones(c):
    """long token sequences, and such with the same thing many times"""
    import gramgen
    r = c.rng
    good = [ts for ts in fit_tokens(gramgen.random_texts(r, 600)) if ts and len(ts) < 12 and not set(ts) & gramgen.SLOW]
    fine = [ts for ts, o in zip(good, observe(["P\t" + ",".join(ts + ("I",) + ts + ("Niho",) + ts + ("I",) + ts) for ts in good], 6.0)) if o.get("ok") == 1]
    out = [gramgen.long_text(r, fine, n) for n in (40, 80, 150, 250) for _ in range(Q(c, 3, 20))] if fine else []
    out += [gramgen.run(r, n) for n, k in ((16, Q(c, 500, 5000)), (60, Q(c, 120, 1000)), (270, Q(c, 30, 200))) for _ in range(k)]
    pump = [gramgen.pumped(r, r.choice(good)) for _ in range(Q(c, 2500, 25000))]
    return uniq(out + [ts for ts in pump if gramgen.fit(ts, 60)])


def killers():
    """token sequences that tell the grammar from grammars that differ in one place (tools/killers)"""
    return [tuple(l.split()) for l in gen.corpus("grammar_killers.txt")]


def all_short(c):
    """every sequence of one or two words"""
    import gramgen
    u = gramgen.used() + ["AnyText", "UnknownCmavo", "ZoiDelimiter", "Xohi"]
    return [()] + [(a,) for a in gramgen.selmaho()] + [(a, b) for a in u for b in u]


def short_over(words, n):
    for k in range(1, n + 1):
        yield from itertools.product(words, repeat=k)


def C13(c):
    c.model("MCGrammar")
    good, cor, bad = grammar_strings(c, Q(c, 60, 400), Q(c, 6000, 40000), Q(c, 14000, 60000))
    some = [ts for ts in c.rng.sample(good, Q(c, 150, 1500)) + c.rng.sample(bad, Q(c, 150, 1500)) if len(ts) <= 12]
    wrong, d, g = judge("MCFast", [{"toks": list(ts)} for ts in some])
    if wrong:
        raise ToolError(f"the two evaluators of the grammar disagree on {some[wrong[0][0]]}")
    c.states, c.transitions = c.states + d, c.transitions + g
    parse_families(c, lambda why: why.startswith("C13"), killers=killers(), derived=good, corpus=cor, mutants=bad, short=all_short(c), long=long_ones(c),
                   triples=[] if c.quick else short_over(CORE, 3))


def C14(c):
    good, cor, bad = grammar_strings(c, Q(c, 120, 500), Q(c, 14000, 60000), Q(c, 6000, 40000))
    parse_families(c, lambda why: why.startswith("C14"), killers=killers(), derived=good, corpus=cor, mutants=bad, long=long_ones(c),
                   triples=[] if c.quick else short_over(CORE, 3))


def C15(c):
    good, cor, bad = grammar_strings(c, Q(c, 20, 200), Q(c, 3000, 20000), Q(c, 16000, 90000))
    cut = fit_tokens([ts[:k] for ts in c.rng.sample(good, min(len(good), Q(c, 400, 3000))) for k in range(len(ts))])
    parse_families(c, lambda why: why.startswith("C15"), killers=killers(), mutants=bad, beginnings=cut, short=all_short(c), long=long_ones(c))


#: a word for every role
CORE = ["Gismu", "Koha", "Cmevla", "Le", "La", "Pa", "By", "A", "Ja", "Giha", "Ga", "Guha", "Gi", "Ke", "Kehe", "Bo", "Na", "Ku", "Se",
        "Be", "Bei", "Noi", "Goi", "Nu", "Kei", "Pu", "Bai", "Zaho", "Ui", "Bahe", "Bu", "Zei", "I", "Niho", "Cu", "Vau", "Zohu", "Coi",
        "Xi", "Li", "Vei", "Vuhu", "Lu", "Zo", "Lahe"]
MAGIC = ["Bu", "Zei", "Bahe", "Zo", "Lohu", "Lehu", "Ui", "Koha", "Gismu", "Le"]
FRAMES = ["x Bu", "Koha x Bu", "x Bu Bu", "x Zei y", "x Zei y Zei x", "Le x Zei y Ku Gismu", "x Bu Zei y", "x Zei Bu", "x Zei y Bu",
          "x Zei Zei y", "Zo x", "Zo x Bu", "Zo x Zei y", "x Zo y Gismu", "Lohu x Lehu", "Lohu x y Lehu Bu", "Lohu Lehu x", "Lohu x",
          "Bahe x", "Bahe Bahe x y", "Bahe x Bu", "Bahe x Zei y", "x Bahe Bu", "x Bahe Zei y", "x Ui", "x Ui Bu", "x Ui Zei y",
          "Ui x Bu", "x Nai", "x Fuhe Ui", "x Y Bu", "Pa x Bu Boi", "Tei x Bu Foi", "Lau x Bu", "Gismu x Bu", "x Bu Gismu y",
          "Koha x Zei y", "x Zei y Koha", "x Bu Mai", "Xi x Bu", "Nu x Zei y Kei", "Zo x Gismu", "Le Gismu x Bu", "Gismu Ui x",
          "I x Bu", "I Ja x Bu", "x Bu Moi", "Lohu x Lehu Gismu", "Zo Zo x", "Zei x", "Bu x", "x Zei", "Gismu Zo x", "Bahe Zo x",
          "Zoi ZoiDelimiter AnyText ZoiDelimiter x", "La x Bu", "Se x Zei y", "Gismu Bo x Zei y", "Koha Goi x Bu", "x Daho Bu",
          "x Cai Nai Bu", "Bahe Ui x", "Bahe x Ui y"]


def C16(c):
    import gramgen
    r = c.rng
    one = [tuple(x if w == "x" else "Gismu" if w == "y" else w for w in f.split()) for f in FRAMES for x in gramgen.selmaho()]
    two = []
    for f in FRAMES:
        if "y" in f.split():
            for _ in range(Q(c, 60, 600)):
                d = {"x": r.choice(gramgen.FILL + CORE), "y": r.choice(gramgen.selmaho())}
                two.append(tuple(d.get(w, w) for w in f.split()))
    good, cor, _ = grammar_strings(c, Q(c, 10, 80), Q(c, 500, 8000), 1)
    inside = []
    for _ in range(Q(c, 5000, 60000)):
        ts = list(r.choice(good if r.random() < 0.5 else cor))
        k = r.randint(0, len(ts))
        w = lambda: r.choice(gramgen.FILL) if r.random() < 0.6 else r.choice(gramgen.selmaho())
        m = r.choice((["Bu"], ["Bu", "Bu"], ["Zei", w()], [w(), "Bu"], [w(), "Zei", w()], ["Zo", w()], ["Lohu", w(), "Lehu"],
                      ["Lohu", w(), w(), "Lehu"], ["Bahe"], ["Ui"], ["Nai"], ["Bahe", w()], [w(), "Ui", "Bu"], ["Y"], ["Fuhe", "Ui"],
                      ["Zei", w(), "Bu"], ["Bu", "Zei", w()], ["Lehu"], ["Fuho"], ["Daho"]))
        inside.append(ts[:k] + m + ts[k + (r.random() < 0.5):])
    tss = uniq(one + two + [k for k in killers() if set(k) & {"Bu", "Zei", "Bahe", "Zo", "Lohu"}] + [ts for ts in map(tuple, inside) if gramgen.fit(ts)] + list(short_over(MAGIC, Q(c, 4, 5))))
    pl = {ts: plain_of(ts) for ts in tss}
    bare = uniq(pl.values())
    alone = dict(zip(bare, observe(["P\t" + ",".join(t) for t in bare], 6.0)))
    items = [P(ts) if r.random() < 0.7 or not ts else PT(ts, marks(r, ts), r)[:2] + (list(ts),) for ts in tss if "fail" not in alone[pl[ts]]]

    def rec(o, toks):
        q = pl[tuple(toks)]
        return dict(rec_P(o, toks), plain=rec_P(alone[q], list(q)))
    c.validate("magic words", "Val16", items, rec, timeout=6.0, hang_is_violation=False)


def plain_of(ts):
    """plain words instead of magic constructs (only to tell what a deviation is due to)"""
    out = []
    k = 0
    while k < len(ts):
        w = ts[k]
        if w == "Zo" and k + 1 < len(ts):
            out.append("Koha")
            k += 2
        elif w == "Lohu" and "Lehu" in ts[k:]:
            out.append("Koha")
            k += ts[k:].index("Lehu") + 1
        elif w in ("Bahe", "Ui", "Cai", "Y", "Daho", "Fuho", "Fuhe"):
            k += 1
        elif w == "Bu" and out:
            out[-1] = "By"
            k += 1
        elif w == "Zei" and out and k + 1 < len(ts):
            out[-1] = "Lujvo"
            k += 2
        else:
            out.append(w)
            k += 1
    return tuple(out)


# ---------------------------------------------------------------- trees
def PT(ts, stars=(), r=None):
    """tokens as the harness makes them, and the line that has them parsed; with r, at places of its choice"""
    spec, toks, at = [], [], 0
    for k, t in enumerate(ts):
        gap, n = int(k > 0), 1 + len(t) % 3
        if r:
            gap = r.choice((0, 0, 1, 1, 2, 5)) if k else r.choice((0, 0, 0, 1, 3, 250, 65530, 10 ** 9))
            n = r.choice((1, 2, 2, 3, 9)) if t != "AnyText" else r.choice((0, 0, 1, 4))
            gap += n == 0 and k > 0        # no two tokens at the same place
        at += gap
        spec.append(t + ("*" if k in stars else "") + (f"@{gap}.{n}" if r else ""))
        toks.append([t, int(k in stars), at, at + n])
        at += n
    return " ".join(spec), "P\t" + ",".join(spec), toks


def rec_tree(o, toks):
    if not o["ok"]:
        return None
    if toks is None:
        toks = o["items"]
    return {"toks": toks, "rows": o["tree"]}


def unmarkable(ts):
    """positions inside delimited quotations, which never are experimental"""
    return {j for k, t in enumerate(ts) if t == "Zoi" for j in (k + 1, k + 2, k + 3)}


def marks(r, ts):
    """which tokens to mark experimental"""
    ok = [k for k in range(len(ts)) if k not in unmarkable(ts)]
    if not ok:
        return ()
    n = r.choice((0, 1, 1, 1, 1, 2, 3))
    return tuple(sorted(r.sample(ok, min(n, len(ok)))))


def trees(c, per, rand, mut, keep):
    import gramgen
    r = c.rng
    good, cor, bad = grammar_strings(c, per, rand, mut)
    frames = [tuple(x if w == "x" else "Koha" if w == "y" else w for w in f.split()) for f in FRAMES
              for x in r.sample(gramgen.selmaho(), 12)]
    items = [PT(ts, marks(r, ts), r if r.random() < 0.6 else None) for ts in good + cor + bad + frames + killers() + long_ones(c)]
    # each token of a text marked in turn
    for ts in r.sample(good, min(len(good), Q(c, 500, 4000))):
        items += [PT(ts, (k,), r) for k in range(len(ts)) if k not in unmarkable(ts)]
    sent = uniq(gen.corpus("sentences.txt") + gen.corpus("srasu.txt"))
    texts = [(s, "X\t" + hexs(s), None) for s in sent if len(s) < 400]
    for k in range(Q(c, 300, 3000)):
        s = " ".join(r.sample(sent, 2))
        if len(s) < 200:
            texts.append((s, "X\t" + hexs(s), None))
    items = list({i[0]: i for i in items + texts}.values())
    # some looked at through a box
    items = [(k, "PB" + l[1:] if l[:2] == "P\t" and r.random() < 0.2 else l, t) for k, l, t in items]
    c.validate("trees", "ValTree", items, rec_tree, timeout=6.0, hang_is_violation=False, keep=keep)


def C11(c):
    trees(c, Q(c, 40, 400), Q(c, 4000, 40000), Q(c, 2000, 20000), lambda why: why.startswith("C11"))


def C12(c):
    c.model("MCTree")
    trees(c, Q(c, 40, 400), Q(c, 4000, 40000), Q(c, 1000, 10000), lambda why: why.startswith("C12"))


# ---------------------------------------------------------------- positions
def halves(x):
    return [x >> 16, x & 0xffff]


def C18(c):
    r = c.rng
    c.model("MCSpan")
    items = []

    def add(op, a, b=(0, 0), text="", big=False):
        line = f"S\t{op}\t{a[0]}\t{a[1]}\t" + (hexs(text) if op in ("slice", "before", "after", "entire", "embed") else str(b[0])) + f"\t{b[-1]}"
        items.append(((op, a, b, text), line, (op, a, b, text, big)))
    m = Q(c, 8, 12)
    small = [(i, j) for i in range(m + 1) for j in range(i, m + 1)]
    for a in small:
        for op in ("len", "empty", "at"):
            add(op, a)
        for k in range(m + 2):
            add("contains", a, (k,))
        for b in small:
            add("overlaps", a, b)
            add("between", a, b)
            add("eq", a, b)
    for a in itertools.product(range(m + 1), repeat=2):
        add("new", a)
    # positions near the powers of two and everywhere
    top = 2 ** 32 - 1
    near = lambda: min(top, max(0, r.choice((0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, top, r.randint(0, top), r.randint(0, 300)))
                                + r.choice((0, 0, 1, -1, 2))))
    for _ in range(Q(c, 3000, 40000)):
        pts = [near() for _ in range(4)]
        if r.random() < 0.4:
            pts[2] = r.choice(pts[:2])
        if r.random() < 0.3:
            pts[1] = pts[0]
        a, b = tuple(sorted(pts[:2])), tuple(sorted(pts[2:]))
        add(r.choice(("len", "empty", "at")), a, big=True)
        add("contains", a, (b[0],), big=True)
        add("eq", a, r.choice((b, b, a, (b[0], a[1]) if b[0] <= a[1] else b)), big=True)
        add("new", (pts[2], pts[0]), big=True)
        add("overlaps", a, b, big=True)
        add("between", a, b, big=True)
    alphabet = ["a", "b", "é", "ш", "中", "\U0001f600", " ", ",", "\u0301", "\x00"]
    ts = [""] + list(gen.short_strings(["a", "é", "中", "\U0001f600"], Q(c, 2, 4)))
    ts += ["".join(r.choice(alphabet) for _ in range(r.randint(3, 9))) for _ in range(Q(c, 30, 300))]
    for t in uniq(ts):
        n = len(t.encode())
        add("entire", (0, 0), text=t)
        for i in range(n + 3):
            for j in range(i, n + 3):
                if n <= 6 or r.random() < 0.25:
                    for op in ("slice", "before", "after"):
                        add(op, (i, j), text=t)
        for i, j in ((0, top), (n, top), (top, top), (65536, 65536 + n), (2 ** 31, 2 ** 31 + n), (2 ** 16, 2 ** 16), (n, 2 ** 16 + n)):
            for op in ("slice", "before", "after"):
                add(op, (min(i, 2 ** 31 - 2), min(j, 2 ** 31 - 2)), text=t)
        bnd = sorted(CharMap(t).pos)
        for base in bnd:
            for i in bnd:
                for j in bnd:
                    if base <= i <= j and r.random() < 0.5:
                        add("embed", (i - base, j - base), (base, base), t)

    def rec(o, ctx):
        op, a, b, t, big = ctx
        res = o["span"]
        if big:
            conv = (lambda v: [halves(x) for x in v]) if op in ("len", "between", "at", "new") else (lambda v: v)
            return {"op": op.upper(), "a": [halves(x) for x in a], "b": [halves(x) for x in b], "n": 0, "bnd": [], "r": conv(res)}
        return {"op": op, "a": a, "b": b, "n": len(t.encode()), "bnd": sorted(CharMap(t).pos), "r": res}
    c.validate("positions", "Val18", list({i[0]: i for i in items}.values()), rec)


# ---------------------------------------------------------------- sessions
def digest(x):
    return x if len(x) < 60 else hashlib.sha1(x.encode()).hexdigest()


def session_pool(c, n):
    """things and their results when used alone, each in a session of its own"""
    import gramgen
    r = c.rng
    good, cor, bad = grammar_strings(c, Q(c, 4, 20), Q(c, 300, 2000), Q(c, 300, 2000))
    tss = r.sample(good, min(len(good), n)) + r.sample(cor, min(len(cor), n)) + r.sample(bad, min(len(bad), n))
    ts = [gen.text(r) for _ in range(n)] + [lex_text(r, 0.4, 0.3, 0.1, 0.2) for _ in range(n)] + gen.sentences(r, n)
    ws = [w for w, _, _ in r.sample(gen.cmavo(), n)] + r.sample(gen.corpus("words.txt"), n) + [gen.chunk(r, 10) for _ in range(n // 2)]
    specs = uniq(["P:" + ",".join(t) for t in tss if t] + [k + ":" + hexs(t) for t in ts for k in "DL"] + ["W:" + hexs(w) for w in ws])
    cousins = {s: cousin(r, s) for s in specs}
    specs = uniq(specs + list(cousins.values()))

    def line(s):
        if s[0] == "P":
            return f"Y\t{s}\t0p"
        if s[0] == "W":
            return f"Y\t{s}\t0w"
        return (f"D\t" if s[0] == "D" else "L\t") + s[2:]
    pool = {}
    for s, o in zip(specs, observe([line(s) for s in specs], 6.0)):
        if "fail" in o:
            continue
        if s[0] == "D":
            t = bytes.fromhex(s[2:]).decode()
            m = CharMap(t)
            pool[s] = {"kind": "D", "cs": chars(t), "words": [m.span(w) for w in o["words"]]}
        elif s[0] == "L":
            pool[s] = {"kind": "L", "items": [digest(json.dumps(x, separators=(",", ":"))) for x in o["items"]]}
        else:
            pool[s] = {"kind": s[0], "result": digest(o["answers"][0][2])}
    return pool, {a: b for a, b in cousins.items() if a in pool and b in pool and a != b}


OPS = {"D": "nnnnqqcra", "L": "nnnnnnnnra", "P": "pppta", "W": "wwa"}


def cousin(r, s):
    """something of the same kind and length as s, with one place changed"""
    import gramgen
    if s[0] == "P":
        ts = s[2:].split(",")
        ts[r.randrange(len(ts))] = r.choice(gramgen.used())
        return "P:" + ",".join(ts)
    t = list(bytes.fromhex(s[2:]).decode())
    ks = [k for k, ch in enumerate(t) if ch.isascii()]
    if ks:
        k = r.choice(ks)
        t[k] = r.choice("aeiou'bdkrsy ." if t[k] != "." else " a")
    return s[:2] + hexs("".join(t))


def session(r, specs, n, cousins={}):
    things = [r.choice(specs) for _ in range(r.randint(2, 5))]
    if r.random() < 0.5:
        things += [cousins[s] for s in things if s in cousins][:2]
    if r.random() < 0.3:
        things.append(r.choice(things))        # the same thing twice
    ops = []
    mostly_a = r.random() < 0.3
    for _ in range(r.randint(2, n)):
        k = r.randrange(len(things))
        for _ in range(r.choice((1, 1, 1, 2, 5))):
            ops.append(f"{k}{'a' if mostly_a and r.random() < 0.8 else r.choice(OPS[things[k][0]])}")
    return things, ops


def rec_session(pool, things, answers):
    maps = {}

    def conv(a):
        k, op, v = a
        s = things[k - 1]
        if s[0] == "D" and op in "nqc":
            v = json.loads(v)
            if op != "c":
                if s not in maps:
                    maps[s] = CharMap(bytes.fromhex(s[2:]).decode())
                v = maps[s].span(v)
            return [k, op, v]
        if op == "a" and s[0] == "D":
            m = maps.setdefault(s, CharMap(bytes.fromhex(s[2:]).decode()))
            return [k, op, [m.span(w) for w in json.loads(v)]]
        if op == "a" and s[0] == "L":
            return [k, op, [digest(json.dumps(x, separators=(",", ":"))) for x in json.loads(v)]]
        return [k, op, digest(v)]
    return {"things": [pool[s] for s in things], "ops": [conv(a) for a in answers]}


def C19(c):
    r = c.rng
    c.model("MCSessions")
    pool, cousins = session_pool(c, Q(c, 250, 2000))
    specs = sorted(pool)
    parses = [s for s in specs if s[0] == "P"]
    one = lambda ss, n: (lambda t: (" / ".join(t[0] + t[1]), "Y\t" + "\t".join(t[0]) + "\t" + " ".join(t[1]), t[0]))(session(r, ss, n, cousins))
    rec = lambda o, things: rec_session(pool, things, o["answers"])
    sessions = [one(specs, 25) for _ in range(Q(c, 4000, 40000))] + [one(parses, 12) for _ in range(Q(c, 800, 8000))]
    c.validate("one after the other", "Val19", sessions, rec, mem="8g")
    c.validate("with logging", "Val19", [(k, l, t) for k, l, t in r.sample(sessions, Q(c, 600, 6000))], rec, env={"CONF_LOG": "1"})
    # in threads at once; one record for each thread
    items = []
    for _ in range(Q(c, 250, 2500)):
        ss = [session(r, specs, 25, cousins) for _ in range(r.choice((2, 4, 8)))]
        if r.random() < 0.5:
            ss = [ss[0]] * len(ss)             # all the same
        line = "Z\t" + "\t|\t".join("\t".join(t) + "\t" + " ".join(o) for t, o in ss)
        items.append((line, line, ss))
    flat = []

    def each(o, ss):
        for (things, _), a in zip(ss, o["threads"]):
            flat.append(rec_session(pool, things, a))
        return None
    for name, env in (("in threads", None), ("in threads, with logging", {"CONF_LOG": "1"})):
        flat.clear()
        some = items if env is None else items[:len(items) // 5]
        c.validate(name, "Val19", some, each, env=env)
        c.validate_records(name, "Val19", [(json.dumps(f)[:300], f) for f in flat])
    # the first thing a process ever does
    fresh = []
    for k, l, t in r.sample(sessions, Q(c, 120, 1000)):
        o = observe([l])[0]
        if "fail" in o:
            c.violation(k, "no answer in a process of its own", {"line": l})
        else:
            fresh.append((k, rec_session(pool, t, o["answers"])))
    c.validate_records("in a process of its own", "Val19", fresh)


# ---------------------------------------------------------------- answers
RUNS = ["a", "ai", "'", "a'", "y", "y'", ",", ", ", " ", "?", "é", "1", "ba", "iau", "la", "A", "h", ",a", "a,", "i", "uu", "ia", "'a",
        "ua'", ". ", "zoi ", "zoi gy ", "me'oi ", "so'e'ai ", "gy ", "fa'o ", "la,", "mi ", "\U0001f600", "i ", "'y", "1é", ",,a"]


def syllables(r):
    """words of up to some two dozen letters that repeat themselves, the worst for backtracking"""
    c, v = lambda: r.choice(gen.CONS), lambda: r.choice(gen.VOW)
    u = r.choice((lambda: c() + v() + c(), lambda: c() + v(), lambda: c() + c() + v(), lambda: v() + c(), lambda: c() + v() + "'" + v(),
                  lambda: c() + v() + "i", lambda: v() + "i", lambda: v() + c() + c(), lambda: c() + v() + c() + "y", lambda: c() + v() + c() + c() + v(),
                  lambda: v() + "'" + v(), lambda: c() + r.choice("lmnr") + c() + v()))
    n = r.choice((8, 12, 16, 20, 24))
    if r.random() < 0.5:
        w = (u() * 12)[:n]
    else:
        w = "".join(u() for _ in range(12))[:n]
    w = r.choice(("", "", "", "la", "e", "o'o")) + w + r.choice(("", "", "", "dn", "t", "n", "y", "'", "zb", "éa"))
    k = r.random()
    if k < 0.1:
        w = w.upper()
    elif k < 0.2:
        w = stressed(r, w)
    elif k < 0.3:
        w = gen.commas(r, w, 0.3)
    return w


def stressed(r, w):
    return "".join(ch.upper() if r.random() < 0.3 else ch for ch in w)


def nested(r, n):
    """constructs in one another, n deep, closed or not"""
    import gramgen
    out, close = [], []
    for _ in range(n):
        o, e = r.choice((("Le", "Ku"), ("Nu", "Kei"), ("Lu", "Lihu"), ("Ke", "Kehe"), ("To", "Toi"), ("Vei", "Veho"), ("Be", "Beho"), ("Noi", "Kuho"),
                         ("Goi", "Gehu"), ("La", "Ku"), ("Lahe", "Luhu"), ("Nahe", "Bo"), ("Sei", "Sehu"), ("Bai", "Ku"), ("Tei", "Foi"), ("Me", "Mehu"),
                         ("Nuha", "Gismu"), ("Ga", "Gi"), ("Guha", "Gi"), ("Tuhe", "Tuhu"), ("Li", "Loho"), ("Johi", "Tehu"), ("Pehe", "Gismu"),
                         ("Bahe", "Bahe"), ("Se", "Se"), ("Nahe", "Gismu"), ("Xi", "Boi"), ("Zo", "Koha"), ("Lohu", "Lehu")))
        out.append(o)
        close.insert(0, e)
    return tuple(out + r.choice(([], ["Gismu"], ["Koha"], ["Pa"], ["AnyText"], ["Gismu", "Koha"])) + (close if r.random() < 0.5 else [])
                 + r.choice(([], ["Gismu"], ["I"])))


def C17(c):
    import gramgen
    r = c.rng
    c.model("MCGrammar")
    c.model("MCLexer")
    ts = [odd_text(r) for _ in range(Q(c, 5000, 60000))] + [gen.text(r, odd=0.3) for _ in range(Q(c, 3000, 40000))]
    ts += [lex_text(r, 0.4, 0.3, 0.1, 0.5) for _ in range(Q(c, 3000, 40000))]
    ts += gen.corpus("sentences.txt") + gen.corpus("srasu.txt")
    ts += [f"{a}{o}{b}" for o in gen.ODD for a in ("", "a", "la", "ba", ",", "1", ".", "zoi ", "me'oi ", "zoi gy ") for b in ("", "a", "'a", ",", "b", ".", " gy")]
    ts += list(gen.short_strings(["a", "b", "'", "y", ",", " ", "é", "1", "B"], Q(c, 4, 5)))
    ts = [t for t in uniq(ts) if len(t) < 300]
    def rec_X(o, t):
        return {"op": "X", "n": len(t.encode()), "answer": {k: o[k] for k in ("items", "lexok", "ok", "at")}}
    # what the parser cannot do in time is a finding of its own, see nested below
    c.validate("texts", "Val17", [(t, "L\t" + hexs(t), t) for t in ts], lambda o, t: {"op": "L", "n": len(t.encode()), "answer": o["items"]})
    short = [t for t in ts if len(t) < 60]
    c.validate("texts, parsed", "Val17", [(t, "X\t" + hexs(t), t) for t in r.sample(short, min(len(short), Q(c, 6000, 60000)))], rec_X)
    rec_W = lambda o, w: {"op": "W", "n": len(w.encode()), "answer": [o["class"], o["exp"]]}
    ws = [""] + [t for t in ts if len(t) <= 30]
    c.validate("words", "Val17", [(w, "W\t" + hexs(w), w) for w in uniq(ws)], rec_W)
    # the same with verbose logging on, on texts that differ most
    logged = [t for t in short if not t.isascii()]
    logged = r.sample(logged, min(len(logged), Q(c, 2500, 20000))) + r.sample(short, Q(c, 1500, 20000))
    c.validate("texts, parsed, with logging", "Val17", [(t, "X\t" + hexs(t), t) for t in logged], rec_X, env={"CONF_LOG": "1"})
    c.validate("words, with logging", "Val17", [(w, "W\t" + hexs(w), w) for w in r.sample(uniq(ws), Q(c, 3000, 20000))], rec_W, env={"CONF_LOG": "1"})
    rec_DC = lambda o, t: {"op": "DC", "n": len(t.encode()), "answer": o["words"]}
    runs = []
    for u in RUNS:
        for n in (1, 2, 7, 40, 300, 600):
            for a, b in (("", ""), ("la", ""), ("", "broda"), ("zoi", " zoi"), ("i", "é")):
                if n <= 40 or u not in ("ba", "la", "iau"):
                    runs.append(a + u * (n // len(u) or 1) + b)
    runs += ["," * 3000, " " * 3000, "a" * 2000, "," * 2000 + "a", "y" * 3000, "é" * 3000, "1" * 3000]
    runs += [f.format(far) for far in FAR for f in ("{0}", "{0} mi", "zoi gy {0} gy", "me'oi {0}", "la{0}n", "zoi {0} mi")]
    runs += [" ".join(r.sample(ts, 60)) for _ in range(Q(c, 10, 100))] + ["mi .i " * 3000, "mi" + " ," * 33000 + "do"]
    runs = uniq(runs)
    c.validate("runs", "Val17", [(t[:40] + f"... ({len(t)})" if len(t) > 60 else t, "DC\t" + hexs(t), t) for t in runs], rec_DC)
    c.validate("runs, lexed", "Val17", [(t[:40] + f"... ({len(t)})" if len(t) > 60 else t, "L\t" + hexs(t), t) for t in runs],
               lambda o, t: {"op": "L", "n": len(t.encode()), "answer": o["items"]})
    syl = uniq(syllables(r) for _ in range(Q(c, 4000, 40000)))
    c.validate("repeated syllables", "Val17", [(t, "DC\t" + hexs(t), t) for t in syl], rec_DC)
    c.validate("repeated syllables as words", "Val17", [(t, "W\t" + hexs(t), t) for t in syl[::2]], rec_W)
    toks = [tuple(r.choice(gramgen.selmaho()) for _ in range(r.randint(0, 10))) for _ in range(Q(c, 8000, 80000))]
    toks += [tuple(r.choice(gramgen.used()) for _ in range(r.randint(0, 10))) for _ in range(Q(c, 8000, 80000))]
    good, cor, bad = grammar_strings(c, Q(c, 10, 100), Q(c, 1000, 10000), Q(c, 6000, 60000))
    toks += bad + all_short(c) + killers() + long_ones(c)
    toks += [(w,) * n for w in gramgen.selmaho() for n in (3, 4)]
    toks += [nested(r, r.randint(1, 4)) for _ in range(Q(c, 3000, 30000))]
    rec = lambda o, ts: {"op": "P", "n": len(ts), "answer": [o["ok"], o["at"]]}
    # every second answer is shown as well
    c.validate("token sequences", "Val17", [(k, l + "\tshow" * (j % 2), t) for j, (k, l, t) in enumerate(P(ts) for ts in uniq(toks))], rec)
    c.validate("token sequences, with logging", "Val17", [P(ts) for ts in r.sample(uniq(toks), Q(c, 3000, 20000))], rec, env={"CONF_LOG": "1"})
    # long runs on a stack of the usual size
    usual = [("D", u, n) for u, n in (("a", 4000), ("y", 4000), ("b", 4000), ("1", 4000), ("a'", 4000), ("bab", 300), ("ba", 300), (",", 99999), (".mi", 5000),
                                      ("é", 99999), ("zoi gy ", 2000), ("i ", 5000), ("'", 4000))]
    usual += [("W", u, n) for u, n in (("a", 4000), ("y", 4000), ("b", 4000), ("bab", 300), ("ba", 60), (",", 20000), ("é", 99999))]
    usual += [("P", w, 60) for w in gramgen.selmaho() if w not in ("Ga", "Doi", "Lu")]
    usual += [("P", w, 20000) for w in ("Koha", "Gismu", "Pa", "I", "Niho", "By", "Cmevla", "Bu", "Na", "Se", "Fa", "AnyText")]
    rec_K = lambda o, what: {"op": "K" + what, "answer": o["answer"]}
    c.validate("long runs", "Val17", [(" ".join(("K", a, b, str(n))), f"K\t{a}\t{b}\t{n}", a) for a, b, n in usual], rec_K, timeout=60.0)
    for key in sorted(c.known):
        if key.startswith("K "):
            c.validate("known", "Val17", [(key, key.replace(" ", "\t"), key[2])], rec_K)
    # deeper nesting takes the parser exponential time; the listed ones are known
    for key in sorted(k for k in c.known if not k.startswith("K ")):
        c.validate("known", "Val17", [(key, "P\t" + key.replace(" ", ","), key.split(" "))], rec, timeout=3.0)
