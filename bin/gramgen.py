"""Token strings derived from the exported grammar, and their neighbours."""
import functools, itertools
import gen

FILL = ["Gismu", "Koha", "Cmevla", "Le", "Bu", "Zei", "Bahe", "Ui", "Pa", "By", "AnyText", "UnknownCmavo", "Na", "Ku", "Zo",
        "Lehu", "Faho", "I", "Si", "Nai", "Y", "Fuhe", "Zoi", "Lohu", "Mehoi", "ZoiDelimiter"]
#: words that open something: deep nesting of these takes the real parser exponential time
OPENERS = {"Lu", "To", "Nu", "Le", "La", "Ke", "Vei", "Fiho", "Tuhe", "Bahe", "Ga", "Guha", "Noi", "Nuhi", "Be", "Lahe", "Me", "Soi",
           "Sei", "Xi", "Maho", "Mohe", "Nihe", "Nahu", "Johi", "Peho", "Li", "Coi", "Doi", "Tei", "Nuha", "Goi", "Se", "Nahe", "Jai", "Na"}


@functools.lru_cache(None)
def grammar():
    return gen.rules()["grammar"]


@functools.lru_cache(None)
def selmaho():
    return sorted(gen.rules()["repr"])


def kids(e):
    t = e[0]
    if t in ("s", "alt"):
        return e[1]
    if t in ("o", "mc", "cut"):
        return [e[1]]
    if t in ("m", "nd"):
        return [e[2]]
    if t == "till":
        return [e[1], e[2]]
    return []


@functools.lru_cache(None)
def minimal():
    """production -> length of its shortest derivation"""
    g = grammar()
    inf = 10 ** 6
    m = {r: inf for r in g}
    while True:
        n = {r: size(m, e) for r, e in g.items()}
        if n == m:
            return m
        m = n


def size(m, e):
    t = e[0]
    if t == "n":
        return m[e[1]]
    if t in ("t", "ti", "tr", "bu", "any", "as", "anybut"):
        return 1
    if t == "s":
        return min(10 ** 6, sum(size(m, x) for x in e[1]))
    if t == "alt":
        return min(size(m, x) for x in e[1])
    if t in ("o", "!"):
        return 0
    if t == "m":
        return e[1] * size(m, e[2])
    if t == "mc":
        return max(1, size(m, e[1]))
    if t == "cut":
        return size(m, e[1])
    if t == "nd":
        return size(m, e[2])
    if t == "till":
        return size(m, e[2])
    raise ValueError(t)


@functools.lru_cache(None)
def reach(target):
    """production -> least number of further productions to enter until target is entered"""
    g = grammar()
    d = {target: 0}
    todo = [target]
    users = {}
    for r, e in g.items():
        for x in names(e):
            users.setdefault(x, set()).add(r)
    while todo:
        nxt = []
        for x in todo:
            for u in users.get(x, ()):
                if u not in d:
                    d[u] = d[x] + 1
                    nxt.append(u)
        todo = nxt
    return d


_names = {}


def names(e):
    if e[0] == "n":
        return (e[1],)
    if id(e) not in _names:      # the grammar is never freed
        _names[id(e)] = tuple(sorted(set().union(*(names(x) for x in kids(e))))) if kids(e) else ()
    return _names[id(e)]


class Deriver:
    """A random derivation that deviates with probability p from the shortest one at every choice, after
    it has passed the given productions in this order."""
    def __init__(self, rng, p, targets=(), maxlen=22, wordp=0.03):
        self.r, self.p, self.targets, self.maxlen, self.wordp = rng, p, targets, maxlen, wordp

    def derive(self):
        self.goals = list(self.targets)
        self.goal = self.goals.pop(0) if self.goals else None
        self.n = 0
        self.depth = 0
        return self.go(["n", "Text"])

    def leads(self, e):
        """how far e is from the goal, if it leads there"""
        if self.goal is None:
            return None
        d = reach(self.goal)
        best = [d[x] for x in names(e) if x in d]
        return min(best) if best else None

    def dev(self):
        return self.goal is None and self.n < self.maxlen and self.depth < 60 and self.r.random() < self.p

    def go(self, e):
        t = e[0]
        r = self.r
        if t == "n":
            if e[1] == self.goal:
                self.goal = self.goals.pop(0) if self.goals else None
                if self.goal and e[1] not in reach(self.goal):
                    self.goal = None
            self.depth += 1
            out = self.go(grammar()[e[1]])
            self.depth -= 1
            return out
        if t in ("t", "ti", "tr"):
            self.n += 1
            out = [e[1]]
            if t != "tr" and r.random() < self.wordp:
                out = ["Bahe"] * r.choice((1, 1, 2)) + out
            if t == "t" and r.random() < self.wordp:
                out += r.choice((["Ui"], ["Nai"], ["Fuhe", "Ui"], ["Y"], ["Cai", "Nai"], ["Daho"], ["Fuho"], ["Ui", "Bahe", "Cai"]))
            return out
        if t == "bu":
            self.n += 1
            return ["Bu"]
        if t in ("any", "anybut"):
            self.n += 1
            return [r.choice(FILL) if r.random() < 0.7 else r.choice(selmaho())]
        if t == "as":
            self.n += 1
            return ["AnyText" if e[2] else r.choice(["ZoiDelimiter", "ZoiDelimiter", "Koha", "AnyText"])]
        if t == "s":
            out = []
            best = self.leads(e)
            done = best is None
            for x in e[1]:
                if not done and self.leads(x) == best:
                    done = True
                    out += self.go(x)
                elif done:
                    out += self.go(x)
                else:
                    goal, self.goal = self.goal, "-"
                    out += self.go(x)
                    self.goal = goal
            return out
        if t == "alt":
            best = self.leads(e)
            if best is not None:
                return self.go(r.choice([x for x in e[1] if self.leads(x) == best]))
            m = minimal()
            if self.dev():
                return self.go(r.choice(e[1]))
            s = [size(m, x) for x in e[1]]
            return self.go(r.choice([x for x, k in zip(e[1], s) if k == min(s)]))
        if t == "o":
            return self.go(e[1]) if self.leads(e) is not None or self.dev() else []
        if t == "m":
            n = e[1]
            if self.leads(e) is not None:
                n = max(n, 1)
            if self.dev():
                n += r.choice((1, 1, 1, 2))
            return sum((self.go(e[2]) for _ in range(n)), [])
        if t == "!":
            return []
        if t == "mc":
            for _ in range(4):
                out = self.go(e[1])
                if out:
                    return out
            return out or self.some(e[1])
        if t == "cut":
            return self.go(e[1])
        if t == "nd":
            return self.go(e[2])
        if t == "till":
            return sum((self.go(e[1]) for _ in range(r.choice((0, 0, 1, 2, 3)))), []) + self.go(e[2])
        raise ValueError(t)

    def some(self, e):
        """a word with which e can begin"""
        w = [x for x in leaves(e)]
        return [self.r.choice(w)] if w else []


def leaves(e, seen=None):
    seen = set() if seen is None else seen
    if e[0] in ("t", "ti", "tr"):
        yield e[1]
    elif e[0] == "n" and e[1] not in seen:
        seen.add(e[1])
        yield from leaves(grammar()[e[1]], seen)
    else:
        for x in kids(e):
            yield from leaves(x, seen)


def fit(ts, maxlen=30, openers=9):
    return len(ts) <= maxlen and sum(t in OPENERS for t in ts) <= openers and ts.count("Bahe") <= 5


def pumped(r, ts):
    """a part of it several times"""
    i = r.randint(0, max(0, len(ts) - 1))
    j = i + r.choice((1, 1, 2, 2, 3, 4))
    return ts[:j] + ts[i:j] * r.choice((1, 2, 3, 5, 8, 12)) + ts[j:]


def long_text(r, tss, n):
    """many statements one after the other"""
    out = []
    while len(out) < n:
        out += list(r.choice(tss)) + r.choice((["I"], ["I"], ["I"], ["Niho"]))
    return tuple(out)


#: nesting of these takes the parser too long
SLOW = {"Bahe", "Doi", "Ga", "Lu", "Coi", "Noi", "Nu", "Sei", "Soi", "To"}


def run(r, n):
    """the same thing over and over"""
    w = r.choice(RUNS if r.random() < 0.8 else [x for x in selmaho() if x not in SLOW])
    k = r.randrange(6)
    if k == 0:
        return (w,) * n
    if k == 1:
        return ("Gismu",) + (w,) * n
    if k == 2:
        return ("Koha",) + (w,) * n + r.choice((("Gismu",), (), ("Ku", "Gismu"), ("Koha",)))
    if k == 3:
        return r.choice((("Le",), ("Pa",), ("La",), ("Coi",), ("Gismu", "Ui"))) + (w,) * n + r.choice((("Gismu",), (), ("Ku", "Gismu"), ("Boi", "Gismu")))
    return r.choice(((r.choice(("Gismu", "Koha", "Pa", "I", "By", "Cmevla")), w), (w, r.choice(("Gismu", "Koha", "Nai", "Bu", "I"))))) * (n // 2)


RUNS = ["Gismu", "Koha", "Pa", "By", "Cmevla", "I", "Niho", "Ui", "Cai", "Nai", "Se", "Nahe", "Na", "Bu", "Y", "Pu", "Zi", "Faha", "Va", "Zaho", "Tahe", "Roi", "Cu", "Ku",
        "Fa", "Bai", "Jai", "A", "Ja", "Joi", "Giha", "Bo", "Co", "Zohu", "Lujvo", "Fuhivla", "Vuhu", "Mai", "Moi", "Zei", "Ki", "Caha", "Cuhe", "Fehe", "Kehe", "Be", "Bei",
        "Zo", "Lohu", "Lehu", "Xi", "Daho", "Fuhe", "Fuho", "Lau", "Tei", "Foi", "Goha", "Raho", "Nuha", "La", "Le", "Li", "Me", "Johi", "Boi", "Vau", "Zihe", "Goi", "Gehu"]


def mutant(r, ts):
    ts = list(ts)
    for _ in range(r.choice((1, 1, 1, 2))):
        k = r.random()
        i = r.randrange(len(ts)) if ts else 0
        if not ts or k < 0.2:
            ts.insert(i, r.choice(selmaho()[:]) if r.random() < 0.5 else r.choice(FILL))
        elif k < 0.45:
            del ts[i]
        elif k < 0.55:
            ts.insert(i, ts[i])
        elif k < 0.7 and len(ts) > 1:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.8:
            del ts[i:]
        else:
            ts[i] = r.choice(near(ts[i]))
    return ts


@functools.lru_cache(None)
def used():
    return sorted(set(leaves(["n", "Text"])))


@functools.lru_cache(None)
def near(t):
    """words that stand where t does"""
    groups = [["A", "Ja", "Giha", "Joi", "Bihi", "Gaho", "Ga", "Guha", "Gi", "I"], ["Ku", "Kei", "Vau", "Kuho", "Gehu", "Kehe", "Lihu",
              "Luhu", "Beho", "Fehu", "Sehu", "Toi", "Tuhu", "Nuhu", "Veho", "Tehu", "Boi", "Loho", "Mehu", "Dohu", "Kuhe", "Foi", "Lehu"],
              ["Bo", "Ke", "Bu", "Zei"], ["Koha", "Gismu", "Cmevla", "By", "Pa", "Lujvo", "Fuhivla", "Goha", "UnknownCmavo", "AnyText"],
              ["Pu", "Zi", "Zeha", "Zaho", "Tahe", "Roi", "Caha", "Bai", "Faha", "Va", "Veha", "Viha", "Fehe", "Mohi", "Ki", "Cuhe", "Fiho"],
              ["Le", "La", "Lu", "Lohu", "Zo", "Zoi", "Li", "Lahe", "Nahe", "Se", "Jai", "Na", "Nai", "Me", "Nu", "Nuha"]]
    for g in groups:
        if t in g:
            return g
    return used()


@functools.lru_cache(None)
def prods():
    return sorted(grammar())


def waypoints(r, target):
    k = r.random()
    if k < 0.3:
        return [target]
    if k < 0.65:
        return [r.choice(("Sentence", "SentenceTail", "Arg", "Sumti", "Selbri", "TanruUnit2", "Sentences3", "Subsentence", "TailArgs",
                          "Tag", "Sumti4", "Expression", "GekSentence", "RelativeClause")), target]
    return [r.choice(prods()), target]


def directed(r, per, ps=(0.0, 0.08, 0.2)):
    """for every production, derivations through it"""
    for prod in prods():
        for k in range(per):
            d = Deriver(r, ps[k % len(ps)], waypoints(r, prod), maxlen=14, wordp=0.0 if k % 3 else 0.04)
            ts = d.derive()
            if fit(ts):
                yield ts


def random_texts(r, n):
    for _ in range(n):
        d = Deriver(r, r.choice((0.05, 0.1, 0.2, 0.3)), waypoints(r, r.choice(prods())), maxlen=r.choice((8, 16, 24)))
        ts = d.derive()
        if fit(ts):
            yield ts
