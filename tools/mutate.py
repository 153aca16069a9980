#!/usr/bin/env python3
"""Mutation campaign (not a check): which small changes of the code that pass its tests go unnoticed by the inputs of the
checks.  A change counts as noticed when an observation differs from that of the unchanged code (which the checks hold to be right).

mutate.py lines DIR           record the harness lines of all quick checks
mutate.py run DIR WORKERS N [FILE...]   try N random changes (of the given files)
"""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/bin")


def record(dir):
    import vlib, checks
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = "1", "quick"
    seen = {}
    real = vlib.observe

    def rec(prop):
        def observe(lines, timeout=20.0, env=None):
            out = real(lines, timeout, env)
            if env is None:
                for l, o in zip(lines, out):
                    if "fail" not in o:
                        seen.setdefault(l, (prop, dig(o)))
            return out
        return observe
    vlib.judge = checks.judge = lambda module, records, **kw: ([], len(records), 0)
    vlib.Check.model = lambda self, module, **kw: (vlib.tlc_ok(module, **kw)[0] if module == "MCDecomposer" else "")
    for k in range(1, 20):
        p = f"C{k:02}"
        if not hasattr(checks, p):
            continue
        vlib.observe = checks.observe = rec(p)
        n = len(seen)
        getattr(checks, p)(vlib.Check(p))
        print(p, len(seen) - n, flush=True)
    ls = list(seen.items())
    pickle.dump(ls, open(dir + "/lines.pkl", "wb"))


def dig(o):
    o = {k: v for k, v in o.items() if k != "id"}
    return hashlib.md5(json.dumps(o, sort_keys=True).encode()).digest()[:8]


# ------------------------------------------------------------------ changes
SWAPS = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "),
         ("true", "false"), ("false", "true"), ("Some(", "None.or(Some("), (".start", ".end"), (".end", ".start"), ("if !", "if "), ("many0", "many1"), ("many1", "many0"),
         ("is_some", "is_none"), ("is_none", "is_some"), ("is_empty", "is_ascii"), ("..=", ".."), ("not(", "peek("), ("peek(", "not("), ("opt(", "("), ("many0(", "opt("),
         ("first()", "last()"), ("last()", "first()"), ("break", "continue"), ("max(", "min("), ("min(", "max("), (".or(", ".and("), ("any(", "all("), ("all(", "any("),
         ("saturating_sub", "saturating_add"), ("rfind", "find"), ("trim_end", "trim_start"), ("rev()", "skip(0)"), ("&'arena", "Option<&'arena"), ("self.0", "self.1")]
SIM = [["stressed", "unstressed", "explicit"]]


def mutants(rng, path, text):
    """an endless stream of (description, new text)"""
    lines = text.split("\n")
    stop = next((k for k, l in enumerate(lines) if l.startswith("#[cfg(test)]") or l.startswith("mod test")), len(lines))
    code = [k for k in range(stop) if lines[k].strip() and not lines[k].strip().startswith(("//", "#![", "use "))]
    idents = sorted(set(re.findall(r"\b[a-z_]+(?=[,\)\]])", "\n".join(lines[:stop]))))
    types = sorted(set(re.findall(r"\b[A-Z][A-Za-z0-9]+\b", "\n".join(lines[:stop]))))
    while True:
        k = rng.choice(code)
        l = lines[k]
        how = rng.random()
        new = list(lines)
        if how < 0.3:
            ok = [(a, b) for a, b in SWAPS if a in l]
            if not ok:
                continue
            a, b = rng.choice(ok)
            i = rng.choice([m.start() for m in re.finditer(re.escape(a), l)])
            new[k] = l[:i] + b + l[i + len(a):]
        elif how < 0.4:
            ms = list(re.finditer(r"\b\d+\b", l))
            if not ms:
                continue
            m = rng.choice(ms)
            new[k] = l[:m.start()] + str(max(0, int(m.group()) + rng.choice((1, -1)))) + l[m.end():]
        elif how < 0.55:
            del new[k]
        elif how < 0.7:
            if k + 1 >= stop:
                continue
            new[k], new[k + 1] = new[k + 1], new[k]
        elif how < 0.85:
            # an element of a list less, or two swapped
            ms = list(re.finditer(r"[A-Za-z_0-9!&'\"]+(?:\([^()]*\)|\[[^\[\]]*\])?, ?", l))
            if not ms:
                continue
            m = rng.choice(ms)
            if rng.random() < 0.6:
                new[k] = l[:m.start()] + l[m.end():]
            else:
                m2 = re.match(r"[A-Za-z_0-9!&'\"]+(?:\([^()]*\)|\[[^\[\]]*\])?", l[m.end():])
                if not m2:
                    continue
                new[k] = l[:m.start()] + m2.group() + ", " + m.group().rstrip(", ") + l[m.end() + m2.end():]
        elif how < 0.93:
            ms = [m for m in re.finditer(r"\b[a-z_]{3,}\b", l) if m.group() in idents]
            if not ms:
                continue
            m = rng.choice(ms)
            near = [x for x in idents if x != m.group() and (x.split("_")[-1] == m.group().split("_")[-1])]
            if not near:
                continue
            new[k] = l[:m.start()] + rng.choice(near) + l[m.end():]
        else:
            ms = [m for m in re.finditer(r"\b[A-Z][A-Za-z0-9]+\b", l)]
            if not ms:
                continue
            m = rng.choice(ms)
            near = [x for x in types if x != m.group() and (x[:3] == m.group()[:3] or x[-3:] == m.group()[-3:])]
            r = rng.random()
            if r < 0.3 and m.group() in ("Option",):
                new[k] = re.sub(r"Option<(.*)>", r"\1", l)
            elif r < 0.5:
                mm = re.match(r"(\s*pub \w+: )(.*),$", l)
                if not mm or mm.group(2).startswith("Option"):
                    continue
                new[k] = f"{mm.group(1)}Option<{mm.group(2)}>,"
            elif near:
                new[k] = l[:m.start()] + rng.choice(near) + l[m.end():]
            else:
                continue
        if new == lines:
            continue
        yield f"{path}:{k + 1}: {l.strip()[:110]}  ==>  {(new[k] if len(new) == len(lines) else '(deleted)').strip()[:110]}", "\n".join(new)


class Lab:
    def __init__(self, dir, n):
        self.dir = f"{dir}/lab{n}"
        if not os.path.exists(self.dir):
            os.makedirs(self.dir)
            subprocess.run(["cp", "-a", "/repo", self.dir + "/repo"], check=True)
            shutil.copytree(VERIF + "/harness", self.dir + "/harness", ignore=shutil.ignore_patterns("target"))
            p = self.dir + "/harness/Cargo.toml"
            s = open(p).read().replace("/repo", self.dir + "/repo")
            open(p, "w").write(s)
        self.repo = self.dir + "/repo"
        subprocess.run(["git", "-C", self.repo, "checkout", "-q", "--", "."], check=True)
        self.conf = self.dir + "/harness/target/release/conf"

    def cargo(self, args, cwd, timeout=400):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="4")
        try:
            return subprocess.run(["cargo"] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None

    def build(self):
        r = self.cargo(["build", "--release", "--offline"], self.dir + "/harness")
        return r is not None and r.returncode == 0

    def tests(self):
        r = self.cargo(["test", "--offline", "--workspace", "-q"], self.repo, 120)
        return r is not None and r.returncode == 0

    def notice(self, ls):
        """the first line whose observation differs"""
        def shard(part):
            if found:
                return
            p = subprocess.Popen([self.conf, "--flush"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            data = "".join(f"{k}\t{l}\n" for k, (l, _) in enumerate(part)).encode()
            try:
                out, _ = p.communicate(data, timeout=120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                found.append(("hang", part[0]))
                return
            outs = out.split(b"\n")[:-1]
            for (l, (prop, d)), o in zip(part, outs):
                try:
                    o = json.loads(o)
                except ValueError:
                    found.append(("garbled", (l, prop)))
                    return
                if "panic" in o or dig(o) != d:
                    found.append(("panic" if "panic" in o else "differs", (l, prop)))
                    return
            if len(outs) != len(part):
                found.append(("crash", part[min(len(outs), len(part) - 1)]))
        found = []
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(shard, [ls[k:k + 500] for k in range(0, len(ls), 500)]))
        return found[0] if found else None


def run(dir, workers, n, files):
    ls = pickle.load(open(dir + "/lines.pkl", "rb"))
    random.Random(3).shuffle(ls)
    keep = {"P\t" + l.strip().replace(" ", ",") for l in open(VERIF + "/corpus/grammar_killers.txt")}
    keep |= {c + "\t" + l.strip().encode().hex() for l in open(VERIF + "/corpus/morph_killers.txt") for c in ("D", "W")}
    count = {}
    some = []
    for l in ls:
        count[l[1][0]] = count.get(l[1][0], 0) + 1
        if l[0] in keep or count[l[1][0]] <= (4500 if l[0][0] not in 'YZ' else 500):
            some.append(l)
    ls = some
    print(len(ls), "lines")
    ls.sort(key=lambda x: x[0][0] in "YZ")
    files = files or ["src/lex/mod.rs", "src/lex/selmaho/classify.rs", "src/lex/selmaho/mod.rs", "src/decompose/mod.rs", "src/rules.rs", "src/span.rs", "src/parse/cst/rules/helpers.rs",
                      "src/parse/cst/rules/connectives.rs", "src/parse/cst/rules/selmaho.rs", "src/parse/cst/rules/mod.rs", "src/parse/cst/rules/mekso.rs", "src/parse/cst/mod.rs",
                      "src/parse/cst/error.rs", "src/parse/cst/parse_trait.rs", "src/parse/tree_node.rs", "macros/src/derive_tree_node.rs", "macros/src/derive_parse.rs"]
    log = open(dir + "/log.txt", "a")

    def one(w):
        lab = Lab(dir, w)
        rng = random.Random(time.time_ns() + w)
        streams = {}
        assert lab.build()
        base = lab.notice(ls[:4000])
        assert base is None, base
        for _ in range(n):
            f = rng.choices(files, [os.path.getsize("/repo/" + f) ** 0.5 for f in files])[0]
            path = f"{lab.repo}/{f}"
            text = open(path).read()
            if f not in streams:
                streams[f] = mutants(rng, f, text)
            desc, new = next(streams[f])
            open(path, "w").write(new)
            try:
                if not lab.build():
                    res = "no build"
                else:
                    hit = lab.notice(ls[:10000])
                    if hit:
                        res = "noticed " + hit[0]
                    elif not lab.tests():
                        res = "tests"
                    else:
                        hit = lab.notice(ls)
                        res = f"noticed late {hit[0]} {hit[1][1]} {str(hit[1][0])[:100]}" if hit else "UNNOTICED"
            finally:
                open(path, "w").write(text)
            if res != "no build":
                log.write(f"{res}\t{desc}\n")
                log.flush()
            if res == "UNNOTICED":
                open(f"{dir}/unnoticed-{time.time_ns()}.rs", "w").write(f"// {desc}\n" + new)
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(one, w) for w in range(workers)]:
            f.result()


if sys.argv[1] == "lines":
    os.makedirs(sys.argv[2], exist_ok=True)
    record(sys.argv[2])
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
