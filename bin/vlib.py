"""Shared machinery of the checks: building and driving the conformance harness, running TLC,
reporting.  Nothing here decides a property; the TLA+ modules in ../spec do."""
import contextlib, hashlib, json, os, random, re, select, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
CONF = os.path.join(VERIF, "harness", "target", "release", "conf")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# ----------------------------------------------------------------- harness
def build():
    """cargo build of the harness against /repo's working tree."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "harness"),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise ToolError("the harness does not build against /repo")
    log("harness built")


def hexs(text):
    return text.encode().hex()


class Driver:
    """One harness process; restarted when an item hangs or kills it."""

    def __init__(self, env=None):
        self.env, self.p = env, None

    def start(self):
        self.p = subprocess.Popen([CONF, "--flush"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=self.env)
        self.buf = b""
        os.set_blocking(self.p.stdout.fileno(), False)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def run(self, lines, timeout, hangs):
        """lines: list of 'cmd TAB args'; returns the list of observations (dicts)."""
        out = []
        pos = 0
        while pos < len(lines):
            if len(hangs) >= 4:
                out += [{"fail": "skipped", "msg": "after several hangs"} for _ in lines[pos:]]
                break
            if self.p is None:
                self.start()
            batch = lines[pos:pos + 200]
            data = "".join(f"{pos + k}\t{l}\n" for k, l in enumerate(batch)).encode()
            w = threading.Thread(target=self._write, args=(self.p, data), daemon=True)
            w.start()
            got, fail = 0, None
            while got < len(batch):
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if not r:
                    fail = "hang"
                    break
                chunk = self.p.stdout.read(1 << 20)
                if not chunk:
                    fail = "crash"
                    if self.p.wait() == 3:
                        raise ToolError("harness: " + self.p.stderr.read().decode(errors="replace"))
                    break
                self.buf += chunk
                while got < len(batch):
                    line, nl, rest = self.buf.partition(b"\n")
                    if not nl:
                        break
                    self.buf = rest
                    o = json.loads(line)
                    if o["id"] != pos + got:
                        raise ToolError("harness answers out of step")
                    if "panic" in o:
                        o = {"fail": "panic", "msg": o["panic"]}
                    out.append(o)
                    got += 1
            if fail:
                self.stop()
                if fail == "hang":
                    hangs.append(lines[pos + got])
                out.append({"fail": fail, "msg": fail})
                got += 1
            pos += got
        return out

    @staticmethod
    def _write(p, data):
        try:
            p.stdin.write(data)
            p.stdin.flush()
        except OSError:
            pass


def observe(lines, timeout=20.0, env=None):
    """Run every line on the real code, in parallel; observations in the order of the lines."""
    if not lines:
        return []
    n = max(1, min(CORES, len(lines) // 50 + 1))
    size = max(1, min(400, (len(lines) + n - 1) // n))
    shards = [lines[k:k + size] for k in range(0, len(lines), size)]
    local = threading.local()
    drivers = []
    hangs = []
    e = dict(os.environ, **env) if env else None

    def work(shard):
        if not hasattr(local, "d"):
            local.d = Driver(e)
            drivers.append(local.d)
        if len(hangs) >= 4:        # the rest would hang as well, and there is no use waiting for it
            return [{"fail": "skipped", "msg": "after several hangs"} for _ in shard]
        res = local.d.run(shard, timeout, hangs)
        return res

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(work, shards))
    for d in drivers:
        d.stop()
    return [o for r in res for o in r]


# ----------------------------------------------------------------- texts
def enc(ch):
    return ch if " " <= ch <= "~" else "<%x>" % ord(ch)


def chars(text):
    return [enc(c) for c in text]


class CharMap:
    """byte offsets -> 1-based character positions; -1 for an offset inside a character or outside"""

    def __init__(self, text):
        self.pos = {}
        b = 0
        for k, c in enumerate(text):
            self.pos[b] = k + 1
            b += len(c.encode())
        self.pos[b] = len(text) + 1

    def __call__(self, b):
        return self.pos.get(b, -1)

    def span(self, s):
        return [self(s[0]), self(s[1])] if s else []


@contextlib.contextmanager
def scratch(content):
    """a temporary file"""
    fd, path = tempfile.mkstemp(prefix="verif-")
    with os.fdopen(fd, "w") as f:
        f.write(content)
    try:
        yield path
    finally:
        os.unlink(path)


# ----------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.generated = 0
        self.runs = []


def tlc(module, cfg=None, env=None, workers=CORES, mem="6g", timeout=800, extra=(), lib=None):
    """Run TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", f"-Xmx{mem}", "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-cleanup",
           "-config", cfg or f"{module}.cfg", *extra, f"{module}.tla"]
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish in {timeout} s")
    finally:
        subprocess.run(["rm", "-rf", meta])
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    log(f"TLC {module} {cfg or ''}: exit {r.returncode}, {dist} states, {gen} generated, {time.time() - t:.1f} s")
    return r.returncode, out, dist, gen


def tlc_ok(module, **kw):
    rc, out, dist, gen = tlc(module, **kw)
    if rc != 0:
        tail = "\n".join(out.splitlines()[-60:])
        raise ToolError(f"TLC failed on {module} (exit {rc}):\n{tail}")
    return out, dist, gen


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>')


PRINTED = re.compile(r'^"([A-Z]+) (.*)"$', re.M)


def printed(out, tag):
    """what a specification printed with PrintT(tag \\o " " \\o ToJson(..))"""
    return [json.loads(v.replace('\\"', '"')) for t, v in PRINTED.findall(out) if t == tag]


def judge(module, records, chunk=40000, **kw):
    """Validate records against spec/<module>.tla.  Returns ([(index, reason)], states, transitions)."""
    bad, states, gen = [], 0, 0
    for base in range(0, len(records), chunk):
        part = records[base:base + chunk]
        fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for k, r in enumerate(part):
                f.write(json.dumps(dict(r, id=k)) + "\n")
        try:
            out, d, g = tlc_ok(module, env={"TRACE": path}, **kw)
        finally:
            os.unlink(path)
        if d < len(part):
            raise ToolError(f"TLC on {module} did not reach every record: {d} states for {len(part)} records")
        states += d
        gen += g
        bad += [(base + int(i), why) for i, why in BAD.findall(out)]
    return bad, states, gen


# ----------------------------------------------------------------- one check
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.rng = random.Random(f"{prop}-{self.seed}-{self.tier}")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.families = {}
        self.violations = []      # (key, description, replay dict)
        self.inconclusive = []
        self.notes = []
        self.assumptions = []
        self.exhaustive = None
        self.known = load_known().get(prop, {})
        self.fired = {}
        build()

    def model(self, module, **kw):
        """model-check the specification itself; a violated invariant of the spec is an error of ours"""
        out, d, g = tlc_ok(module, **kw)
        self.states += d
        self.transitions += g
        self.families[f"model {kw.get('cfg') or module}"] = {"states": d, "transitions": g}
        return out

    def violation(self, key, what, replay):
        if key in self.known:
            self.fired[key] = what
            return
        self.violations.append((key, what, replay))

    def validate(self, name, module, items, to_record, timeout=20.0, hang_is_violation=True, env=None,
                 keep=None, **kw):
        """items: list of (key, harness line, context).  Observes each on the real code, turns it into a
        record with to_record(observation, context) and has TLC judge it."""
        t = time.time()
        obs = observe([l for _, l, _ in items], timeout, env)
        recs, idx, fails = [], [], 0
        for k, ((key, line, ctx), o) in enumerate(zip(items, obs)):
            if "fail" in o:
                if o["fail"] == "skipped" or o["fail"] == "hang" and not hang_is_violation:
                    self.inconclusive.append(key)
                    continue
                fails += 1
                self.violation(key, f"{name}: no answer ({o['fail']}: {o['msg'][:200]})", {"line": line, "observed": o})
                continue
            r = to_record(o, ctx)
            if r is None:
                continue
            recs.append(r)
            idx.append(k)
        t1 = time.time()
        bad, d, g = judge(module, recs, **kw) if recs else ([], 0, 0)
        if keep:
            others = [why for _, why in bad if not keep(why)]
            bad = [b for b in bad if keep(b[1])]
            if others:
                self.notes.append(f"{name}: {len(others)} traces break other properties only, e.g. {others[0]}")
        log(f"{name}: {len(items)} items, observed in {t1 - t:.1f} s, {len(recs)} judged in {time.time() - t1:.1f} s, "
            f"{len(bad)} bad, {fails} unanswered")
        self.states += d
        self.transitions += g
        self.traces += len(recs)
        self.families[name] = {"items": len(items), "judged": len(recs), "states": d}
        for j in range(0, len(recs), max(1, len(recs) // 2)):
            if len(self.samples) < 24:
                self.samples.append({"family": name, "input": items[idx[j]][0], "record": brief(recs[j])})
        for j, why in bad:
            key, line, _ = items[idx[j]]
            self.violation(key, f"{name}: {why}", {"line": line, "module": module, "record": recs[j]})
        return obs

    def validate_records(self, name, module, recs):
        """judge records made already: (key, record)"""
        bad, d, g = judge(module, [r for _, r in recs]) if recs else ([], 0, 0)
        log(f"{name}: {len(recs)} judged, {len(bad)} bad")
        self.states += d
        self.transitions += g
        self.traces += len(recs)
        self.families[name] = {"items": len(recs), "judged": len(recs), "states": d}
        for j, why in bad:
            self.violation(recs[j][0], f"{name}: {why}", {"module": module, "record": recs[j][1]})

    def replay(self, name, items):
        """behaviours of the specification replayed into the code: (key, line, answers of the specification, of the code)"""
        bad = 0
        for key, line, want, got in items:
            if want != got:
                bad += 1
                self.violation(str(key), f"{name}: the code answers {json.dumps(got)[:300]}",
                               {"line": line, "specified": want, "observed": got})
        log(f"{name}: {len(items)} replayed, {bad} bad")
        self.traces += len(items)
        self.families[name] = {"items": len(items), "replayed": len(items)}

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        wall = time.time() - T0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "families": self.families}
        if self.inconclusive:
            cov["inconclusive"] = {"count": len(self.inconclusive), "examples": self.inconclusive[:5]}
        if self.notes:
            cov["notes"] = self.notes
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known.items():
            if key in self.fired:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
            elif not what.startswith("fixed"):
                log(f"note: listed finding did not occur: {key}")
        if not self.violations:
            log(f"{self.prop}: held on everything explored ({self.traces} traces, {self.states} states)")
            return 0
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        shown = sorted(self.violations, key=lambda v: len(str(v[0])))[:5]
        for key, what, replay in shown:
            h = hashlib.sha1(f"{self.prop}{key}{what}".encode()).hexdigest()[:12]
            path = os.path.join(d, f"{self.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "input": key, "what": what, **replay}, f, indent=1)
            log(f"{what}\n    input: {key!r}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        log(f"{len(self.violations)} violations in all")
        return 1


def brief(r):
    s = json.dumps(r)
    return r if len(s) < 1500 else s[:1500] + "..."


def load_known():
    """known-findings.json: [{"property":.., "key":.., "what":..}]; entries with "fixed" suppress nothing"""
    path = os.path.join(VERIF, "known-findings.json")
    res = {}
    if os.path.exists(path):
        for e in json.load(open(path)):
            if "key" in e:
                res.setdefault(e["property"], {})[e["key"]] = e["what"]
    return res
